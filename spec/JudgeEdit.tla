----------------------------- MODULE JudgeEdit ------------------------------
(* Verdicts that need queries and pointers together.                        *)
EXTENDS Spell, JudgeQuery, JudgePointer

\* The matches of a query with their locations.
\* [t, g, o, err, ms: Seq([path, parts, ptr, pok: facts...])]
JLoc(e, doc, ctx) ==
  LET p == ParseTyped(e.t, Toks(e.g)) IN
  IF ~p.ok THEN "skip:not in the language"
  ELSE IF e.g = "rfc" /\ FlawsC(p.v) # {} THEN "skip:departure"
  ELSE IF e.o # "ok" THEN "evaluation failed with " \o e.err
  ELSE LET nl == FindCompound(p.v, doc, ctx) IN
  IF Len(nl) # Len(e.ms) THEN "nodelist has the wrong length"
  ELSE LET Bad(i) ==
             LET m == e.ms[i] l == nl[i].l IN
             IF m.parts # l THEN "parts are not the location of the node"
             ELSE IF m.path # NormPath(l) THEN "path is not the normalized path of the node"
             ELSE IF m.ptr # PText(LocTokens(l)) THEN "pointer is not the RFC 6901 spelling of the location"
             ELSE IF m.val # nl[i].v THEN "value is not the node's value"
             ELSE IF m.facts # <<>> THEN m.facts[1]
             ELSE IF l = <<>> THEN (IF m.parent = "none" THEN "ok" ELSE "the root has a parent")
             ELSE IF m.parent # "ok" THEN "parent: " \o m.parent
             ELSE IF m.pparts # SubSeq(l, 1, Len(l) - 1) THEN "parent is not one step shorter" ELSE "ok"
           B == {i \in 1..Len(nl) : Bad(i) # "ok"}
       IN IF B = {} THEN "ok" ELSE Bad(CHOOSE i \in B : \A j \in B : i <= j)

\* Edits of a document at the locations of a query's matches.
\* [t, g, o, err, new, ms: Seq([test, rep, rem])]; rep and rem are values
JEdit(e, doc, ctx) ==
  LET p == ParseTyped(e.t, Toks(e.g)) IN
  IF ~p.ok THEN "skip:not in the language"
  ELSE IF e.g = "rfc" /\ FlawsC(p.v) # {} THEN "skip:departure"
  ELSE IF e.o # "ok" THEN "evaluation failed with " \o e.err
  ELSE LET nl == FindCompound(p.v, doc, ctx) IN
  IF Len(nl) # Len(e.ms) THEN "nodelist has the wrong length"
  ELSE LET Bad(i) ==
             LET m == e.ms[i] T == LocTokens(nl[i].l) IN
             IF m.test # "ok" THEN "test of the matched value: " \o m.test
             ELSE IF m.rep.t = "fail" THEN "replace fails with " \o m.rep.e
             ELSE IF ~JEq(m.rep, Edit(doc, T, "replace", e.new).v) THEN "replace edits something else"
             ELSE IF T = <<>> THEN "ok"
             ELSE IF m.rem.t = "fail" THEN "remove fails with " \o m.rem.e
             ELSE IF ~JEq(m.rem, Edit(doc, T, "remove", Null).v) THEN "remove edits something else" ELSE "ok"
           B == {i \in 1..Len(nl) : Bad(i) # "ok"}
       IN IF B = {} THEN "ok" ELSE Bad(CHOOSE i \in B : \A j \in B : i <= j)
=============================================================================
