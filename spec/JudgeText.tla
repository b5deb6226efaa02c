----------------------------- MODULE JudgeText ------------------------------
(* The text of a compiled query.  Two texts denote the same query when      *)
(* their syntax trees agree up to spelling: redundant parentheses, the      *)
(* nesting of a run of one logical operator, shorthands, quotes, synonyms.  *)
(* When the trees differ the two are evaluated on the recorded documents.   *)
EXTENDS JudgeQuery

RECURSIVE Terms(_, _), NX(_), NQ(_)
Terms(x, op) == IF x.e = "par" THEN Terms(x.x, op)
                ELSE IF x.e = op THEN Terms(x.l, op) \o Terms(x.r, op) ELSE <<NX(x)>>
NX(x) ==
  CASE x.e \in {"and", "or"} -> [e |-> x.e, a |-> Terms(x, x.e)]
    [] x.e = "par" -> NX(x.x)
    [] x.e = "not" -> [e |-> "not", x |-> NX(x.x)]
    [] x.e = "cmp" -> [e |-> "cmp", op |-> IF x.op = "<>" THEN "!=" ELSE x.op, l |-> NX(x.l), r |-> NX(x.r)]
    [] x.e = "q" -> [e |-> "q", q |-> NQ(x.q)]
    [] x.e = "fn" -> [e |-> "fn", f |-> x.f, a |-> [i \in 1..Len(x.a) |-> NX(x.a[i])]]
    [] x.e = "list" -> [e |-> "list", a |-> [i \in 1..Len(x.a) |-> NX(x.a[i])]]
    [] x.e = "re" -> [e |-> "re", pat |-> x.pat, fl |-> Range(x.fl)]
    [] OTHER -> x
NSel(s) == IF s.s = "filt" THEN [s |-> "filt", x |-> NX(s.x)]
           ELSE IF s.s = "idx" THEN [s |-> "idx", neg |-> s.neg, dg |-> s.dg]
           \* an absent step is 1
           ELSE IF s.s = "slice" /\ s.c.z THEN [s EXCEPT !.c = [z |-> FALSE, neg |-> FALSE, dg |-> <<49>>]] ELSE s
NQ(q) == [r |-> q.r, g |-> [i \in 1..Len(q.g) |->
           [d |-> q.g[i].d, ss |-> [j \in 1..Len(q.g[i].ss) |-> NSel(q.g[i].ss[j])]]]]
NC(c) == [first |-> NQ(c.first), rest |-> [i \in 1..Len(c.rest) |-> [op |-> c.rest[i].op, q |-> NQ(c.rest[i].q)]]]

\* same query as far as these documents can tell; docs: indices into D, ctx: a value
SameOn(p, q, docs, ctx, D) == \A k \in 1..Len(docs) :
  Vals(FindCompound(p, D[docs[k]], ctx)) = Vals(FindCompound(q, D[docs[k]], ctx))

\* [t: text given, T: its token table, s: the text the compiled query prints, U: the table to read it with,
\*  o: did s compile ("ok"), s2: what the recompiled query prints,
\*  r: seq of [a, b]: fingerprints of the results of the query and of its recompiled self, docs, c]
JStr(e, D) ==
  IF e.o # "ok" THEN "the text of a compiled query does not compile: " \o e.o
  ELSE IF e.s2 # e.s THEN "the text of a compiled query is not a fixed point"
  ELSE IF \E k \in 1..Len(e.r) : e.r[k].a # e.r[k].b THEN "the recompiled query gives other matches"
  ELSE LET p == ParseTyped(e.t, e.T) IN
       IF ~p.ok THEN "ok"
       ELSE LET q == ParseTyped(e.s, e.T) IN
            IF ~q.ok THEN "skip:printed outside the specified language"
            ELSE IF NC(p.v) = NC(q.v) THEN "ok"
            ELSE IF SameOn(p.v, q.v, e.docs, D[e.c], D) THEN "skip:printed in another form"
            ELSE "the text of a compiled query denotes another query"

\* a query written with other identifier spellings: [t, T, t0: with the default spellings,
\*  o, o0: outcomes of compiling, r: results of both on documents]
JTok(e) ==
  LET p == Parse(e.t, e.T) p0 == Parse(e.t0, StdToks) IN
  IF ~p0.ok THEN "skip:not in the language"
  ELSE IF ~p.ok \/ NC(p.v) # NC(p0.v) THEN "skip:overlapping spellings"
  ELSE IF e.o0 # "ok" /\ e.o = "ok" THEN "accepted with other spellings only"
  ELSE IF e.o0 = "ok" /\ e.o # "ok" THEN "refused with other spellings: " \o e.o
  ELSE IF \E k \in 1..Len(e.r) : e.r[k].a # e.r[k].b THEN "evaluates differently with other spellings"
  ELSE "ok"
=============================================================================
