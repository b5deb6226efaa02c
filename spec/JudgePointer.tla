---------------------------- MODULE JudgePointer ----------------------------
(* Verdicts on recorded pointer, relative pointer and patch calls.          *)
EXTENDS RelPointer, Patch

\* --- how a pointer came about ------------------------------------------------
\* [s |-> "text", t, ue]  [s |-> "parts", p, ue]  [s |-> "join", b, t]
\* [s |-> "parent", b]    [s |-> "rel", b, t]
\* what the implementation's "leading blanks" may include
PyBlank(c) == (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 32) \/ c > 127
RECURSIVE BuildToks(_), BuildOK(_)
BuildToks(b) ==
  CASE b.s = "text" -> Tokens(b.t)
    [] b.s = "parts" -> b.p
    [] b.s = "join" -> JoinToks(BuildToks(b.b), b.t)
    [] b.s = "parent" -> ParentToks(BuildToks(b.b))
    [] b.s = "rel" -> RelResult(ApplyRel(BuildToks(b.b), ParseRel(b.t)))
\* within the language the properties speak about?
BuildOK(b) ==
  CASE b.s = "text" -> SynOK(b.t) /\ ~(b.ue /\ HasBsl(b.t)) /\ ~AnyHuge(Tokens(b.t))
    [] b.s = "parts" -> ~AnyHuge(b.p) /\ ~\E i \in 1..Len(b.p) : b.ue /\ HasBsl(b.p[i])
    [] b.s = "join" -> BuildOK(b.b) /\ EscOK(b.t) /\ ~HasBsl(b.t) /\ ~PyBlank(At(b.t, 1))
                       /\ ~AnyHuge(JoinToks(<<>>, b.t))
    [] b.s = "parent" -> BuildOK(b.b)
    [] b.s = "rel" -> /\ BuildOK(b.b) /\ ~HasBsl(b.t)
                      /\ LET r == ParseRel(b.t) a == IF r.ok THEN ApplyRel(BuildToks(b.b), r) ELSE [ok |-> FALSE] IN
                         r.ok /\ a.ok /\ ~AnyHuge(a.toks)

NoneText == <<>>
\* [b, d, o: "node"|"reserr"|"default"|"ptrerr"|"other", at: token lists of the nodes that are that object]
JPtr(e, doc) ==
  IF ~BuildOK(e.b) THEN "skip:outside the claim"
  ELSE LET T == BuildToks(e.b) v == PEval(doc, T) IN
  IF v.t # "nothing"
  THEN IF e.o # "node" THEN "pointer to an existing node does not resolve: " \o e.o \o " " \o e.err
       ELSE IF \E i \in 1..Len(e.at) : e.at[i] = LocTokens(PLoc(doc, T)) THEN "ok"
       ELSE "pointer resolves to another node"
  ELSE IF ExtCase(doc, T) THEN "skip:documented extension"
  ELSE IF e.o = "node" THEN "pointer that RFC 6901 cannot evaluate yields a value"
  ELSE IF e.o # e.want THEN "unresolvable pointer: " \o e.o \o " " \o e.err ELSE "ok"

\* [b, d, o: "true"|"false"|..., res: outcome of resolve]
JExists(e, doc) ==
  IF e.o \notin {"true", "false"} THEN IF BuildOK(e.b) THEN "exists() fails with " \o e.err ELSE "skip:outside the claim"
  ELSE IF (e.o = "true") # (e.res = "node") THEN "exists() disagrees with resolve()"
  ELSE IF ~BuildOK(e.b) \/ ExtCase(doc, BuildToks(e.b)) THEN "skip:outside the claim"
  ELSE IF (e.o = "true") # (PEval(doc, BuildToks(e.b)).t # "nothing") THEN "exists() is wrong" ELSE "ok"

\* [b, o, str, parent (texts), up: is relative to its parent]
JNav(e) ==
  IF ~BuildOK(e.b) THEN "skip:outside the claim"
  ELSE IF e.o # "ok" THEN "pointer not built: " \o e.err
  ELSE LET T == BuildToks(e.b) IN
  IF e.str # PText(T) THEN "printed pointer is not the RFC 6901 spelling of its tokens"
  ELSE IF e.parent # PText(ParentToks(T)) THEN "parent() is not the pointer without its last token"
  ELSE IF e.up # IsRelTo(T, ParentToks(T)) THEN "is_relative_to() its parent is wrong"
  ELSE IF ~e.again THEN "parsing the printed pointer gives an unequal pointer" ELSE "ok"

\* [b, c, o, eq, hash, rel]
JEqv(e) ==
  IF ~BuildOK(e.b) \/ ~BuildOK(e.c) THEN "skip:outside the claim"
  ELSE IF e.o # "ok" THEN "pointers not compared: " \o e.err
  ELSE LET A == BuildToks(e.b) B == BuildToks(e.c) IN
  IF e.eq # (A = B) THEN "pointers are equal exactly when their tokens are"
  ELSE IF A = B /\ ~e.hash THEN "equal pointers with different hashes"
  ELSE IF e.rel # IsRelTo(A, B) THEN "is_relative_to() is wrong" ELSE "ok"

\* [b: base, t: relative text, p: "ok"|..., print, o: "ok"|"relerr"|"ptrerr"|"other", str, key: value the marker resolves to]
JRel(e) ==
  IF ~BuildOK(e.b) \/ HasBsl(e.t) THEN "skip:outside the claim"
  ELSE LET r == ParseRel(e.t) IN
  IF ~r.ok THEN IF e.p \in {"ok", "relerr", "ptrerr"} THEN "skip:not a relative pointer" ELSE "malformed relative pointer: " \o e.err
  ELSE IF AnyHuge(r.toks) THEN "skip:outside the claim"
  ELSE IF e.p # "ok" THEN "relative pointer not parsed: " \o e.err
  ELSE IF e.print # e.t THEN "printing a parsed relative pointer does not return its text"
  ELSE LET a == ApplyRel(BuildToks(e.b), r) IN
  IF ~a.ok THEN IF e.o = "relerr" THEN "ok" ELSE "forbidden application (" \o a.why \o "): " \o e.o \o " " \o e.err
  ELSE IF e.o # "ok" THEN "relative pointer not applied: " \o e.err
  ELSE IF e.str # PText(RelResult(a)) THEN "relative pointer applied wrongly" ELSE "ok"

\* the value a marked pointer denotes: the member name or index of its location
JKey(e, doc) ==
  IF ~BuildOK(e.b) \/ HasBsl(e.t) THEN "skip:outside the claim"
  ELSE LET r == ParseRel(e.t) a == IF r.ok THEN ApplyRel(BuildToks(e.b), r) ELSE [ok |-> FALSE] IN
  IF ~r.ok \/ ~a.ok \/ ~r.hash \/ AnyHuge(a.toks) \/ PEval(doc, a.toks).t = "nothing" \/ PEval(doc, MarkToks(a.toks)).t # "nothing"
  THEN "skip:no key"
  ELSE LET st == PLoc(doc, a.toks)[Len(a.toks)] IN
  IF e.o # "ok" THEN "key of an existing location not found: " \o e.err
  ELSE IF e.val # (IF st.k = "n" THEN Str(st.n) ELSE NumOfInt(st.i)) THEN "wrong key" ELSE "ok"

\* --- patches -----------------------------------------------------------------
\* operations arrive with pointer texts: [op, path, from, value]
OpsOf(ops) == [i \in 1..Len(ops) |-> [op |-> ops[i].op, path |-> Tokens(ops[i].path), from |-> Tokens(ops[i].from), value |-> ops[i].value]]
\* is every pointer text one the property speaks about?
OpsOK(ops, ue) == \A i \in 1..Len(ops) : \A t \in {ops[i].path, ops[i].from} :
                    SynOK(t) /\ ~(ue /\ HasBsl(t)) /\ ~AnyHuge(Tokens(t))
\* addap is only claimed where the token is an index or "-"
RECURSIVE ApClaim(_, _, _)
ApClaim(ops, i, doc) ==
  IF i > Len(ops) THEN TRUE
  ELSE /\ (ops[i].op = "addap" /\ ops[i].path # <<>>) =>
            LET v == PEval(doc, ParentToks(ops[i].path)) t == ops[i].path[Len(ops[i].path)] IN
            IsArr(v) => ArrIdx(v, t) >= 0
       /\ LET r == ApplyOp(ops[i], doc) IN r.ok => ApClaim(ops, i + 1, r.v)

\* [ops, ue, d, o: "ok"|"patcherr"|"testerr"|"other", val, err, alias]
JPatch(e, doc) ==
  IF ~OpsOK(e.ops, e.ue) THEN "skip:outside the claim"
  ELSE LET ops == OpsOf(e.ops) IN
  IF ~ApClaim(ops, 1, doc) THEN "skip:addap without an index"
  ELSE LET r == RunPatch(ops, doc) IN
  IF r.ok THEN IF e.o # "ok" THEN "patch fails with " \o e.err
               ELSE IF ~JEq(e.val, r.v) THEN "patched document differs"
               ELSE IF e.alias THEN "patched document shares containers" ELSE "ok"
  ELSE IF r.why = "noclaim" THEN "skip:removal of the root"
  ELSE IF e.o = "ok" THEN "patch applied despite: " \o r.why
  ELSE IF r.why = "failed test" THEN IF e.o = "testerr" THEN "ok" ELSE "failed test reported as " \o e.err
  ELSE IF r.why = "test of a missing target" THEN IF e.o \in {"testerr", "patcherr"} THEN "ok" ELSE "patch fails with " \o e.err
  ELSE IF e.o = "patcherr" THEN "ok" ELSE "patch that violates the RFC (" \o r.why \o ") fails with " \o e.err

\* [ops: as given, printed: Seq([op, path, from, value, keys]), ue]
KeysOf(o) == CASE o.op \in {"add", "addne", "addap", "replace", "test"} -> {"op", "path", "value"}
               [] o.op = "remove" -> {"op", "path"}
               [] OTHER -> {"op", "from", "path"}
JForms(e) ==
  IF ~OpsOK(e.ops, e.ue) THEN "skip:outside the claim"
  ELSE IF e.o # "ok" THEN "patch not built: " \o e.err
  ELSE IF Len(e.printed) # Len(e.ops) THEN "patch prints another number of operations"
  ELSE LET Bad(i) == LET p == e.printed[i] o == e.ops[i] IN
             IF p.op # o.op THEN "operation printed under another name"
             ELSE IF Range(p.keys) # KeysOf(o) THEN "operation printed with other members"
             ELSE IF p.path # o.path \/ p.from # o.from THEN "operation printed with another pointer"
             ELSE IF ~JEq(p.value, o.value) THEN "operation printed with another value" ELSE "ok"
           B == {i \in 1..Len(e.ops) : Bad(i) # "ok"}
       IN IF B = {} THEN "ok" ELSE Bad(CHOOSE i \in B : TRUE)

\* One list of operations, built in several ways: they print alike, keep what was given, and do alike.
\* [ops, fs: Seq([o, err, printed, ends: Seq([o, val])])]
JAgree(e) ==
  LET A == e.fs[1]
      Bad(i) ==
        LET B == e.fs[i] IN
        IF B.o # A.o THEN "one form of a patch is built, another is not: " \o A.err \o B.err
        ELSE IF A.o # "ok" THEN "ok"
        ELSE IF Len(B.printed) # Len(e.ops) THEN "patch prints another number of operations"
        ELSE IF \E j \in 1..Len(e.ops) :
                  LET p == B.printed[j] o == e.ops[j] IN p.op # o.op \/ Range(p.keys) # KeysOf(o) \/ ~JEq(p.value, o.value)
             THEN "operation printed with another name, other members or another value"
        ELSE IF \E j \in 1..Len(e.ops) : B.printed[j].path # A.printed[j].path \/ B.printed[j].from # A.printed[j].from
             THEN "forms of a patch print different pointers"
        ELSE IF \E j \in 1..Len(B.ends) : B.ends[j].o # A.ends[j].o \/ ~JEq(B.ends[j].val, A.ends[j].val)
             THEN "forms of a patch have different effects" ELSE "ok"
      S == {i \in 1..Len(e.fs) : Bad(i) # "ok"}
  IN IF S = {} THEN "ok" ELSE Bad(CHOOSE i \in S : TRUE)
=============================================================================
