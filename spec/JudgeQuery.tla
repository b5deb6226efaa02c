----------------------------- MODULE JudgeQuery -----------------------------
(* Verdicts on recorded query evaluations and compilations.                 *)
EXTENDS Grammar

\* toks: "rfc" or "ext"
Toks(x) == IF x = "rfc" THEN RfcToks ELSE StdToks

\* [t: query text, g: grammar, o: "ok"|"err", vals: values returned, err]
JFind(e, doc, ctx) ==
  LET p == ParseTyped(e.t, Toks(e.g)) IN
  IF ~p.ok THEN "skip:not in the language"
  ELSE IF e.g = "rfc" /\ FlawsC(p.v) # {} THEN "skip:departure"
  ELSE IF e.o # "ok" THEN "evaluation failed with " \o e.err
  ELSE LET nl == FindCompound(p.v, doc, ctx) IN
       IF Len(nl) # Len(e.vals) THEN "nodelist has the wrong length"
       ELSE IF Vals(nl) # e.vals THEN "nodelist differs" ELSE "ok"

\* integers a query uses as index or slice bounds
RECURSIVE IntsQ(_), IntsX(_)
IntsSel(s) == CASE s.s = "idx" -> {[neg |-> s.neg, dg |-> s.dg]}
                [] s.s = "slice" -> {[neg |-> i.neg, dg |-> i.dg] : i \in {j \in {s.a, s.b, s.c} : ~j.z}}
                [] s.s = "filt" -> IntsX(s.x)
                [] OTHER -> {}
IntsQ(q) == UNION {UNION {IntsSel(q.g[i].ss[j]) : j \in 1..Len(q.g[i].ss)} : i \in 1..Len(q.g)}
IntsX(x) == CASE x.e \in {"or", "and", "cmp"} -> IntsX(x.l) \cup IntsX(x.r)
              [] x.e \in {"not", "par"} -> IntsX(x.x)
              [] x.e = "q" -> IntsQ(x.q)
              [] x.e = "fn" -> UNION {IntsX(x.a[i]) : i \in 1..Len(x.a)}
              [] OTHER -> {}
\* lo, hi: digit strings of the magnitudes of min_int_index (<= 0) and max_int_index
OutOfRange(i, lo, hi) == IF i.neg THEN DigGt(i.dg, lo) ELSE DigGt(i.dg, hi)

\* [t: query text, lo, hi: configured bounds, o: outcome]
JRange(e) ==
  LET p == Parse(e.t, RfcToks) IN
  IF ~p.ok THEN "skip:not in the language"
  ELSE LET f == FlawsC(p.v) \ {"range"} IN
       IF f # {} THEN "skip:other flaw"
       ELSE IF \E i \in IntsQ(p.v.first) : OutOfRange(i, e.lo, e.hi)
            THEN IF e.o = "refused" THEN "ok" ELSE "bound outside the configured range: " \o e.o \o " " \o e.err
            ELSE IF e.o = "accepted" THEN "ok" ELSE "bounds within the configured range not accepted: " \o e.err

\* [t: query text, o: "accepted"|"refused"|"other"]
JGate(e) ==
  LET c == Classify(e.t) IN
  CASE c.c = "valid" -> IF e.o = "accepted" THEN "ok" ELSE "valid query not accepted: " \o e.err
    [] c.c = "reject" -> IF e.o = "refused" THEN "ok"
                         ELSE IF e.o = "accepted" THEN "query accepted despite " \o (CHOOSE f \in c.f : TRUE)
                         ELSE "query refused with " \o e.err
    [] OTHER -> "skip:no claim"
=============================================================================
