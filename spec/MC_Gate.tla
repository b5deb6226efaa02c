------------------------------- MODULE MC_Gate -------------------------------
(* The compile-time gate: operands of every kind placed in every position   *)
(* of a filter, wrapped up to Depth times; Grammar!Classify says which of   *)
(* the resulting texts must be accepted and which refused.                  *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Depth, Wide
VARIABLES x, n, tag
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Fn(f, a) == [e |-> "fn", f |-> f, a |-> a]
A_ == SName(<<97>>)
Idx(neg, dg) == [s |-> "idx", neg |-> neg, dg |-> dg]
I0 == Idx(FALSE, <<48>>)
MaxDg == K_maxint
OverDg == SubSeq(K_maxint, 1, Len(K_maxint) - 1) \o <<50>>   \* 2^53
Huge == K_maxint \o <<48, 48, 48, 48, 48>>
B(neg, dg) == [z |-> FALSE, neg |-> neg, dg |-> dg]
Sl(a, b, c) == [s |-> "slice", a |-> a, b |-> b, c |-> c]
OneS == QX("self", <<Sg(A_)>>)
Unknown == <<110, 111, 112, 101>>
\* operands of each kind
Singulars == { OneS, QX("root", <<Sg(I0), Sg(A_)>>), QX("self", <<>>) }
Plurals == { QX("self", <<Sg(SWild)>>), QX("self", <<Seg(TRUE, <<A_>>, FALSE, FALSE)>>), QX("self", <<Sg(Sl(NoInt, NoInt, NoInt))>>),
             QX("root", <<Seg(FALSE, <<A_, I0>>, FALSE, FALSE), Sg(A_)>>), QX("self", <<Sg([s |-> "filt", x |-> OneS])>>) }
Lits == { Lit_(Null), Lit_(Bool(TRUE)), Lit_(NumOfInt(1)), Lit_(Str(<<97>>)), Lit_(MkNum(FALSE, <<1, 5>>, 1)) }
ValueFns == { Fn(K_length, <<OneS>>), Fn(K_count, <<QX("self", <<Sg(SWild)>>)>>), Fn(K_value, <<QX("self", <<Sg(SWild)>>)>>) }
LogicFns == { Fn(K_match, <<OneS, Lit_(Str(<<97>>))>>), Fn(K_search, <<Lit_(Str(<<97>>)), OneS>>) }
BadFns == { Fn(Unknown, <<OneS>>), Fn(K_length, <<>>), Fn(K_length, <<OneS, OneS>>), Fn(K_count, <<>>), Fn(K_match, <<OneS>>),
            Fn(K_count, <<Lit_(NumOfInt(1))>>), Fn(K_length, <<QX("self", <<Sg(SWild)>>)>>), Fn(K_value, <<Lit_(Str(<<>>))>>),
            Fn(K_search, <<OneS, QX("self", <<Sg(SWild)>>)>>), Fn(K_length, <<Fn(K_match, <<OneS, OneS>>)>>),
            Fn(K_count, <<Fn(K_value, <<OneS>>)>>), Fn(K_match, <<OneS, OneS, OneS>>), Fn(K_value, <<>>), Fn(K_count, <<OneS, OneS>>),
            Fn(K_length, <<Cmp("==", OneS, OneS)>>) }
BadSegs == { <<Sg(Idx(FALSE, OverDg))>>, <<Sg(Idx(TRUE, OverDg))>>, <<Sg(Idx(FALSE, Huge))>>, <<Sg(Sl(B(FALSE, OverDg), NoInt, NoInt))>>,
             <<Sg(Sl(NoInt, B(TRUE, OverDg), NoInt))>>, <<Sg(Sl(NoInt, NoInt, B(FALSE, OverDg)))>>, <<Sg(Idx(FALSE, <<48, 49>>))>>,
             <<Sg(Idx(TRUE, <<48, 49>>))>>, <<Sg(Idx(FALSE, <<48, 48>>))>>, <<Seg(FALSE, <<>>, FALSE, FALSE)>>,
             <<Seg(FALSE, <<A_>>, FALSE, TRUE)>>, <<Seg(FALSE, <<A_, I0>>, FALSE, TRUE)>>, <<Seg(TRUE, <<>>, FALSE, FALSE)>>,
             <<Seg(FALSE, <<A_, Idx(FALSE, <<48, 49>>)>>, FALSE, FALSE)>>, <<Seg(FALSE, <<Idx(FALSE, OverDg), A_>>, FALSE, FALSE)>> }
EdgeSegs == { <<Sg(Idx(FALSE, MaxDg))>>, <<Sg(Idx(TRUE, MaxDg))>>, <<Sg(Sl(B(FALSE, MaxDg), B(TRUE, MaxDg), B(TRUE, MaxDg)))>>,
              <<Sg(Idx(FALSE, <<49, 48>>))>>, <<Sg(Sl(B(FALSE, <<48>>), NoInt, B(FALSE, <<48>>)))>> }
BadQs == {QX(r, g) : r \in {"self", "root"}, g \in BadSegs \cup EdgeSegs}
Logics == { Cmp("==", OneS, Lit_(NumOfInt(1))), [e |-> "par", x |-> OneS], [e |-> "not", x |-> OneS],
            [e |-> "or", l |-> OneS, r |-> OneS] }
Kinds == Singulars \cup Plurals \cup Lits \cup ValueFns \cup LogicFns \cup BadFns \cup BadQs \cup Logics
\* the same kinds, one representative each, for wrapping further
Few == IF Wide THEN Kinds
       ELSE { OneS, QX("self", <<Sg(SWild)>>), Lit_(NumOfInt(1)), Lit_(Bool(FALSE)), Fn(K_length, <<OneS>>), Fn(K_match, <<OneS, Lit_(Str(<<97>>))>>),
              Fn(Unknown, <<OneS>>), QX("self", <<Sg(Idx(FALSE, OverDg))>>), QX("self", <<Seg(FALSE, <<A_>>, FALSE, TRUE)>>),
              [e |-> "par", x |-> OneS] }
Ops == {"==", "!=", "<", "<=", ">", ">="}
\* contexts: what an operand can be wrapped in
Wraps(y) ==
  {[e |-> "par", x |-> y], [e |-> "not", x |-> y], [e |-> "not", x |-> [e |-> "par", x |-> y]]}
  \cup {[e |-> o, l |-> y, r |-> OneS] : o \in {"and", "or"}} \cup {[e |-> o, l |-> OneS, r |-> y] : o \in {"and", "or"}}
  \cup {[e |-> "and", l |-> [e |-> "par", x |-> [e |-> "or", l |-> OneS, r |-> y]], r |-> OneS]}
  \cup {Cmp(o, y, Lit_(NumOfInt(1))) : o \in Ops} \cup {Cmp(o, OneS, y) : o \in Ops}
  \cup {Fn(f, <<y>>) : f \in {K_length, K_count, K_value}}
  \cup {Fn(f, <<y, Lit_(Str(<<97>>))>>) : f \in {K_match, K_search}} \cup {Fn(f, <<OneS, y>>) : f \in {K_match, K_search}}
  \cup {QX("self", <<Sg([s |-> "filt", x |-> y])>>), QX("root", <<Sg(A_), Seg(FALSE, <<A_, [s |-> "filt", x |-> y]>>, FALSE, FALSE)>>)}
  \cup {Fn(K_count, <<QX("self", <<Sg([s |-> "filt", x |-> y])>>)>>)}
Init == n = 0 /\ \/ (x \in Few /\ tag = "few") \/ (x \in Kinds \ Few /\ tag = "kind")
\* the wide pool is wrapped once, the representatives up to Depth times
Next == n < (IF tag = "few" THEN Depth ELSE 1) /\ n' = n + 1 /\ x' \in Wraps(x) /\ UNCHANGED tag
Q(i) == CASE i = 1 -> [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> x])>>]
          [] i = 2 -> [r |-> "root", g |-> <<Seg(TRUE, <<A_, [s |-> "filt", x |-> x]>>, FALSE, FALSE), Sg(A_)>>]
Txt(i, s) == SpQ(Q(i), RfcToks, Styles[s], FALSE)
Case(i, s) == LET t == Txt(i, s) c == Classify(t) IN
              c.c = "noclaim" \/ PrintT("@@" \o ToJson([t |-> t, c |-> c.c, f |-> c.f]))
Out == IF n = 0 THEN \A i \in 1..2 : \A s \in 1..4 : Case(i, s)
       ELSE Case(1, 1 + ((n + Len(Txt(1, 1))) % 4))
\* a query standing alone, without a filter
Plain == x.e # "q" \/ n > 0 \/ LET t == SpQ([x.q EXCEPT !.r = "root"], RfcToks, Styles[1], FALSE) c == Classify(t) IN
                      c.c = "noclaim" \/ PrintT("@@" \o ToJson([t |-> t, c |-> c.c, f |-> c.f]))
\* the typing pass on the syntax tree and on its text agree
Agree == LET p == Parse(Txt(1, 1), RfcToks) IN (p.ok /\ Bare(p.v.first) = Bare(Q(1))) => (FlawsC(p.v) = FlawsQ(Q(1)))
=============================================================================
