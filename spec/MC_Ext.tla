------------------------------- MODULE MC_Ext --------------------------------
(* The query machine over the non-standard selectors, identifiers and       *)
(* operators: a nodelist, one more segment at each step, from `$` or `^`.   *)
EXTENDS Spell, Json, IOUtils
CONSTANTS MaxSegs
Docs == ndJsonDeserialize(IOEnv.DOCS)     \* the last one is the filter context
VARIABLES d, q, nl
NDocs == Len(Docs) - 1
Ctx == Docs[Len(Docs)]
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Fn(f, a) == [e |-> "fn", f |-> f, a |-> a]
N(c) == SName(<<c>>)
F(x) == Sg([s |-> "filt", x |-> x])
Me == QX("self", <<>>)
Key == [e |-> "key"]
Undef == [e |-> "undef"]
List_(xs) == [e |-> "list", a |-> xs]
A_ == 97  B_ == 98  C_ == 99
Idx(neg, dg) == [s |-> "idx", neg |-> neg, dg |-> dg]
One == Lit_(NumOfInt(1))
Pool == << Sg(SKeys), Seg(TRUE, <<SKeys>>, FALSE, FALSE), Seg(FALSE, <<N(A_), SKeys, SWild>>, FALSE, FALSE), Sg(SWild), Sg(N(A_)), Sg(Idx(FALSE, <<48>>)), Sg(Idx(TRUE, <<49>>)), Sg([s |-> "slice", a |-> NoInt, b |-> NoInt, c |-> NoInt]),
  Seg(FALSE, <<N(A_), N(C_), Idx(FALSE, <<49>>)>>, FALSE, FALSE), Seg(TRUE, <<N(A_)>>, FALSE, FALSE),
  F(Cmp("==", Key, Lit_(Str(<<A_>>)))), F(Cmp(">", Key, Lit_(NumOfInt(0)))), F(Cmp("in", Key, QX("ctx", <<Sg(N(A_))>>))), F(Cmp("==", Key, Me)),
  F(QX("ctx", <<Sg(N(A_))>>)), F(Cmp("==", QX("ctx", <<Sg(N(B_))>>), Me)),
  F(QX("self", <<F(Cmp("==", Me, QX("ctx", <<Sg(N(B_))>>)))>>)), F(QX("self", <<F(Cmp("==", Key, Lit_(Str(<<B_>>))))>>)),
  F(QX("ctx", <<F(Cmp("==", Me, QX("root", <<Sg(N(B_))>>)))>>)), F(Cmp("==", QX("fake", <<Sg([s |-> "idx", neg |-> FALSE, dg |-> <<48>>]), Sg(N(B_))>>), Me)),
  F(QX("fake", <<F(QX("self", <<Sg(N(A_))>>))>>)), F(Cmp("contains", Me, Lit_(Str(<<A_>>)))), F(Cmp("in", Me, List_(<<One, Lit_(Str(<<A_>>)), Lit_(Bool(TRUE))>>))),
  F(Cmp("in", Lit_(Str(<<A_>>)), Me)), F(Cmp("==", QX("self", <<Sg(N(A_))>>), Undef)), F(Cmp("!=", Undef, QX("self", <<Sg(N(A_))>>))), F(Cmp("<>", Me, One)),
  F(Cmp(">", Fn(K_count, <<QX("self", <<Sg(SKeys)>>)>>), One)), F(Cmp("=~", Key, [e |-> "re", pat |-> <<91, 65, 66, 93>>, fl |-> <<105>>])),
  F(Cmp("=~", Me, [e |-> "re", pat |-> <<65, DOT, STAR>>, fl |-> <<105>>])), F(Cmp("=~", Me, [e |-> "re", pat |-> <<97>>, fl |-> <<>>])), F(Cmp("==", Fn(K_value, <<QX("ctx", <<Seg(TRUE, <<N(C_)>>, FALSE, FALSE)>>)>>), Me)) >>
Init == d \in 1..NDocs /\ \E r \in {"root", "fake"} : q = [r |-> r, g |-> <<>>] /\ nl = Find(q, Docs[d], Ctx)
Next == /\ Len(q.g) < MaxSegs
        /\ \E i \in 1..Len(Pool) : q' = [q EXCEPT !.g = Append(@, Pool[i])] /\ nl' = ApplySeg(Pool[i], nl, [root |-> Docs[d], ctx |-> Ctx])
        /\ UNCHANGED d
Sty(i) == IF i = 1 THEN Styles[2] ELSE WordStyles[i]
Txt(i) == LET t == SpQ(q, StdToks, Sty(i), FALSE) IN IF i > 2 THEN Rootless(t) ELSE t
Out == PrintT("@@" \o ToJson([d |-> d, t |-> [i \in 1..4 |-> Txt(i)], v |-> Vals(nl)]))
Whole == nl = Find(q, Docs[d], Ctx)
Parses == \A i \in 1..4 : LET p == Parse(Txt(i), StdToks) IN p.ok /\ Vals(FindCompound(p.v, Docs[d], Ctx)) = Vals(nl)
=============================================================================
