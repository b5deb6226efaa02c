------------------------------ MODULE MC_Tokens ------------------------------
(* Assignments of spellings to the configurable identifiers, reached by     *)
(* renaming one identifier at a time (or swapping two); under each, every   *)
(* query of a suite is spelled twice: with the assignment and with the      *)
(* default spellings.                                                       *)
EXTENDS Spell, Json
CONSTANTS MaxRenames
VARIABLES T, n
Ids == {"root", "fake", "self", "key", "ctx", "keys", "union", "inter"}
Punct == { <<37>>, <<37, 37>>, <<36>>, <<36, 36>>, <<64, 64>>, <<94>>, <<94, 94>>, <<126, 126>>, <<35, 35>>, <<123>>, <<123, 125>>, <<59>>, <<92>>, <<36, 64>>, <<64, 36>> }
Starry == { <<42, 126>> }                  \* documented for the keys selector
Words_ == { <<82, 79, 79, 84>>, <<82, 79, 79, 84, 83>>, <<95, 95>> }  \* names of their own
Choices(i) == Punct \cup (IF i = "keys" THEN Starry ELSE {}) \cup (IF i \in {"root", "self", "ctx", "key", "fake"} THEN Words_ ELSE {})
\* (after a dot a keys selector that begins like a name would be one)
Distinct(t) == ~IsNameFirst(t.keys[1]) /\ Cardinality({t[i] : i \in Ids}) = 8
\* no spelling ends with the beginning of another unless one is a prefix of the other
Init == T = StdToks /\ n = 0
Next == /\ n < MaxRenames /\ n' = n + 1
        /\ \/ \E i \in Ids : \E w \in Choices(i) : T' = [T EXCEPT ![i] = w]
           \/ \E i, j \in Ids : i # j /\ j # "union" /\ i # "union" /\ i # "inter" /\ j # "inter" /\ T' = [T EXCEPT ![i] = T[j], ![j] = T[i]]
           \/ T' = [T EXCEPT !.union = T.inter, !.inter = T.union]
        /\ Distinct(T')

Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Nm(c) == Sg(SName(<<c>>))
F(x) == Sg([s |-> "filt", x |-> x])
Q(r, g) == [r |-> r, g |-> g]
C1(q) == [first |-> q, rest |-> <<>>]
Suite == <<
  C1(Q("root", <<Nm(97), Sg(SWild)>>)),
  C1(Q("root", <<F(Cmp("==", QX("self", <<Nm(97)>>), QX("root", <<Nm(98)>>)))>>)),
  C1(Q("root", <<F(Cmp("==", QX("ctx", <<Nm(97)>>), QX("self", <<>>)))>>)),
  C1(Q("root", <<F([e |-> "or", l |-> Cmp("==", [e |-> "key"], Lit_(Str(<<97>>))), r |-> Cmp("<", Lit_(NumOfInt(0)), [e |-> "key"])])>>)),
  C1(Q("root", <<Seg(FALSE, <<SKeys, SName(<<97>>), SKeys>>, FALSE, FALSE)>>)),
  C1(Q("root", <<Seg(TRUE, <<SKeys>>, TRUE, FALSE)>>)),
  C1(Q("fake", <<F(QX("self", <<Nm(97)>>)), Nm(97)>>)),
  C1(Q("root", <<F(QX("fake", <<F(Cmp("==", QX("self", <<Nm(98)>>), QX("ctx", <<Nm(98)>>)))>>))>>)),
  C1(Q("root", <<F([e |-> "and", l |-> [e |-> "not", x |-> QX("self", <<Nm(122)>>)], r |-> QX("ctx", <<F(Cmp("in", QX("self", <<>>), QX("root", <<Nm(97)>>)))>>)])>>)),
  [first |-> Q("root", <<Nm(97)>>), rest |-> <<[op |-> "union", q |-> Q("fake", <<Sg(SWild), Nm(98)>>)], [op |-> "inter", q |-> Q("root", <<Sg(SWild)>>)], [op |-> "union", q |-> Q("root", <<Sg(SKeys)>>)]>>],
  C1(Q("root", <<F([e |-> "fn", f |-> K_search, a |-> <<[e |-> "key"], QX("ctx", <<Nm(99)>>)>>])>>)),
  C1(Q("root", <<F(Cmp(">", [e |-> "fn", f |-> K_count, a |-> <<QX("self", <<Seg(TRUE, <<SKeys, SWild>>, FALSE, FALSE)>>)>>], Lit_(NumOfInt(1))))>>))
>>
Op(op, t) == IF op = "union" THEN t.union ELSE t.inter
Txt(c, t, st) == SpQ(c.first, t, st, FALSE) \o
  Flat([i \in 1..Len(c.rest) |-> <<32>> \o Op(c.rest[i].op, t) \o <<32>> \o SpQ(c.rest[i].q, t, st, FALSE)])
TextsOf(i, t) == [k \in 1..2 |-> Txt(Suite[i], t, Styles[IF k = 1 THEN 1 + (i % 2) ELSE 3])]
Out == PrintT("@@" \o ToJson([T |-> T, q |-> [i \in 1..Len(Suite) |-> [t |-> TextsOf(i, T), t0 |-> TextsOf(i, StdToks)]]]))
\* the grammar reads both spellings as the query
Same == \A i \in 1..Len(Suite) : \A k \in 1..2 :
  LET p == Parse(TextsOf(i, T)[k], T) p0 == Parse(TextsOf(i, StdToks)[k], StdToks) IN
  p.ok /\ p0.ok /\ Bare(p.v.first) = Bare(p0.v.first) /\ Bare(p.v.first) = Bare(Suite[i].first) /\ Len(p.v.rest) = Len(Suite[i].rest)
=============================================================================
