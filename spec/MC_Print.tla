------------------------------ MODULE MC_Print -------------------------------
(* Texts whose contents need quoting or exact printing: a string over a     *)
(* small alphabet of characters that matter, grown one character at a time, *)
(* in every position of a query where a string, pattern or number may stand.*)
EXTENDS Spell, TLC, Json
CONSTANTS MaxLen
VARIABLES w
Alphabet == {39, 34, 92, 47, 97, 117, 110, 10, 0, 127, 8232, 128512, 93, 48}
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Me == QX("self", <<>>)
Filter(x) == [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> x])>>]
Strings == { [r |-> "root", g |-> <<Sg(SName(w))>>], [r |-> "root", g |-> <<Seg(TRUE, <<SName(w), SWild>>, FALSE, FALSE)>>],
             Filter(Cmp("==", Me, Lit_(Str(w)))), Filter(QX("self", <<Sg(SName(w))>>)),
             Filter(Cmp("in", Me, [e |-> "list", a |-> <<Lit_(Str(w)), Lit_(NumOfInt(1))>>])),
             Filter([e |-> "fn", f |-> K_match, a |-> <<Me, Lit_(Str(w))>>]),
             Filter(Cmp("==", [e |-> "key"], Lit_(Str(w)))) }
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E c \in Alphabet : w' = Append(w, c)
Styl(q) == {SpQ(q, StdToks, Styles[i], FALSE) : i \in 1..2}
Out == PrintT("@@" \o ToJson([t |-> UNION {Styl(q) : q \in Strings}]))
Inverse == \A q \in Strings : \A i \in 1..2 :
  LET p == Parse(SpQ(q, StdToks, Styles[i], FALSE), StdToks) IN p.ok /\ Bare(p.v.first) = Bare(q)
=============================================================================
