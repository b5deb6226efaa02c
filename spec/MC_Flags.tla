------------------------------ MODULE MC_Flags -------------------------------
(* Regular expression literals with their flags: a pattern, and a run of    *)
(* flags grown one flag at a time, in the places where a literal may stand. *)
EXTENDS Spell, Json
CONSTANTS Patterns
VARIABLES p, f
AllFlags == {97, 105, 109, 115}       \* a i m s
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Filter(x) == [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> x])>>]
Me == QX("self", <<>>)
Re(fl) == [e |-> "re", pat |-> p, fl |-> fl]
Hit(l, fl) == Cmp("=~", l, Re(fl))
Suite(fl) == << Filter(Hit(Me, fl)),
                Filter([e |-> "or", l |-> [e |-> "not", x |-> [e |-> "par", x |-> Hit(Me, fl)]], r |-> Hit([e |-> "key"], <<>>)]),
                Filter([e |-> "and", l |-> Hit(Me, fl), r |-> Hit(Me, <<>>)]),
                Filter([e |-> "or", l |-> Hit(Me, <<>>), r |-> Hit(Me, fl)]) >>
\* the patterns as codes: . ^a$ ^b a.b \w \d \s \W é k [a-z] [^a] a$ (?:a|é) s+
Plain == { <<46>>, <<94, 97, 36>>, <<94, 98>>, <<97, 46, 98>>, <<92, 119>>, <<92, 100>>, <<92, 115>>, <<92, 87>>, <<233>>, <<107>>, <<91, 97, 45, 122, 93>>,
           <<91, 94, 97, 93>>, <<97, 36>>, <<40, 63, 58, 97, 124, 233, 41>>, <<115, 43>>, <<98, 92, 110, 63, 36>> }
Init == p \in Patterns /\ f = <<>>
Next == \E c \in AllFlags : (\A i \in 1..Len(f) : f[i] # c) /\ f' = Append(f, c) /\ UNCHANGED p
Out == PrintT("@@" \o ToJson([t |-> [i \in 1..4 |-> SpQ(Suite(f)[i], StdToks, Styles[i], FALSE)]]))
\* the flags a literal is written with are the flags it has
Kept == \A i \in 1..4 : LET r == Parse(SpQ(Suite(f)[i], StdToks, Styles[i], FALSE), StdToks) IN r.ok /\ Bare(r.v.first) = Bare(Suite(f)[i])
=============================================================================
