----------------------------- MODULE MC_Project ------------------------------
(* The projection machine: from a match, relative queries are added one at  *)
(* a time; the selection grows and with it the projection.                  *)
EXTENDS Spell, Projection, Json, IOUtils
CONSTANTS MaxSel, Wide
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES d, m, rels, S
I(n) == [s |-> "idx", neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
Sl(a, b) == [s |-> "slice", a |-> a, b |-> b, c |-> NoInt]
C(ss) == Seg(FALSE, ss, FALSE, FALSE)
P(n) == [z |-> FALSE, neg |-> FALSE, dg |-> Nat2Text(n)]
N(c) == SName(<<c>>)
Base == << <<C(<<N(97)>>)>>, <<C(<<N(98)>>)>>, <<C(<<I(0)>>)>>, <<C(<<I(2)>>)>>, <<C(<<N(97)>>), C(<<I(1)>>)>>, <<C(<<N(97)>>), C(<<I(-1)>>)>>,
           <<C(<<SWild>>)>>, <<C(<<I(1)>>), C(<<N(97)>>)>>, <<C(<<SName(<<48>>)>>)>>, <<C(<<N(97), SName(<<48>>)>>), C(<<SWild>>)>>,
           <<C(<<Sl(P(9), P(11))>>)>> >>
More == << <<C(<<N(97)>>), C(<<N(98)>>)>>, <<C(<<Sl(P(1), NoInt)>>)>>, <<C(<<SWild>>), C(<<N(98)>>)>>, <<C(<<I(1), I(2)>>)>>, <<Seg(TRUE, <<N(98)>>, FALSE, FALSE)>>,
           <<Seg(TRUE, <<I(1)>>, FALSE, FALSE)>>, <<C(<<N(97)>>), C(<<I(1)>>), C(<<I(1)>>)>>, <<C(<<N(97)>>), C(<<I(0)>>)>>,
           <<C(<<I(1)>>), C(<<SWild>>)>>, <<C(<<SName(<<45, 49>>)>>)>>, <<C(<<Sl(NoInt, P(2))>>), C(<<Sl(P(1), P(3))>>)>>,
           <<C(<<[s |-> "filt", x |-> [e |-> "q", q |-> [r |-> "self", g |-> <<C(<<N(98)>>)>>]]]>>)>> >>
Pool == IF Wide THEN Base \o More ELSE Base
Q(g) == [r |-> "root", g |-> g]
Init == /\ d \in 1..Len(Docs)
        /\ \E i \in 1..Len(Nodes(Docs[d])) : m = Nodes(Docs[d])[i]
        /\ rels = <<>> /\ S = <<>>
\* only what is claimed is extended
Claimed == Below(S) /\ Ascending(S) /\ ~Muddled(S)
Next == /\ Len(rels) < MaxSel
        /\ IF Container(m.v)
           THEN Claimed /\ \E i \in 1..Len(Pool) : rels' = Append(rels, Q(Pool[i])) /\ S' = S \o Find(Q(Pool[i]), m.v, Null)
           ELSE rels = <<>> /\ rels' = <<Q(Pool[1])>> /\ S' = <<>>
        /\ UNCHANGED <<d, m>>
TextsOf(i) == SpQ(rels[i], StdToks, Styles[1 + (i % 2)], FALSE)
Out == rels = <<>> \/ PrintT("@@" \o ToJson([d |-> d, m |-> m.l, t |-> NormPath(m.l), r |-> [i \in 1..Len(rels) |-> IF i % 3 = 0 THEN TextsOf(i) ELSE Rootless(TextsOf(i))],
            f |-> Project(m, S, "flat"), c |-> Claimed, rel |-> IF Claimed THEN Project(m, S, "relative") ELSE <<>>, root |-> IF Claimed THEN Project(m, S, "root") ELSE <<>>]))
\* Project has the form the property gives it
Found == (Claimed /\ S # <<>>) => FoundAll(S) /\ NoOther(S) /\ FoundAll(Moved(S, m.l)) /\ NoOther(Moved(S, m.l))
=============================================================================
