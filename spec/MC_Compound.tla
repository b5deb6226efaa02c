----------------------------- MODULE MC_Compound -----------------------------
(* The compound-query machine: one more operand is appended to a compound   *)
(* query, and the nodelist changes accordingly.  Every compound of up to    *)
(* MaxOps operators over a pool of operands is explored on each document,   *)
(* and printed with the locations of its result.                            *)
EXTENDS Spell, Json, IOUtils
CONSTANTS MaxOps
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES d, cq, nl

N(t) == SName(t)
I(n) == [s |-> "idx", neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
C(ss) == Seg(FALSE, ss, FALSE, FALSE)
Q1(g) == [r |-> "root", g |-> g]
O == NoInt
RevSl == [s |-> "slice", a |-> O, b |-> O, c |-> [z |-> FALSE, neg |-> TRUE, dg |-> <<49>>]]
self == [r |-> "self", g |-> <<>>]
EqFirst == [s |-> "filt", x |-> [e |-> "cmp", op |-> "==", l |-> [e |-> "q", q |-> self],
                                 r |-> [e |-> "q", q |-> Q1(<<C(<<N(<<98>>)>>), C(<<I(0)>>)>>)]]]
Pool == << Q1(<<>>), Q1(<<C(<<N(<<97>>)>>), C(<<SWild>>)>>), Q1(<<C(<<N(<<98>>)>>), C(<<SWild>>)>>),
           Q1(<<C(<<N(<<99>>)>>), C(<<RevSl>>)>>), Q1(<<C(<<N(<<97>>)>>), C(<<EqFirst>>)>>),
           Q1(<<Seg(TRUE, <<I(0)>>, FALSE, FALSE)>>), Q1(<<C(<<N(<<122>>)>>)>>), [r |-> "fake", g |-> <<C(<<I(0)>>), C(<<N(<<98>>)>>), C(<<I(0)>>)>>] >>
OpTok(op, T) == IF op = "union" THEN T.union ELSE T.inter
Text(c, T, st) == SpQ(c.first, T, st, FALSE) \o
  Flat([i \in 1..Len(c.rest) |-> st.b \o OpTok(c.rest[i].op, T) \o st.b \o SpQ(c.rest[i].q, T, st, FALSE)])
CTexts(c) == [i \in 1..Len(Styles) |-> Text(c, StdToks, Styles[i])]
Case(d1, c, n) == [d |-> d1, t |-> CTexts(c), v |-> [i \in 1..Len(n) |-> n[i].v]]

Init == /\ d \in 1..Len(Docs)
        /\ \E i \in 1..Len(Pool) : /\ cq = [first |-> Pool[i], rest |-> <<>>]
                                   /\ nl = Find(Pool[i], Docs[d], Null)
Next == /\ Len(cq.rest) < MaxOps
        /\ \E op \in {"union", "inter"}, i \in 1..Len(Pool) :
             LET c1 == [cq EXCEPT !.rest = Append(@, [op |-> op, q |-> Pool[i]])]
                 n1 == Fold_(<<[op |-> op, q |-> Pool[i]]>>, 1, nl, Docs[d], Null)
             IN /\ cq' = c1 /\ nl' = n1
                /\ PrintT("@@" \o ToJson(Case(d, c1, n1)))
        /\ UNCHANGED d

\* folding one operand at a time is evaluating the whole
Incremental == nl = FindCompound(cq, Docs[d], Null)
\* an intersection never adds, a union never drops
Parses == \A i \in 1..Len(Styles) : LET p == Parse(Text(cq, StdToks, Styles[i]), StdToks) IN
            p.ok /\ Len(p.v.rest) = Len(cq.rest) /\ FindCompound(p.v, Docs[d], Null) = nl
=============================================================================
