------------------------------ MODULE MC_Query ------------------------------
(* The query machine: a query is applied to a document one segment at a     *)
(* time, each segment turning the current nodelist into the next one.       *)
(* TLC explores every query of up to MaxSegs segments over a pool of        *)
(* segments, on every document of a pool; each state prints the query's     *)
(* spellings and the locations it selects, which are replayed through the   *)
(* implementation.                                                          *)
EXTENDS Spell, Json, IOUtils
CONSTANTS MaxSegs, Rich
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES d, g, nl

I(n) == [s |-> "idx", neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
N(t) == SName(t)
B(n) == [z |-> FALSE, neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
O == NoInt
S(a, b, c) == [s |-> "slice", a |-> a, b |-> b, c |-> c]
a_ == N(<<97>>)   b_ == N(<<98>>)   z_ == N(<<48>>)   q_ == N(<<39, 92, 34, 10>>)   e_ == N(<<>>)
Singles == << a_, b_, z_, I(0), I(1), I(-1), SWild, S(O, O, O), S(B(1), O, O), S(O, B(-1), O), S(O, O, B(-1)),
              S(B(-1), B(0), B(-2)) >>
MoreSingles == << q_, e_, N(<<45, 49>>), N(<<233>>), N(<<128512>>), I(2), I(-2), I(7), S(O, O, B(0)), S(B(5), B(-5), B(-1)),
                  S(B(0), B(2), B(2)), S(O, B(1), B(-1)), S(B(-3), O, O) >>
Pool1 == IF Rich THEN Singles \o MoreSingles ELSE Singles
Lists == << <<a_, a_>>, <<I(0), I(0)>>, <<b_, SWild>>, <<S(O, O, B(-1)), I(0), a_>> >>
Pool == [i \in 1..(2 * Len(Pool1)) |-> Seg(i > Len(Pool1), <<Pool1[IF i > Len(Pool1) THEN i - Len(Pool1) ELSE i]>>, FALSE, FALSE)]
        \o [i \in 1..(2 * Len(Lists)) |-> Seg(i > Len(Lists), Lists[IF i > Len(Lists) THEN i - Len(Lists) ELSE i], FALSE, FALSE)]

Q == [r |-> "root", g |-> g]
StepOut(st) == IF st.k = "n" THEN st.n ELSE st.i
Case(d1, g1, nl1) == [d |-> d1, t |-> Texts([r |-> "root", g |-> g1], RfcToks),
                      l |-> [i \in 1..Len(nl1) |-> [j \in 1..Len(nl1[i].l) |-> StepOut(nl1[i].l[j])]]]
Init == /\ d \in 1..Len(Docs) /\ g = <<>> /\ nl = <<Node(<<>>, Docs[d])>>
        /\ PrintT("@@" \o ToJson(Case(d, g, nl)))
Next == /\ Len(g) < MaxSegs
        /\ \E i \in 1..Len(Pool) :
             LET g1 == Append(g, Pool[i])
                 nl1 == ApplySeg(Pool[i], nl, [root |-> Docs[d], ctx |-> Null]) IN
             /\ g' = g1 /\ nl' = nl1
             /\ PrintT("@@" \o ToJson(Case(d, g1, nl1)))
        /\ UNCHANGED d

\* properties of the query machine itself
NodesExist == \A i \in 1..Len(nl) : Follow(Docs[d], nl[i].l) = nl[i].v
\* the text of every query parses back to it
Roundtrip == SpellInverse(Q)
\* normalized paths are queries that select exactly their node
PathsSelect == \A i \in 1..Len(nl) :
  LET p == Parse(NormPath(nl[i].l), RfcToks) IN
  p.ok /\ LET r == Find(p.v.first, Docs[d], Null) IN Len(r) = 1 /\ r[1] = nl[i]
=============================================================================
