------------------------------- MODULE MC_Iter ------------------------------
(* Every chain of up to MaxOps iterator operations on a sequence of N       *)
(* matches.  Chains are printed when complete and walked through the code.  *)
EXTENDS QueryIter, TLC, Json
CONSTANTS N, MaxOps, Counts
VARIABLES pool, hist
Counts_m1_0_1_2_5 == {-1,0,1,2,5}
Counts_m2_m1_0_1_2_3_4_7 == {-2,-1,0,1,2,3,4,7}
Counts_m1_0_1 == {-1,0,1}
Counts_m1_0_1_2 == {-1,0,1,2}
Counts_m1_0_1_3 == {-1,0,1,3}
Counts_m1_0_1_2_3_4_7_8_9 == {-1,0,1,2,3,4,7,8,9}
Counts_m1_0_1_2_3 == {-1,0,1,2,3}
Full == [i \in 1..N |-> i]
Calls(p) == {[op |-> o, q |-> q, n |-> n] : o \in {"limit", "skip", "tail", "take"}, q \in 1..Len(p), n \in Counts}
            \cup {[op |-> "tee", q |-> q, n |-> n] : q \in 1..Len(p), n \in {-1, 0, 2}}
            \cup {[op |-> o, q |-> q, n |-> 0] : o \in {"first", "last"}, q \in 1..Len(p)}
Init == pool = <<Live(Full)>> /\ hist = <<>>
Next == /\ Len(hist) < MaxOps
        /\ \E c \in Calls(pool) :
             /\ pool[c.q].live
             /\ LET r == Step1(pool, c) IN
                /\ pool' = r.pool
                /\ hist' = Append(hist, [op |-> c.op, q |-> c.q, n |-> c.n, out |-> r.out, m |-> r.m])
                /\ (Len(hist') = MaxOps \/ \A i \in 1..Len(r.pool) : ~r.pool[i].live) =>
                     PrintT("@@" \o ToJson([h |-> hist', r |-> Rests(r.pool), l |-> LiveAt(r.pool)]))
\* every iterator holds a contiguous, increasing part of the matches
Contiguous == \A i \in 1..Len(pool) : \A j \in 1..(Len(pool[i].rest) - 1) : pool[i].rest[j + 1] = pool[i].rest[j] + 1
\* a refused call changes nothing
Refused == [][\A c \in {hist'[Len(hist')]} : c.out = "error" => pool' = pool]_<<pool, hist>>
\* no match is lost or duplicated by take
TakeSplits == [][LET c == hist'[Len(hist')] IN c.op = "take" /\ c.out = "new" =>
                   pool'[Len(pool')].rest \o pool'[c.q].rest = pool[c.q].rest]_<<pool, hist>>
=============================================================================
