------------------------------ MODULE QueryIter -----------------------------
(* Query iterators as lists: a pool of live iterators over one match        *)
(* sequence 1..N.  Every operation acts on one iterator; take and tee add   *)
(* iterators to the pool.  A call is printed with what it returned.         *)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
TakeN(s, n) == SubSeq(s, 1, Min(n, Len(s)))
DropN(s, n) == SubSeq(s, Min(n, Len(s)) + 1, Len(s))
TailN(s, n) == SubSeq(s, Len(s) - Min(n, Len(s)) + 1, Len(s))

\* pool: sequence of [live, rest]; call [op, q, n]; the outcome is
\* [pool, out: "self"|"new"|"match"|"none"|"error", m: match]
Live(s) == [live |-> TRUE, rest |-> s]
Dead == [live |-> FALSE, rest |-> <<>>]
Step1(pool, c) ==
  LET s == pool[c.q].rest
      upd(t) == [pool EXCEPT ![c.q].rest = t]
  IN IF c.n < 0 THEN [pool |-> pool, out |-> "error", m |-> 0]
     ELSE CASE c.op = "limit" -> [pool |-> upd(TakeN(s, c.n)), out |-> "self", m |-> 0]
            [] c.op = "skip" -> [pool |-> upd(DropN(s, c.n)), out |-> "self", m |-> 0]
            [] c.op = "tail" -> [pool |-> upd(TailN(s, c.n)), out |-> "self", m |-> 0]
            [] c.op = "take" -> [pool |-> Append(upd(DropN(s, c.n)), Live(TakeN(s, c.n))), out |-> "new", m |-> 0]
            [] c.op = "tee" -> [pool |-> [pool EXCEPT ![c.q] = Dead] \o [i \in 1..c.n |-> Live(s)], out |-> "new", m |-> 0]
            [] c.op = "first" -> IF s = <<>> THEN [pool |-> pool, out |-> "none", m |-> 0]
                                 ELSE [pool |-> upd(Tail(s)), out |-> "match", m |-> s[1]]
            [] c.op = "last" -> IF s = <<>> THEN [pool |-> pool, out |-> "none", m |-> 0]
                                ELSE [pool |-> upd(<<>>), out |-> "match", m |-> s[Len(s)]]
Rests(pool) == [i \in 1..Len(pool) |-> pool[i].rest]
LiveAt(pool) == [i \in 1..Len(pool) |-> pool[i].live]
=============================================================================
