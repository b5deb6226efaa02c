----------------------------- MODULE MC_Preempt -----------------------------
(* Interleavings of two threads, each of Slots equal stretches of           *)
(* execution, with at most MaxSwitch preemptions.  A schedule is the        *)
(* sequence of [th: thread, n: slots run before giving way].  The harness   *)
(* forces each schedule on two real threads sharing a compiled query or an  *)
(* environment; what each of them returns may not depend on it.             *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Slots, MaxSwitch
VARIABLES left, cur, sched
Init == /\ left = [t \in {1, 2} |-> Slots] /\ cur \in {1, 2} /\ sched = <<>>
Other(t) == 3 - t
RECURSIVE Sum(_, _)
Sum(s, t) == IF s = <<>> THEN 0 ELSE (IF Head(s).th = t THEN Head(s).n ELSE 0) + Sum(Tail(s), t)
Next == /\ \E t \in {1, 2} : left[t] > 0
        /\ \E n \in 1..Slots :
             /\ n <= left[cur]
             /\ n < left[cur] => Len(sched) < MaxSwitch   \* a preemption
             /\ left' = [left EXCEPT ![cur] = @ - n]
             /\ cur' = IF left[Other(cur)] > 0 THEN Other(cur) ELSE cur
             /\ (n < left[cur] => left[Other(cur)] > 0)
             /\ sched' = Append(sched, [th |-> cur, n |-> n])
             /\ (\A t \in {1, 2} : left'[t] = 0) => PrintT("@@" \o ToJson(sched'))
Complete == \A t \in {1, 2} : Sum(sched, t) + left[t] = Slots
=============================================================================
