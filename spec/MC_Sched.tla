------------------------------ MODULE MC_Sched ------------------------------
(* Every history of up to MaxSteps actions on one compiled query, over Jobs *)
(* jobs, with at most MaxOpen evaluations; replayed through the code.       *)
EXTENDS Sched, TLC, Json
CONSTANTS Jobs, MaxSteps, MaxOpen
VARIABLES its, hist
Acts == (IF Len(its) < MaxOpen THEN [a : {"open"}, j : 1..Jobs, i : {0}] ELSE {})
        \cup [a : {"adv", "drop"}, i : {k \in 1..Len(its) : its[k].live}, j : {0}]
        \cup [a : {"run"}, j : 1..Jobs, i : {0}]
        \cup {[a |-> "new", i |-> 0, j |-> 0]}
Useful(x) ==
  \* a job is first used when all the ones before it have been; no renaming apart
  /\ (x.a \in {"open", "run"} => \A k \in 1..(x.j - 1) : \E s \in 1..Len(hist) : hist[s].x.j = k)
  \* dropping or compiling last observes nothing
  /\ (Len(hist) = MaxSteps - 1 => x.a \in {"adv", "run"})
  /\ (x.a = "new" => hist # <<>> /\ hist[Len(hist)].x.a # "new")
Init == its = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \E x \in Acts : /\ Useful(x)
                           /\ LET r == Do(its, x) IN
                              /\ its' = r.its
                              /\ hist' = Append(hist, [x |-> x, o |-> r.o])
                              /\ Len(hist) = MaxSteps - 1 => PrintT("@@" \o ToJson(hist'))
\* what an evaluation gives is a function of its job and position alone
Pure == \A k \in 1..Len(hist) :
          hist[k].x.a = "adv" => hist[k].o.p = 1 + Cardinality({m \in 1..(k - 1) : hist[m].x.a = "adv" /\ hist[m].x.i = hist[k].x.i})
=============================================================================
