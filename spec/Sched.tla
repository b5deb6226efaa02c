------------------------------- MODULE Sched --------------------------------
(* Histories of evaluations of one compiled query.                          *)
(*                                                                          *)
(* A job is a pair of a document and a filter context.  An evaluation of    *)
(* the query for a job is a lazy iterator; it is opened, and advanced one   *)
(* match at a time, in any interleaving with other evaluations of the same  *)
(* compiled query.  Purity: what an evaluation yields depends on its job    *)
(* and on how often it was advanced, on nothing else.                       *)
(*                                                                          *)
(* An iterator is [j |-> job, p |-> matches taken so far].                  *)
(* Actions: [a |-> "open", j]  a new evaluation for job j                   *)
(*          [a |-> "adv", i]   the next match of evaluation i               *)
(*          [a |-> "run", j]   all the matches of a new evaluation          *)
(*          [a |-> "drop", i]  evaluation i is closed, half way             *)
(*          [a |-> "new"]      the text is compiled again, and the new      *)
(*                             query is used from now on                    *)
EXTENDS Naturals, Sequences, FiniteSets

\* expected observation: which position of which job's result; 0 is all of it
Obs(j, p) == [j |-> j, p |-> p]
NoObs == Obs(0, 0)
Enabled(its, x) == CASE x.a \in {"adv", "drop"} -> x.i \in 1..Len(its) /\ its[x.i].live [] OTHER -> TRUE
Do(its, x) ==
  CASE x.a = "open" -> [its |-> Append(its, [j |-> x.j, p |-> 0, live |-> TRUE]), o |-> NoObs]
    [] x.a = "adv" -> [its |-> [its EXCEPT ![x.i].p = @ + 1], o |-> Obs(its[x.i].j, its[x.i].p + 1)]
    [] x.a = "run" -> [its |-> its, o |-> Obs(x.j, 0)]
    [] x.a = "drop" -> [its |-> [its EXCEPT ![x.i].live = FALSE], o |-> NoObs]
    [] x.a = "new" -> [its |-> its, o |-> NoObs]

\* a recorded history: base[j] is the result of job j on its own (a sequence of
\* fingerprints of matches); each step h[k] = [x: action, out: fingerprints observed]
Want(base, o) == IF o.j = 0 THEN <<>>
                 ELSE IF o.p = 0 THEN base[o.j]
                 ELSE IF o.p <= Len(base[o.j]) THEN <<base[o.j][o.p]>> ELSE <<>>
RECURSIVE Hist(_, _, _, _)
Hist(base, h, k, its) ==
  IF k > Len(h) THEN "ok"
  ELSE IF ~Enabled(its, h[k].x) THEN "machinery: action not enabled"
  ELSE LET r == Do(its, h[k].x) IN
       IF h[k].out # Want(base, r.o) THEN "result of " \o h[k].x.a \o " depends on the history"
       ELSE Hist(base, h, k + 1, r.its)
JSched(e) == IF \E k \in 1..Len(e.pure) : ~e.pure[k].same THEN
               "evaluation changed " \o e.pure[CHOOSE k \in 1..Len(e.pure) : ~e.pure[k].same].n
             ELSE Hist(e.base, e.h, 1, <<>>)
=============================================================================
