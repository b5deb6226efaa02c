------------------------------- MODULE Trace --------------------------------
(* Validation of recorded calls: each line of TRACE is one event recorded   *)
(* at the return of a public call of the implementation, with its           *)
(* arguments and its projected result.  `Judge` computes from the           *)
(* specification what the result has to be; its verdict is total and names  *)
(* the clause that failed.                                                  *)
EXTENDS JudgeText, JudgeEdit, JudgeProject, QueryIter, Entry, Sched, Cli, Family, Json, IOUtils
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES i, verdict

\* a recorded session with query iterators over n matches: [n, h: calls as observed, r: what remained, l]
RECURSIVE Session(_, _, _, _)
Session(h, j, pool, e) ==
  IF j > Len(h) THEN IF Rests(pool) = e.r THEN "ok" ELSE "remaining matches differ from the list operations'"
  ELSE IF ~pool[h[j].q].live THEN "machinery: call on a consumed iterator"
  ELSE LET r == Step1(pool, h[j]) IN
       IF r.out # h[j].out THEN "operation " \o h[j].op \o " gives " \o h[j].out \o ", not " \o r.out
       ELSE IF r.m # h[j].m THEN "operation " \o h[j].op \o " gives another match"
       ELSE Session(h, j + 1, r.pool, e)
JIter(e) == Session(e.h, 1, <<Live([j \in 1..e.n |-> j])>>, e)

Judge(e) ==
  CASE e.k = "find" -> JFind(e, Docs[e.d], Docs[e.c])
    [] e.k = "gate" -> JGate(e)
    [] e.k = "range" -> JRange(e)
    [] e.k = "loc" -> JLoc(e, Docs[e.d], Docs[e.c])
    [] e.k = "edit" -> JEdit(e, Docs[e.d], Docs[e.c])
    [] e.k = "ptr" -> JPtr(e, Docs[e.d])
    [] e.k = "exists" -> JExists(e, Docs[e.d])
    [] e.k = "nav" -> JNav(e)
    [] e.k = "eq" -> JEqv(e)
    [] e.k = "rel" -> JRel(e)
    [] e.k = "key" -> JKey(e, Docs[e.d])
    [] e.k = "iter" -> JIter(e)
    [] e.k = "forms" -> JForms(e)
    [] e.k = "agree" -> JAgree(e)
    [] e.k = "entry" -> JEntry(e)
    [] e.k = "sched" -> JSched(e)
    [] e.k = "str" -> JStr(e, Docs)
    [] e.k = "tok" -> JTok(e)
    [] e.k = "family" -> JFamily(e)
    [] e.k = "cli" -> JCli(e)
    [] e.k = "proj" -> JProj(e, Docs[e.d])
    [] e.k = "patch" -> JPatch(e, Docs[e.d])

Init == i \in 1..Len(TraceLog) /\ verdict = "todo"
Next == /\ verdict = "todo"
        /\ verdict' = Judge(TraceLog[i])
        /\ UNCHANGED i
        /\ verdict' # "ok" => PrintT("@@" \o ToJson([i |-> i, v |-> verdict']))
=============================================================================
