------------------------------ MODULE MC_Patch ------------------------------
(* The patch machine: the document is the state and every operation over a  *)
(* pool of locations and values a transition.  Each transition is printed   *)
(* with its outcome and replayed on the implementation; a failing operation *)
(* leaves the state unchanged.                                              *)
EXTENDS Patch, Json, IOUtils
CONSTANTS MaxOps, Rich
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES doc, n

P(t) == Tokens(t)
Paths0 == { <<>>, <<47, 97>>, <<47, 98>>, <<47, 48>>, <<47, 49>>, <<47, 45>>, <<47, 97, 47, 48>>, <<47, 97, 47, 45>>, <<47, 97, 47, 50>>,
            <<47, 97, 47, 98>> }
Paths1 == { <<47>>, <<47, 97, 47, 51>>, <<47, 97, 47, 48, 49>>, <<47, 48, 47, 49>>, <<47, 97, 47, 49, 47, 45>>, <<47, 97, 47, 45, 49>>,
            <<47, 97, 47, 97>>, <<47, 126, 49, 126, 48>>, <<47, 35, 97>>, <<47, 97, 47, 35, 48>>, <<47, 126, 48, 97>>, <<47, 98, 47, 98>>,
            <<47, 97, 47, 49, 47, 120>>, <<47, 50>>, <<47, 48, 48>>, <<47, 49, 101, 48>> }
Paths == IF Rich THEN Paths0 \cup Paths1 ELSE Paths0
One == NumOfInt(1)
Values == IF Rich THEN { One, Bool(TRUE), Null, Arr(<<One>>), Arr(<<Bool(TRUE)>>), Obj(<<<<98>>>>, <<Arr(<<>>)>>), Str(<<97>>) }
          ELSE { One, Bool(TRUE), Arr(<<Bool(TRUE)>>) }
Ops == {[op |-> o, path |-> P(p), from |-> <<>>, value |-> v] :
          o \in {"add", "replace", "test", "addne", "addap"}, p \in Paths, v \in Values}
       \cup {[op |-> "remove", path |-> P(p), from |-> <<>>, value |-> Null] : p \in Paths}
       \cup {[op |-> o, path |-> P(p), from |-> P(q), value |-> Null] : o \in {"move", "copy"}, p \in Paths, q \in Paths}
NoClaim(op, d) == \/ op.op = "remove" /\ op.path = <<>>
                  \/ op.op = "addap" /\ op.path # <<>> /\
                     LET v == PEval(d, ParentToks(op.path)) IN IsArr(v) /\ ArrIdx(v, op.path[Len(op.path)]) < 0
Init == doc \in Range(Docs) /\ n = 0
Next == /\ n < MaxOps /\ n' = n + 1
        /\ \E op \in Ops :
             LET r == ApplyOp(op, doc) IN
             /\ ~NoClaim(op, doc)
             /\ doc' = (IF r.ok THEN r.v ELSE doc)
             /\ PrintT("@@" \o ToJson([d |-> doc, o |-> op.op, p |-> PText(op.path), f |-> PText(op.from), v |-> op.value,
                                       ok |-> r.ok, r |-> IF r.ok THEN r.v ELSE Null, why |-> IF r.ok THEN "" ELSE r.why]))
\* sanity of the machine itself
AddThenTest == n = 0 => \A op \in Ops : op.op = "replace" =>
  LET r == ApplyOp(op, doc) IN r.ok => ApplyOp([op EXCEPT !.op = "test"], r.v).ok
CopyThenEqual == n = 0 => \A op \in Ops : op.op = "copy" /\ op.path # <<>> /\ op.path[Len(op.path)] # <<MINUS>> =>
  LET r == ApplyOp(op, doc) IN r.ok => JEq(PEval(r.v, op.path), PEval(doc, op.from))
=============================================================================
