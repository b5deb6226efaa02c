------------------------------- MODULE MC_Rel -------------------------------
(* The relative pointer machine: the current pointer is moved by relative   *)
(* pointers; an application the draft forbids leaves it where it is.        *)
EXTENDS RelPointer, Json, IOUtils
CONSTANT MaxOps
VARIABLES base, ops, toks, done
Bases == { <<>>, <<47>>, <<47, 97>>, <<47, 97, 47, 49>>, <<47, 97, 47, 57, 47, 48>>, <<47, 48, 49>>, <<47, 126, 49, 47, 98, 97, 114>>,
           <<47, 97, 47, 49, 57>>, <<47, 120, 47, 45>>, <<47, 97, 47>> }
Ups == << <<48>>, <<49>>, <<50>>, <<51>>, <<49, 48>> >>
Offs == << <<>>, <<43, 49>>, <<45, 49>>, <<43, 49, 50>>, <<45, 49, 48>>, <<43, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>,
           <<45, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<45, 57>>, <<43, 57>> >>
Sufs == << <<>>, <<HASH>>, <<47, 120>>, <<47, 126, 49, 47, 48>>, <<47>>, <<47, 35>>, <<47, 32, 97, 32>> >>
Rels == {[u |-> u, o |-> o, s |-> s] : u \in 1..Len(Ups), o \in 1..Len(Offs), s \in 1..Len(Sufs)}
RText(r) == Ups[r.u] \o Offs[r.o] \o Sufs[r.s]
Init == base \in Bases /\ ops = <<>> /\ toks = Tokens(base) /\ done = FALSE
Next == /\ Len(ops) < MaxOps /\ ~done
        /\ \E r \in Rels :
             LET p == ParseRel(RText(r)) a == ApplyRel(toks, p) res == IF a.ok THEN RelResult(a) ELSE toks IN
             /\ ops' = Append(ops, RText(r)) /\ toks' = res /\ UNCHANGED base
             /\ done' = (~a.ok \/ a.hash)
             /\ PrintT("@@" \o ToJson([b |-> base, m |-> ops', ok |-> a.ok, t |-> PText(res)]))
\* printing is the inverse of parsing
Parses == (ops = <<>> /\ base = <<>>) => \A r \in Rels : LET p == ParseRel(RText(r)) IN
  /\ p.ok
  /\ RText(r) = p.up \o (IF p.sg = 0 THEN <<>> ELSE IF p.sg = 1 THEN <<PLUS>> \o p.off ELSE <<MINUS>> \o p.off)
                     \o (IF p.hash THEN <<HASH>> ELSE PText(p.toks))
\* arithmetic: adding and subtracting an offset is the identity
Arith == ops = <<>> => \A a, b \in {<<48>>, <<49>>, <<57, 57>>, <<49, 48, 48>>, <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>} :
           NatSub(NatAdd(a, b), b) = a
=============================================================================
