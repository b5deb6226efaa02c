----------------------------- MODULE MC_PtrLife -----------------------------
(* Pointers live longer than the states of the documents they are resolved  *)
(* against.  Two documents change in place (edits are transitions of        *)
(* Patch), while a few pointers, built once, are resolved against them in   *)
(* any interleaving.  What a resolution gives is a function of the pointer  *)
(* and the document as it is then; every history is replayed.               *)
EXTENDS Patch, Json, IOUtils
CONSTANT MaxActs
Start == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES docs, h

Ptrs == << <<47, 97>>, <<47, 97, 47, 48>>, <<47, 97, 47, 49, 47, 98>>, <<47, 49>>, <<>> >>
Ed(o, path, v) == [op |-> o, path |-> Tokens(path), from |-> <<>>, value |-> v]
Five == NumOfInt(5)
Edits == << Ed("replace", <<47, 97>>, Obj(<<<<48>>>>, <<Five>>)), Ed("remove", <<47, 97>>, Null), Ed("add", <<47, 97>>, Arr(<<Null, Obj(<<<<98>>>>, <<Five>>)>>)),
            Ed("add", <<47, 97, 47, 48>>, Five), Ed("remove", <<47, 97, 47, 48>>, Null), Ed("add", <<47, 49>>, Bool(FALSE)), Ed("remove", <<47, 48>>, Null) >>
StepOut(st) == IF st.k = "n" THEN st.n ELSE st.i
Loc_(l) == [i \in 1..Len(l) |-> StepOut(l[i])]
Seen(d, p) == LET v == PEval(docs[d], Tokens(Ptrs[p])) IN
              IF v.t = "nothing" THEN [r |-> "none", l |-> <<>>] ELSE [r |-> "node", l |-> Loc_(PLoc(docs[d], Tokens(Ptrs[p])))]
Read(d, p) == /\ docs' = docs
              /\ h' = Append(h, [a |-> "read", d |-> d, p |-> p, s |-> Seen(d, p)])
Write(d, e) == LET r == ApplyOp(Edits[e], docs[d]) IN
               /\ r.ok /\ docs' = [docs EXCEPT ![d] = r.v]
               /\ h' = Append(h, [a |-> "write", d |-> d, e |-> e])
Init == docs = <<Start[1], Start[2]>> /\ h = <<>>
Reads == Len(SelectSeq(h, LAMBDA x : x.a = "read"))
Next == /\ Len(h) < MaxActs
        /\ \E d \in 1..2 : \/ \E p \in 1..Len(Ptrs) : Read(d, p)
                           \/ \E e \in 1..Len(Edits) : h # <<>> /\ Len(h) < MaxActs - 1 /\ Write(d, e)
\* reading changes nothing; two reads with no write to that document between them see the same
Repeats == \A i, j \in 1..Len(h) : i < j /\ h[i].a = "read" /\ h[j].a = "read" /\ h[i].d = h[j].d /\ h[i].p = h[j].p
             /\ (\A k \in i..j : h[k].a = "write" => h[k].d # h[i].d) => h[i].s = h[j].s
Out == Len(h) < MaxActs \/ PrintT("@@" \o ToJson([h |-> h, f |-> docs]))
EditsOut == [i \in 1..Len(Edits) |-> [o |-> Edits[i].op, p |-> Edits[i].path, v |-> Edits[i].value]]
ASSUME PrintT("@@" \o ToJson([edits |-> EditsOut, ptrs |-> Ptrs]))
=============================================================================
