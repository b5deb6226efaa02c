----------------------------- MODULE MC_Pointer -----------------------------
(* The pointer walker: a pointer grows by one reference token at a time,    *)
(* and with each token the value it denotes moves one step, or is lost.     *)
(* TLC explores every pointer over the tokens of the document and a pool of *)
(* probes, down to one token past the point where evaluation fails.         *)
EXTENDS RelPointer, Json, IOUtils
CONSTANT MaxLen
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES d, toks, lost

Probe == << <<>>, <<48>>, <<49>>, <<48, 48>>, <<48, 49>>, <<45>>, <<43, 49>>, <<49, 48>>, <<49, 46, 48>>, <<49, 101, 48>>,
            <<97>>, <<45, 49>>, <<35, 48>>, <<126, 97>>, <<47>>, <<126>>, <<32, 49>>, <<49, 32>>, <<49, 95, 48>>, <<1633>>,
            <<45, 48>>, <<48, 120, 49>>, <<98>>, <<126, 49>>, <<126, 48, 49>> >>
Names(v) == {v.k[i] : i \in 1..Len(v.k)}
DocNames == UNION {IF IsObj(v) THEN Names(v) ELSE {} : v \in SubValues(Docs[d])}
V == PEval(Docs[d], toks)
StepOut(st) == IF st.k = "n" THEN st.n ELSE st.i
Out(d1, t1) == LET v == PEval(Docs[d1], t1) IN
  PrintT("@@" \o ToJson([d |-> d1, t |-> PText(t1), p |-> t1,
    r |-> IF v.t # "nothing" THEN "node" ELSE IF ExtCase(Docs[d1], t1) THEN "ext" ELSE "none",
    l |-> IF v.t = "nothing" THEN <<>> ELSE LET l == PLoc(Docs[d1], t1) IN [i \in 1..Len(l) |-> StepOut(l[i])]]))
Init == d \in 1..Len(Docs) /\ toks = <<>> /\ lost = FALSE /\ Out(d, toks)
Next == /\ ~lost /\ Len(toks) < MaxLen
        /\ \E tok \in DocNames \cup Range(Probe) \cup (IF IsArr(V) THEN {Nat2Text(i) : i \in 0..Len(V.a)} ELSE {}) :
             /\ toks' = Append(toks, tok)
             /\ lost' = (V.t = "nothing")
             /\ Out(d, Append(toks, tok))
        /\ UNCHANGED d

\* text and tokens determine each other
Inverse == SynOK(PText(toks)) /\ Tokens(PText(toks)) = toks
\* a pointer evaluates exactly where its location leads
Agree == V.t # "nothing" => Follow(Docs[d], PLoc(Docs[d], toks)) = V
\* once lost, always lost
Lost == lost => V.t = "nothing"
=============================================================================
