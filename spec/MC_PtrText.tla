----------------------------- MODULE MC_PtrText -----------------------------
(* Pointer texts grown one character at a time, from all pointer texts over *)
(* a small alphabet.                                                        *)
EXTENDS RelPointer, Json, IOUtils
CONSTANT MaxLen
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLE t
Alphabet == {SLASH, TILDE, 48, 49, 97, MINUS, HASH}
StepOut(st) == IF st.k = "n" THEN st.n ELSE st.i
Res(d, T) == LET v == PEval(Docs[d], T) IN
  [r |-> IF v.t # "nothing" THEN "node" ELSE IF ExtCase(Docs[d], T) THEN "ext" ELSE "none",
   l |-> IF v.t = "nothing" THEN <<>> ELSE LET l == PLoc(Docs[d], T) IN [i \in 1..Len(l) |-> StepOut(l[i])]]
Init == t = <<>>
Next == /\ Len(t) < MaxLen
        /\ \E c \in (IF t = <<>> THEN {SLASH} ELSE Alphabet) :
             /\ t' = Append(t, c)
             /\ SynOK(t') => PrintT("@@" \o ToJson([t |-> t', p |-> Tokens(t'), u |-> PText(ParentToks(Tokens(t'))),
                                                     d |-> [d \in 1..Len(Docs) |-> Res(d, Tokens(t'))]]))
Inverse == SynOK(t) => PText(Tokens(t)) = t
=============================================================================
