------------------------------ MODULE Pointer -------------------------------
(* JSON Pointer (RFC 6901): text, reference tokens, evaluation, navigation. *)
EXTENDS JValue

\* --- text <-> tokens -------------------------------------------------------
RECURSIVE Unesc_(_, _, _)
Unesc_(t, p, acc) ==
  IF p > Len(t) THEN acc
  ELSE IF t[p] = TILDE /\ At(t, p + 1) = 49 THEN Unesc_(t, p + 2, Append(acc, SLASH))
  ELSE IF t[p] = TILDE /\ At(t, p + 1) = 48 THEN Unesc_(t, p + 2, Append(acc, TILDE))
  ELSE Unesc_(t, p + 1, Append(acc, t[p]))
Unesc(t) == Unesc_(t, 1, <<>>)
Esc(t) == Flat([i \in 1..Len(t) |-> IF t[i] = TILDE THEN <<TILDE, 48>>
                                    ELSE IF t[i] = SLASH THEN <<TILDE, 49>> ELSE <<t[i]>>])
RECURSIVE Split_(_, _, _, _)
Split_(t, p, cur, acc) == IF p > Len(t) THEN Append(acc, cur)
                          ELSE IF t[p] = SLASH THEN Split_(t, p + 1, <<>>, Append(acc, cur))
                          ELSE Split_(t, p + 1, Append(cur, t[p]), acc)
SplitSlash(t) == Split_(t, 1, <<>>, <<>>)

EscOK(t) == \A i \in 1..Len(t) : t[i] = TILDE => At(t, i + 1) \in {48, 49}
SynOK(t) == (t = <<>> \/ t[1] = SLASH) /\ EscOK(t)
Tokens(t) == IF t = <<>> THEN <<>>
             ELSE LET raw == Tail(SplitSlash(t)) IN [i \in 1..Len(raw) |-> Unesc(raw[i])]
PText(toks) == Flat([i \in 1..Len(toks) |-> <<SLASH>> \o Esc(toks[i])])

\* --- evaluation (RFC 6901 section 4) ----------------------------------------
CanonIdx(t) == AllDigits(t) /\ (t[1] # 48 \/ Len(t) = 1)
PStep(v, tok) == IF IsObj(v) THEN IF HasKey(v, tok) THEN Member(v, tok) ELSE Nothing
                 ELSE IF IsArr(v) /\ CanonIdx(tok) /\ DigVal(tok) < Len(v.a) THEN v.a[DigVal(tok) + 1]
                 ELSE Nothing
RECURSIVE PEval(_, _)
PEval(v, toks) == IF toks = <<>> THEN v
                  ELSE LET c == PStep(v, toks[1]) IN IF c.t = "nothing" THEN Nothing ELSE PEval(c, Tail(toks))

\* the location a pointer denotes in a value, given that it evaluates
RECURSIVE PLoc(_, _)
PLoc(v, toks) == IF toks = <<>> THEN <<>>
                 ELSE <<IF IsObj(v) THEN NameStep(toks[1]) ELSE IdxStep(DigVal(toks[1]))>> \o PLoc(PStep(v, toks[1]), Tail(toks))
StepTok(st) == IF st.k = "i" THEN Nat2Text(st.i) ELSE st.n
LocTokens(l) == [i \in 1..Len(l) |-> StepTok(l[i])]

\* --- what the documented extensions reach ------------------------------------
\* A token that RFC 6901 cannot evaluate, but that an extension may.
IsNegIdx(t) == Len(t) > 1 /\ t[1] = MINUS /\ CanonIdx(Tail(t))
\* a negative index, `#` with an index for an index, `#` or `~` with a member name for that name
IsInt(t) == AllDigits(t) \/ (Len(t) > 1 /\ t[1] = MINUS /\ AllDigits(Tail(t)))
ExtTok(v, t) == \/ IsArr(v) /\ (IsNegIdx(t) \/ (Len(t) > 1 /\ t[1] = HASH /\ IsInt(Tail(t))))
                \/ IsObj(v) /\ t # <<>> /\ t[1] \in {HASH, TILDE} /\ HasKey(v, Tail(t))
\* integers beyond the index limit (2^53 - 1)
MaxIdx == <<57, 48, 48, 55, 49, 57, 57, 50, 53, 52, 55, 52, 48, 57, 57, 49>>
HugeTok(t) == (CanonIdx(t) /\ DigGt(t, MaxIdx)) \/ (IsNegIdx(t) /\ DigGt(Tail(t), MaxIdx))
AnyHuge(toks) == \E i \in 1..Len(toks) : HugeTok(toks[i])
\* does evaluation stop at a token an extension may evaluate?
RECURSIVE ExtCase(_, _)
ExtCase(v, toks) == IF toks = <<>> THEN FALSE
                    ELSE LET c == PStep(v, toks[1]) IN
                         IF c.t = "nothing"
                         THEN ExtTok(v, toks[1]) /\ (Len(toks) = 1 \/ IsNegIdx(toks[1]))      \* a name or an index is a scalar
                         ELSE ExtCase(c, Tail(toks))

\* --- navigation ---------------------------------------------------------------
\* joining an escaped text onto a pointer
JoinToks(p, t) == IF t # <<>> /\ t[1] = SLASH THEN Tokens(t) ELSE p \o Tokens(<<SLASH>> \o t)
ParentToks(p) == IF p = <<>> THEN <<>> ELSE SubSeq(p, 1, Len(p) - 1)
IsRelTo(p, q) == Len(q) < Len(p) /\ SubSeq(p, 1, Len(q)) = q
HasBsl(t) == \E i \in 1..Len(t) : t[i] = BSL
=============================================================================
