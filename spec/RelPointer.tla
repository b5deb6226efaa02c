----------------------------- MODULE RelPointer -----------------------------
(* Relative JSON Pointer (draft-hha-relative-json-pointer).                 *)
(* [ok, up: digits, sg: 0|1|-1, off: digits, hash: BOOLEAN, toks]           *)
EXTENDS Pointer

CanonNat(d) == AllDigits(d) /\ (d[1] # 48 \/ Len(d) = 1)
RelFail == [ok |-> FALSE]
ParseRel(t) ==
  LET a == SkipDigits(t, 1)
      up == SubSeq(t, 1, a - 1)
      signed == At(t, a) \in {PLUS, MINUS}
      b == IF signed THEN SkipDigits(t, a + 1) ELSE a
      off == IF signed THEN SubSeq(t, a + 1, b - 1) ELSE <<48>>
      rest == SubSeq(t, b, Len(t))
  IN IF ~CanonNat(up) \/ (signed /\ (~CanonNat(off) \/ off = <<48>>)) THEN RelFail
     ELSE IF rest = <<HASH>> \/ SynOK(rest)
     THEN [ok |-> TRUE, up |-> up, sg |-> IF ~signed THEN 0 ELSE IF t[a] = PLUS THEN 1 ELSE -1, off |-> off,
           hash |-> rest = <<HASH>>, toks |-> IF rest = <<HASH>> THEN <<>> ELSE Tokens(rest)]
     ELSE RelFail

\* --- decimal arithmetic on digit texts of any length -------------------------
Dg(t, k) == IF k <= Len(t) THEN t[Len(t) + 1 - k] - 48 ELSE 0   \* k-th digit from the right
RECURSIVE AddD(_, _, _, _, _), SubD(_, _, _, _, _)
AddD(a, b, k, carry, acc) ==
  IF k > Len(a) /\ k > Len(b) THEN IF carry = 1 THEN <<49>> \o acc ELSE acc
  ELSE LET s == Dg(a, k) + Dg(b, k) + carry IN AddD(a, b, k + 1, s \div 10, <<48 + (s % 10)>> \o acc)
\* a >= b
SubD(a, b, k, borrow, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET s == Dg(a, k) - Dg(b, k) - borrow IN
       SubD(a, b, k + 1, IF s < 0 THEN 1 ELSE 0, <<48 + (IF s < 0 THEN s + 10 ELSE s)>> \o acc)
NatAdd(a, b) == StripZeros(AddD(a, b, 1, 0, <<>>))
NatSub(a, b) == StripZeros(SubD(a, b, 1, 0, <<>>))

\* --- application: [ok, toks, hash] or the reason it is refused ---------------
ApplyRel(base, r) ==
  IF DigVal(r.up) > Len(base) THEN [ok |-> FALSE, why |-> "too many steps"]
  ELSE LET cut == SubSeq(base, 1, Len(base) - DigVal(r.up))
           last == IF cut = <<>> THEN <<>> ELSE cut[Len(cut)] IN
  IF r.sg # 0 /\ (cut = <<>> \/ ~CanonIdx(last)) THEN [ok |-> FALSE, why |-> "offset without an index"]
  ELSE IF r.sg = -1 /\ DigGt(r.off, last) THEN [ok |-> FALSE, why |-> "negative index"]
  ELSE LET moved == IF r.sg = 0 THEN cut
                    ELSE Append(ParentToks(cut), IF r.sg = 1 THEN NatAdd(last, r.off) ELSE NatSub(last, r.off)) IN
  IF r.hash /\ moved = <<>> THEN [ok |-> FALSE, why |-> "key of the root"]
  ELSE [ok |-> TRUE, toks |-> moved \o r.toks, hash |-> r.hash]

\* the library marks "the key of this location" in the last token
MarkToks(p) == Append(ParentToks(p), <<HASH>> \o p[Len(p)])
RelResult(a) == IF a.hash THEN MarkToks(a.toks) ELSE a.toks
=============================================================================
