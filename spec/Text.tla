-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points; module Kw names the fixed     *)
(* texts the grammars mention.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Kw

\* names for the code points the grammars mention
TAB == 9   LF == 10   CR == 13   SP == 32
QUOT == 34   HASH == 35   DOLLAR == 36   AMP == 38   APOS == 39
LPAR == 40   RPAR == 41   STAR == 42   PLUS == 43   COMMA == 44   MINUS == 45
DOT == 46   SLASH == 47   D0 == 48   D9 == 57   COLON == 58   LT == 60
EQUAL == 61   GT == 62   QMARK == 63   AT == 64   LBRK == 91   BSL == 92
RBRK == 93   CARET == 94   USCORE == 95   LBRC == 123   BAR == 124
RBRC == 125   TILDE == 126   BANG == 33

IsDigit(c) == c >= 48 /\ c <= 57
IsDigit1(c) == c >= 49 /\ c <= 57
IsLower(c) == c >= 97 /\ c <= 122
IsUpper(c) == c >= 65 /\ c <= 90
IsAlpha(c) == IsLower(c) \/ IsUpper(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsBlank(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 13

\* the code point at p, or -1 past the end
At(t, p) == IF p >= 1 /\ p <= Len(t) THEN t[p] ELSE -1

\* does t continue with w at position p?
HasAt(t, p, w) == /\ p + Len(w) - 1 <= Len(t)
                  /\ \A i \in 1..Len(w) : t[p + i - 1] = w[i]

RECURSIVE SkipBlank(_, _)
SkipBlank(t, p) == IF p <= Len(t) /\ IsBlank(t[p]) THEN SkipBlank(t, p + 1) ELSE p
RECURSIVE SkipDigits(_, _)
SkipDigits(t, p) == IF p <= Len(t) /\ IsDigit(t[p]) THEN SkipDigits(t, p + 1) ELSE p

AllDigits(t) == Len(t) > 0 /\ \A i \in 1..Len(t) : IsDigit(t[i])

\* lexicographic "less than" on code points (Unicode scalar values)
RECURSIVE TextLt_(_, _, _)
TextLt_(a, b, i) == IF i > Len(b) THEN FALSE
                    ELSE IF i > Len(a) THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] < b[i]
                    ELSE TextLt_(a, b, i + 1)
TextLt(a, b) == TextLt_(a, b, 1)

\* decimal spelling of an integer
RECURSIVE Nat2Text(_)
Nat2Text(n) == IF n < 10 THEN <<48 + n>> ELSE Nat2Text(n \div 10) \o <<48 + (n % 10)>>
Int2Text(n) == IF n < 0 THEN <<MINUS>> \o Nat2Text(-n) ELSE Nat2Text(n)

\* value of a digit string; anything that does not fit comfortably in a TLC
\* integer is represented by BIG (no document here is that long)
BIG == 100000000
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE DigVal_(_, _, _)
DigVal_(d, i, acc) == IF i > Len(d) THEN acc ELSE DigVal_(d, i + 1, 10 * acc + (d[i] - 48))
DigVal(d0) == LET d == StripZeros(d0) IN IF Len(d) > 8 THEN BIG ELSE DigVal_(d, 1, 0)

\* digit strings compared as numbers
DigGt(a0, b0) == LET a == StripZeros(a0) b == StripZeros(b0) IN
                 Len(a) > Len(b) \/ (Len(a) = Len(b) /\ TextLt(b, a))

\* concatenation of a sequence of sequences
RECURSIVE Flat_(_, _, _)
Flat_(ss, i, acc) == IF i > Len(ss) THEN acc ELSE Flat_(ss, i + 1, acc \o ss[i])
Flat(ss) == Flat_(ss, 1, <<>>)

\* join texts with a separator
RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF Len(ss) = 0 THEN <<>>
                     ELSE IF Len(ss) = 1 THEN ss[1]
                     ELSE ss[1] \o sep \o JoinWith(Tail(ss), sep)

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Range(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE IndexOf_(_, _, _)
IndexOf_(s, x, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = x THEN i ELSE IndexOf_(s, x, i + 1)
IndexOf(s, x) == IndexOf_(s, x, 1)
=============================================================================
