------------------------------- MODULE JValue -------------------------------
(* JSON values as tagged records.                                           *)
(*   [t |-> "null"]                      [t |-> "bool", b |-> BOOLEAN]      *)
(*   [t |-> "num", s, g, x]  value = s * 0.g * 10^x, g a digit sequence     *)
(*                           without leading or trailing zeros (decimal,    *)
(*                           so that no number is ever rounded by TLC)      *)
(*   [t |-> "str", s |-> Text]           [t |-> "arr", a |-> Seq(value)]    *)
(*   [t |-> "obj", k |-> Seq(Text), v |-> Seq(value)]  (ordered members)    *)
(* [t |-> "nothing"] is RFC 9535's Nothing.                                 *)
EXTENDS Text

Nothing == [t |-> "nothing"]
Null == [t |-> "null"]
Bool(x) == [t |-> "bool", b |-> x]
Str(x) == [t |-> "str", s |-> x]
Arr(x) == [t |-> "arr", a |-> x]
Obj(k, v) == [t |-> "obj", k |-> k, v |-> v]

RECURSIVE TrimL(_)
TrimL(d) == IF Len(d) > 0 /\ d[1] = 0 THEN TrimL(Tail(d)) ELSE d
RECURSIVE TrimR(_)
TrimR(d) == IF Len(d) > 0 /\ d[Len(d)] = 0 THEN TrimR(SubSeq(d, 1, Len(d) - 1)) ELSE d
\* number from digits ds (values 0..9) with the decimal point after position pt
MkNum(neg, ds, pt) ==
  LET l == TrimL(ds) g == TrimR(l) lead == Len(ds) - Len(l) IN
  IF g = <<>> THEN [t |-> "num", s |-> 0, g |-> <<>>, x |-> 0]
  ELSE [t |-> "num", s |-> IF neg THEN -1 ELSE 1, g |-> g, x |-> pt - lead]
NumOfInt(n) == LET ds == Nat2Text(IF n < 0 THEN -n ELSE n)
                   gs == [i \in 1..Len(ds) |-> ds[i] - 48]
               IN MkNum(n < 0, gs, Len(gs))

IsArr(v) == v.t = "arr"
IsObj(v) == v.t = "obj"
IsStr(v) == v.t = "str"
IsContainer(v) == v.t = "arr" \/ v.t = "obj"

HasKey(o, n) == \E i \in 1..Len(o.k) : o.k[i] = n
KeyAt(o, n) == IndexOf(o.k, n)
Member(o, n) == o.v[KeyAt(o, n)]

\* deep equality of JSON values: object member order is irrelevant,
\* a boolean never equals a number
RECURSIVE JEq(_, _)
JEq(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "arr" -> /\ Len(a.a) = Len(b.a)
                           /\ \A i \in 1..Len(a.a) : JEq(a.a[i], b.a[i])
         [] a.t = "obj" -> /\ Len(a.k) = Len(b.k)
                           /\ \A i \in 1..Len(a.k) :
                                LET j == KeyAt(b, a.k[i]) IN j > 0 /\ JEq(a.v[i], b.v[j])
         [] OTHER -> a = b

RECURSIVE DigLt(_, _, _)
DigLt(a, b, i) == IF i > Len(b) THEN FALSE
                  ELSE IF i > Len(a) THEN TRUE
                  ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE DigLt(a, b, i + 1)
MagLt(a, b) == a.x < b.x \/ (a.x = b.x /\ DigLt(a.g, b.g, 1))
NumLt(a, b) ==
  IF a.s # b.s THEN a.s < b.s
  ELSE CASE a.s = 0 -> FALSE
         [] a.s = 1 -> MagLt(a, b)
         [] OTHER -> MagLt(b, a)

\* all values that occur in a value, the value itself included
RECURSIVE SubValues(_)
SubValues(v) == CASE v.t = "arr" -> {v} \cup UNION {SubValues(v.a[i]) : i \in 1..Len(v.a)}
                  [] v.t = "obj" -> {v} \cup UNION {SubValues(v.v[i]) : i \in 1..Len(v.v)}
                  [] OTHER -> {v}

\* --- locations -----------------------------------------------------------
\* a location is a sequence of steps; a step is a member name or an index
NameStep(n) == [k |-> "n", n |-> n]
IdxStep(i) == [k |-> "i", i |-> i]

\* children of a value in document order, as <<step, value>> pairs
Children(v) == CASE v.t = "arr" -> [i \in 1..Len(v.a) |-> <<IdxStep(i - 1), v.a[i]>>]
                 [] v.t = "obj" -> [i \in 1..Len(v.k) |-> <<NameStep(v.k[i]), v.v[i]>>]
                 [] OTHER -> <<>>

\* the child of v reached by a step, or Nothing
Step(v, st) ==
  IF st.k = "n" THEN IF IsObj(v) /\ HasKey(v, st.n) THEN Member(v, st.n) ELSE Nothing
  ELSE IF IsArr(v) /\ st.i >= 0 /\ st.i < Len(v.a) THEN v.a[st.i + 1] ELSE Nothing
RECURSIVE Follow(_, _)
Follow(v, loc) == IF loc = <<>> THEN v
                  ELSE LET c == Step(v, loc[1]) IN
                       IF c.t = "nothing" THEN Nothing ELSE Follow(c, Tail(loc))

\* every node of a value in document order, as [l |-> location, v |-> value]
RECURSIVE Nodes_(_, _)
Nodes_(v, l) == LET cs == Children(v) IN
  <<[l |-> l, v |-> v]>> \o Flat([i \in 1..Len(cs) |-> Nodes_(cs[i][2], Append(l, cs[i][1]))])
Nodes(v) == Nodes_(v, <<>>)
=============================================================================
