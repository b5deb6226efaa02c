------------------------------ MODULE MC_Regex -------------------------------
(* Regular expressions by size: every pattern of the pool is written out,   *)
(* parsed back, and matched / searched against every subject.               *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Rich, Anchors
Subj == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES r, lvl
Chr(c) == [r |-> "chr", c |-> c]
Set(neg, it) == [r |-> "set", neg |-> neg, items |-> it]
Seq_(xs) == [r |-> "seq", xs |-> xs]
Alt_(xs) == [r |-> "alt", xs |-> xs]
L0 == { Chr(97), Chr(98), [r |-> "any"], Set(TRUE, << <<97, 97>> >>), Set(FALSE, << <<97, 98>> >>) }
      \cup (IF Rich THEN { Chr(DOT), Chr(BSL), Set(FALSE, << <<45, 45>>, <<98, 98>> >>), Chr(233), Chr(LF) } ELSE {})
      \cup (IF Anchors THEN { [r |-> "bol"], [r |-> "eol"], Chr(65), Set(FALSE, << <<65, 66>> >>) } ELSE {})
Quants == { <<0, -1>>, <<1, -1>>, <<0, 1>>, <<2, 2>>, <<1, 2>>, <<2, -1>> }
CanRep(y) == y.r \notin {"rep", "bol", "eol"}
L1 == L0 \cup {Rep(y, q[1], q[2]) : y \in {z \in L0 : CanRep(z)}, q \in Quants}
      \cup {Seq_(<<a, b>>) : a \in L0, b \in L0} \cup {Alt_(<<a, b>>) : a \in L0, b \in L0} \cup {Seq_(<<>>)}
Init == r \in L1 /\ lvl = 1
Next == /\ lvl = 1 /\ lvl' = 2
        /\ \/ \E q \in Quants : CanRep(r) /\ r' = Rep(r, q[1], q[2])
           \/ \E b \in L0 \cup {Rep(y, 0, -1) : y \in {Chr(97), Chr(98)}} : r' \in {Seq_(<<r, b>>), Alt_(<<r, b>>), Seq_(<<b, r>>), Alt_(<<b, Seq_(<<>>), r>>)}

\* the text of a pattern
SetC(c) == IF c \in {45, 91, 92, 93, 94} THEN <<BSL, c>> ELSE <<c>>
RECURSIVE Rx(_)
Atomic(y) == y.r \in {"chr", "set", "any"}
Group(y) == <<LPAR>> \o Rx(y) \o <<RPAR>>
Rx(y) ==
  CASE y.r = "chr" -> IF y.c \in MetaChars THEN <<BSL, y.c>> ELSE IF y.c = LF THEN <<BSL, 110>> ELSE <<y.c>>
    [] y.r = "any" -> <<DOT>>
    [] y.r = "bol" -> <<CARET>>
    [] y.r = "eol" -> <<DOLLAR>>
    [] y.r = "set" -> <<LBRK>> \o (IF y.neg THEN <<CARET>> ELSE <<>>) \o
                      Flat([i \in 1..Len(y.items) |-> IF y.items[i][1] = y.items[i][2] THEN SetC(y.items[i][1])
                                                     ELSE SetC(y.items[i][1]) \o <<MINUS>> \o SetC(y.items[i][2])]) \o <<RBRK>>
    [] y.r = "seq" -> Flat([i \in 1..Len(y.xs) |-> IF y.xs[i].r \in {"alt", "seq"} THEN Group(y.xs[i]) ELSE Rx(y.xs[i])])
    [] y.r = "alt" -> JoinWith([i \in 1..Len(y.xs) |-> IF y.xs[i].r = "alt" THEN Group(y.xs[i]) ELSE Rx(y.xs[i])], <<BAR>>)
    [] y.r = "rep" -> (IF Atomic(y.x) THEN Rx(y.x) ELSE Group(y.x)) \o
                      (CASE y.lo = 0 /\ y.hi = -1 -> <<STAR>> [] y.lo = 1 /\ y.hi = -1 -> <<PLUS>> [] y.lo = 0 /\ y.hi = 1 -> <<QMARK>>
                         [] y.hi = -1 -> <<LBRC>> \o Nat2Text(y.lo) \o <<COMMA, RBRC>>
                         [] y.lo = y.hi -> <<LBRC>> \o Nat2Text(y.lo) \o <<RBRC>>
                         [] OTHER -> <<LBRC>> \o Nat2Text(y.lo) \o <<COMMA>> \o Nat2Text(y.hi) \o <<RBRC>>)
Pat == Rx(r)
Hits(P(_)) == SelectSeq([i \in 1..Len(Subj) |-> i - 1], LAMBDA i : P(Subj[i + 1].s))
FullF(f) == LET H(s) == FullMatch(r, s, f) IN Hits(H)
Out == PrintT("@@" \o ToJson(
         [p |-> Pat, m |-> FullF(NoFlags)] @@
         (IF Anchors THEN [i |-> FullF([NoFlags EXCEPT !.i = TRUE]), ms |-> FullF([NoFlags EXCEPT !.m = TRUE, !.s = TRUE])]
          ELSE [s |-> LET H(s) == Search(r, s, NoFlags) IN Hits(H)])))
\* writing and parsing agree in meaning
Reparses == LET p == ParseRegex(Pat) IN p.ok /\ \A i \in 1..Len(Subj) : FullMatch(p.r, Subj[i].s, NoFlags) = FullMatch(r, Subj[i].s, NoFlags)
=============================================================================
