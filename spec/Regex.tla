------------------------------- MODULE Regex --------------------------------
(* Regular expressions on which I-Regexp (RFC 9485) and Python's `re` agree *)
(* (plus, for `=~` literals, anchors, \d \w \s and the flags a i m s).      *)
(* Declarative semantics: Ends(r, t, p, f) is the set of positions at which *)
(* a match of r that starts at p may end.  No backtracking order is         *)
(* involved: only *whether* there is a match is ever asked.                 *)
EXTENDS Text

RFail == [ok |-> FALSE]
ROk(r, p) == [ok |-> TRUE, r |-> r, p |-> p]

NoFlags == [i |-> FALSE, m |-> FALSE, s |-> FALSE]

RECURSIVE PAlt(_, _), PSeq(_, _, _), PAtom(_, _), PQuant(_, _, _), PAltMore(_, _, _)
RECURSIVE PClass(_, _, _), PClassItem(_, _)

MetaChars == {40, 41, 42, 43, 46, 63, 91, 92, 93, 123, 124, 125, 94, 36}

EscChar(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] OTHER -> c
ClassEsc(c) == CASE c = 100 -> << <<48, 57>> >>
                 [] c = 119 -> << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
                 [] c = 115 -> << <<9, 13>>, <<32, 32>> >>

PAlt(t, p) == LET a == PSeq(t, p, <<>>) IN
  IF ~a.ok THEN a ELSE PAltMore(t, a.p, <<a.r>>)
PAltMore(t, p, acc) ==
  IF At(t, p) = BAR
  THEN LET b == PSeq(t, p + 1, <<>>) IN IF ~b.ok THEN b ELSE PAltMore(t, b.p, Append(acc, b.r))
  ELSE ROk(IF Len(acc) = 1 THEN acc[1] ELSE [r |-> "alt", xs |-> acc], p)

PSeq(t, p, acc) ==
  IF p > Len(t) \/ t[p] = BAR \/ t[p] = RPAR THEN ROk([r |-> "seq", xs |-> acc], p)
  ELSE LET a == PAtom(t, p) IN
       IF ~a.ok THEN a
       ELSE LET q == PQuant(t, a.p, a.r) IN IF ~q.ok THEN q ELSE PSeq(t, q.p, Append(acc, q.r))

PAtom(t, p) ==
  LET c == At(t, p) IN
  CASE c = DOT -> ROk([r |-> "any"], p + 1)
    [] c = CARET -> ROk([r |-> "bol"], p + 1)
    [] c = DOLLAR -> ROk([r |-> "eol"], p + 1)
    [] c = LPAR -> LET q == IF HasAt(t, p + 1, <<QMARK, COLON>>) THEN p + 3 ELSE p + 1
                       a == PAlt(t, q) IN
                   IF a.ok /\ At(t, a.p) = RPAR THEN ROk(a.r, a.p + 1) ELSE RFail
    [] c = LBRK -> LET neg == At(t, p + 1) = CARET IN
                   PClass(t, IF neg THEN p + 2 ELSE p + 1, [r |-> "set", neg |-> neg, items |-> <<>>])
    [] c = BSL -> LET e == At(t, p + 1) IN
                  IF e = -1 THEN RFail
                  ELSE IF e \in {100, 119, 115}
                       THEN ROk([r |-> "set", neg |-> FALSE, items |-> ClassEsc(e)], p + 2)
                  ELSE IF IsAlpha(e) /\ e \notin {110, 114, 116} THEN RFail
                  ELSE IF IsDigit(e) THEN RFail
                  ELSE ROk([r |-> "chr", c |-> EscChar(e)], p + 2)
    [] c \in {STAR, PLUS, QMARK, LBRC, RBRC, RBRK} -> RFail
    [] OTHER -> ROk([r |-> "chr", c |-> c], p + 1)

PClassItem(t, p) ==
  LET c == At(t, p) IN
  IF c = BSL THEN LET e == At(t, p + 1) IN
       IF e = -1 \/ (IsAlpha(e) /\ e \notin {110, 114, 116}) \/ IsDigit(e) THEN RFail
       ELSE ROk(EscChar(e), p + 2)
  ELSE IF c = -1 \/ c = LBRK THEN RFail
  ELSE ROk(c, p + 1)
PClass(t, p, acc) ==
  IF At(t, p) = RBRK THEN IF acc.items = <<>> THEN RFail ELSE ROk(acc, p + 1)
  ELSE IF At(t, p) = BSL /\ At(t, p + 1) \in {100, 119, 115}
  THEN PClass(t, p + 2, [acc EXCEPT !.items = @ \o ClassEsc(t[p + 1])])
  ELSE LET a == PClassItem(t, p) IN
       IF ~a.ok THEN a
       ELSE IF At(t, a.p) = MINUS /\ At(t, a.p + 1) # RBRK
       THEN LET b == PClassItem(t, a.p + 1) IN
            IF ~b.ok \/ b.r < a.r THEN RFail
            ELSE PClass(t, b.p, [acc EXCEPT !.items = Append(@, <<a.r, b.r>>)])
       ELSE PClass(t, a.p, [acc EXCEPT !.items = Append(@, <<a.r, a.r>>)])

Rep(r, lo, hi) == [r |-> "rep", x |-> r, lo |-> lo, hi |-> hi]
PQuant(t, p, r) ==
  LET c == At(t, p) IN
  CASE c = STAR -> ROk(Rep(r, 0, -1), p + 1)
    [] c = PLUS -> ROk(Rep(r, 1, -1), p + 1)
    [] c = QMARK -> ROk(Rep(r, 0, 1), p + 1)
    [] c = LBRC -> LET e1 == SkipDigits(t, p + 1)
                       lo == DigVal(SubSeq(t, p + 1, e1 - 1)) IN
                   IF e1 = p + 1 THEN RFail
                   ELSE IF At(t, e1) = RBRC THEN ROk(Rep(r, lo, lo), e1 + 1)
                   ELSE IF At(t, e1) # COMMA THEN RFail
                   ELSE LET e2 == SkipDigits(t, e1 + 1) IN
                        IF At(t, e2) # RBRC THEN RFail
                        ELSE IF e2 = e1 + 1 THEN ROk(Rep(r, lo, -1), e2 + 1)
                        ELSE LET hi == DigVal(SubSeq(t, e1 + 1, e2 - 1)) IN
                             IF hi < lo THEN RFail ELSE ROk(Rep(r, lo, hi), e2 + 1)
    [] OTHER -> ROk(r, p)

ParseRegex(t) == LET a == PAlt(t, 1) IN IF a.ok /\ a.p = Len(t) + 1 THEN a ELSE RFail

\* --- matching ------------------------------------------------------------
Fold(c) == IF IsUpper(c) THEN c + 32 ELSE c
InSet(c, items) == \E i \in 1..Len(items) : items[i][1] <= c /\ c <= items[i][2]
SetHas(c, r, f) ==
  LET in == InSet(c, r.items) \/
            (f.i /\ ((IsLower(c) /\ InSet(c - 32, r.items)) \/ (IsUpper(c) /\ InSet(c + 32, r.items))))
  IN IF r.neg THEN ~in ELSE in

RECURSIVE Ends(_, _, _, _), EndsSeq(_, _, _, _, _), EndsRep(_, _, _, _, _, _), Star(_, _, _, _, _)
Ends(r, t, p, f) ==
  CASE r.r = "chr" -> IF p <= Len(t) /\ (t[p] = r.c \/ (f.i /\ Fold(t[p]) = Fold(r.c)))
                      THEN {p + 1} ELSE {}
    [] r.r = "any" -> IF p <= Len(t) /\ (f.s \/ t[p] # LF) THEN {p + 1} ELSE {}
    [] r.r = "set" -> IF p <= Len(t) /\ SetHas(t[p], r, f) THEN {p + 1} ELSE {}
    [] r.r = "bol" -> IF p = 1 \/ (f.m /\ t[p - 1] = LF) THEN {p} ELSE {}
    [] r.r = "eol" -> IF p = Len(t) + 1 \/ (p = Len(t) /\ t[p] = LF) \/ (f.m /\ p <= Len(t) /\ t[p] = LF)
                      THEN {p} ELSE {}
    [] r.r = "seq" -> EndsSeq(r.xs, 1, t, {p}, f)
    [] r.r = "alt" -> UNION {Ends(r.xs[i], t, p, f) : i \in 1..Len(r.xs)}
    [] r.r = "rep" -> EndsRep(r.x, r.lo, r.hi, t, {p}, f)
EndsSeq(xs, i, t, ps, f) ==
  IF i > Len(xs) \/ ps = {} THEN ps
  ELSE EndsSeq(xs, i + 1, t, UNION {Ends(xs[i], t, p, f) : p \in ps}, f)
StepAll(r, t, ps, f) == UNION {Ends(r, t, p, f) : p \in ps}
EndsRep(r, lo, hi, t, ps, f) ==
  IF ps = {} THEN {}
  ELSE IF lo > 0 THEN EndsRep(r, lo - 1, IF hi = -1 THEN -1 ELSE hi - 1, t, StepAll(r, t, ps, f), f)
  ELSE IF hi = -1 THEN Star(r, t, ps, ps, f)
  ELSE IF hi = 0 THEN ps
  ELSE ps \cup EndsRep(r, 0, hi - 1, t, StepAll(r, t, ps, f), f)
Star(r, t, all, new, f) ==
  IF new = {} THEN all
  ELSE LET nxt == StepAll(r, t, new, f) \ all IN Star(r, t, all \cup nxt, nxt, f)

FullMatch(r, t, f) == (Len(t) + 1) \in Ends(r, t, 1, f)
Search(r, t, f) == \E p \in 1..(Len(t) + 1) : Ends(r, t, p, f) # {}
=============================================================================
