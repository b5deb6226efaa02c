------------------------------ MODULE Grammar -------------------------------
(* RFC 9535 grammar as a scannerless recursive-descent recogniser over code *)
(* points, producing the abstract syntax of module Query.  It is lenient    *)
(* exactly where property C07 speaks about rejected queries: those          *)
(* constructs are parsed and then reported by `Flaws`.                      *)
(* T is the token table [root, fake, self, key, ctx, keys, union, inter,    *)
(* ext]; T.ext switches the documented non-standard syntax on.              *)
EXTENDS Query

StdToks == [root |-> <<36>>, fake |-> <<94>>, self |-> <<64>>, key |-> <<35>>, ctx |-> <<95>>,
            keys |-> <<126>>, union |-> <<124>>, inter |-> <<38>>, ext |-> TRUE]
RfcToks == [StdToks EXCEPT !.ext = FALSE]

GFail(p) == [ok |-> FALSE, p |-> p]
GOk(v, p) == [ok |-> TRUE, v |-> v, p |-> p]

IsNameFirst(c) == IsAlpha(c) \/ c = USCORE \/ (c >= 128 /\ c <= 55295) \/ (c >= 57344)
IsNameChar(c) == IsNameFirst(c) \/ IsDigit(c)
RECURSIVE NameEnd(_, _), NameEndExt(_, _)
NameEnd(t, p) == IF p <= Len(t) /\ IsNameChar(t[p]) THEN NameEnd(t, p + 1) ELSE p
\* the documented shorthand of this library also takes "-" inside names
NameEndExt(t, p) == IF p <= Len(t) /\ (IsNameChar(t[p]) \/ t[p] = MINUS) THEN NameEndExt(t, p + 1) ELSE p
EndOfName(t, p, T) == IF T.ext THEN NameEndExt(t, p) ELSE NameEnd(t, p)

WordAt(t, p, w) == HasAt(t, p, w) /\ ~(IsNameChar(At(t, p + Len(w))))

Reserved == {K_true, K_false, K_null, K_True, K_False, K_Null, K_nil, K_Nil, K_none, K_None,
             K_undefined, K_missing, K_and, K_or, K_not, K_in, K_contains}

\* --- string literals -----------------------------------------------------
Hex4(t, p) == IF p + 3 <= Len(t) /\ \A i \in 0..3 : IsHex(t[p + i])
              THEN HexVal(t[p]) * 4096 + HexVal(t[p + 1]) * 256 + HexVal(t[p + 2]) * 16 + HexVal(t[p + 3])
              ELSE -1
SimpleEsc(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
                  [] c = 47 -> 47 [] c = 92 -> 92 [] OTHER -> -1
RECURSIVE StrBody(_, _, _, _)
StrBody(t, p, q, acc) ==
  LET c == At(t, p) IN
  IF c = -1 THEN GFail(p)
  ELSE IF c = q THEN GOk(acc, p + 1)
  ELSE IF c = BSL THEN
    LET e == At(t, p + 1) IN
    IF e = q THEN StrBody(t, p + 2, q, Append(acc, q))
    ELSE IF e = 117 THEN
      LET h == Hex4(t, p + 2) IN
      IF h = -1 THEN GFail(p)
      ELSE IF h >= 55296 /\ h <= 56319 THEN
        IF At(t, p + 6) = BSL /\ At(t, p + 7) = 117 THEN
          LET l == Hex4(t, p + 8) IN
          IF l >= 56320 /\ l <= 57343
          THEN StrBody(t, p + 12, q, Append(acc, 65536 + (h - 55296) * 1024 + (l - 56320)))
          ELSE GFail(p)
        ELSE GFail(p)
      ELSE IF h >= 56320 /\ h <= 57343 THEN GFail(p)
      ELSE StrBody(t, p + 6, q, Append(acc, h))
    ELSE IF SimpleEsc(e) = -1 THEN GFail(p)
    ELSE StrBody(t, p + 2, q, Append(acc, SimpleEsc(e)))
  ELSE IF c < 32 \/ (c >= 55296 /\ c <= 57343) THEN GFail(p)
  ELSE StrBody(t, p + 1, q, Append(acc, c))
StringAt(t, p) == StrBody(t, p + 1, t[p], <<>>)

\* --- integers and numbers ------------------------------------------------
NoInt == [z |-> TRUE, neg |-> FALSE, dg |-> <<>>]
\* ["-"] *DIGIT, possibly empty
IntAt(t, p) == LET neg == At(t, p) = MINUS
                   a == IF neg THEN p + 1 ELSE p
                   b == SkipDigits(t, a)
               IN GOk([z |-> FALSE, neg |-> neg, dg |-> SubSeq(t, a, b - 1)], b)
CanonInt(i) == Len(i.dg) > 0 /\ (i.dg[1] # 48 \/ (Len(i.dg) = 1 /\ ~i.neg))

NumberAt(t, p) ==
  LET neg == At(t, p) = MINUS
      a == IF neg THEN p + 1 ELSE p
      b == SkipDigits(t, a)
      ip == SubSeq(t, a, b - 1)
      hasf == At(t, b) = DOT
      fe == IF hasf THEN SkipDigits(t, b + 1) ELSE b
      fp == IF hasf THEN SubSeq(t, b + 1, fe - 1) ELSE <<>>
      hase == At(t, fe) \in {69, 101}
      sg == IF hase THEN At(t, fe + 1) ELSE -1
      es == IF sg \in {PLUS, MINUS} THEN fe + 2 ELSE fe + 1
      ee == IF hase THEN SkipDigits(t, es) ELSE fe
      ex == IF hase THEN DigVal(SubSeq(t, es, ee - 1)) ELSE 0
      dig(s) == [i \in 1..Len(s) |-> s[i] - 48]
  IN IF ip = <<>> \/ (Len(ip) > 1 /\ ip[1] = 48) \/ (hasf /\ fp = <<>>) \/ (hase /\ ee = es)
     THEN GFail(p)
     ELSE GOk(MkNum(neg, dig(ip) \o dig(fp), Len(ip) + (IF sg = MINUS THEN -ex ELSE ex)), ee)

\* --- identifier tokens: the longest configured spelling wins -------------
TokNames == <<"root", "fake", "self", "key", "ctx", "keys", "union", "inter">>
TokAt(t, p, T) ==
  IF ~T.ext THEN IF At(t, p) = DOLLAR THEN "root" ELSE IF At(t, p) = AT THEN "self" ELSE "none"
  ELSE LET hit == {i \in 1..8 : LET w == T[TokNames[i]] IN
                     /\ Len(w) > 0 /\ HasAt(t, p, w)
                     \* a spelling that is a word does not begin a longer one
                     /\ (\A k \in 1..Len(w) : IsNameChar(w[k])) => ~IsNameChar(At(t, p + Len(w)))} IN
       IF hit = {} THEN "none"
       ELSE TokNames[CHOOSE i \in hit : \A j \in hit : Len(T[TokNames[j]]) <= Len(T[TokNames[i]])]

\* --- segments and selectors ----------------------------------------------
SName(n) == [s |-> "name", n |-> n]
SWild == [s |-> "wild"]
SKeys == [s |-> "keys"]
Seg(d, ss, sh, trail) == [d |-> d, ss |-> ss, sh |-> sh, trail |-> trail]

RECURSIVE PSegs(_, _, _, _), PSegment(_, _, _), PBracket(_, _, _, _, _), PSelector(_, _, _),
          POr(_, _, _), POrMore(_, _, _, _), PAnd(_, _, _), PAndMore(_, _, _, _), PBasic(_, _, _),
          POperand(_, _, _), PArgs(_, _, _, _), PList(_, _, _, _)

PShort(t, p, T, d) ==
  LET c == At(t, p) IN
  IF T.ext /\ TokAt(t, p, T) = "keys" THEN GOk(Seg(d, <<SKeys>>, TRUE, FALSE), p + Len(T.keys))
  ELSE IF c = STAR THEN GOk(Seg(d, <<SWild>>, TRUE, FALSE), p + 1)
  ELSE IF IsNameFirst(c) THEN LET e == EndOfName(t, p, T) IN
                              GOk(Seg(d, <<SName(SubSeq(t, p, e - 1))>>, TRUE, FALSE), e)
  ELSE GFail(p)

PSegment(t, p, T) ==
  LET c == At(t, p) IN
  IF c = LBRK THEN PBracket(t, SkipBlank(t, p + 1), T, FALSE, <<>>)
  ELSE IF HasAt(t, p, K_dd)
       THEN IF At(t, p + 2) = LBRK THEN PBracket(t, SkipBlank(t, p + 3), T, TRUE, <<>>)
            ELSE PShort(t, p + 2, T, TRUE)
  ELSE IF c = DOT THEN PShort(t, p + 1, T, FALSE)
  ELSE GFail(p)

\* *(S segment); stops before blanks that are not followed by a segment
PSegs(t, p, T, acc) ==
  LET q == SkipBlank(t, p) IN
  IF At(t, q) = LBRK \/ At(t, q) = DOT
  THEN LET s == PSegment(t, q, T) IN IF ~s.ok THEN s ELSE PSegs(t, s.p, T, Append(acc, s.v))
  ELSE GOk(acc, p)

PBracket(t, p, T, d, acc) ==   \* p: first non-blank after "[" or ","
  IF At(t, p) = RBRK THEN GOk(Seg(d, acc, FALSE, acc # <<>>), p + 1)
  ELSE LET s == PSelector(t, p, T) IN
       IF ~s.ok THEN s
       ELSE LET q == SkipBlank(t, s.p) IN
            IF At(t, q) = RBRK THEN GOk(Seg(d, Append(acc, s.v), FALSE, FALSE), q + 1)
            ELSE IF At(t, q) = COMMA THEN PBracket(t, SkipBlank(t, q + 1), T, d, Append(acc, s.v))
            ELSE GFail(q)

PSelector(t, p, T) ==
  LET c == At(t, p) IN
  IF c = QUOT \/ c = APOS THEN LET s == StringAt(t, p) IN IF s.ok THEN GOk(SName(s.v), s.p) ELSE s
  ELSE IF T.ext /\ TokAt(t, p, T) = "keys" THEN GOk(SKeys, p + Len(T.keys))
  ELSE IF c = STAR THEN GOk(SWild, p + 1)
  ELSE IF c = QMARK THEN LET x == POr(t, SkipBlank(t, p + 1), T) IN
                         IF x.ok THEN GOk([s |-> "filt", x |-> x.v], x.p) ELSE x
  ELSE IF IsDigit(c) \/ c = MINUS \/ c = COLON THEN
    LET a == IF c = COLON THEN GOk(NoInt, p) ELSE IntAt(t, p)
        q == SkipBlank(t, a.p)
    IN IF ~a.v.z /\ a.v.dg = <<>> THEN GFail(p)
       ELSE IF At(t, q) = COLON THEN
         LET q1 == SkipBlank(t, q + 1)
             hasb == IsDigit(At(t, q1)) \/ At(t, q1) = MINUS
             b == IF hasb THEN IntAt(t, q1) ELSE GOk(NoInt, q + 1)
             q2 == SkipBlank(t, b.p)
         IN IF ~b.v.z /\ b.v.dg = <<>> THEN GFail(q1)
            ELSE IF At(t, q2) = COLON THEN
              LET q3 == SkipBlank(t, q2 + 1)
                  hasc == IsDigit(At(t, q3)) \/ At(t, q3) = MINUS
                  k == IF hasc THEN IntAt(t, q3) ELSE GOk(NoInt, q2 + 1)
              IN IF ~k.v.z /\ k.v.dg = <<>> THEN GFail(q3)
                 ELSE GOk([s |-> "slice", a |-> a.v, b |-> b.v, c |-> k.v], k.p)
            ELSE GOk([s |-> "slice", a |-> a.v, b |-> b.v, c |-> NoInt], b.p)
       ELSE GOk([s |-> "idx", neg |-> a.v.neg, dg |-> a.v.dg], a.p)
  ELSE IF T.ext /\ IsNameFirst(c) THEN LET e == EndOfName(t, p, T) IN GOk(SName(SubSeq(t, p, e - 1)), e)
  ELSE GFail(p)

\* --- filter expressions --------------------------------------------------
IsOr(t, p, T) == IF HasAt(t, p, K_oo) THEN 2 ELSE IF T.ext /\ WordAt(t, p, K_or) THEN 2 ELSE 0
IsAnd(t, p, T) == IF HasAt(t, p, K_aa) THEN 2 ELSE IF T.ext /\ WordAt(t, p, K_and) THEN 3 ELSE 0
IsNot(t, p, T) == IF At(t, p) = BANG /\ At(t, p + 1) # EQUAL THEN 1
                  ELSE IF T.ext /\ WordAt(t, p, K_not) THEN 3 ELSE 0

POr(t, p, T) == LET l == PAnd(t, p, T) IN IF ~l.ok THEN l ELSE POrMore(t, l.p, T, l.v)
POrMore(t, p, T, l) ==
  LET q == SkipBlank(t, p) n == IsOr(t, q, T) IN
  IF n = 0 THEN GOk(l, p)
  ELSE LET r == PAnd(t, SkipBlank(t, q + n), T) IN
       IF ~r.ok THEN r ELSE POrMore(t, r.p, T, [e |-> "or", l |-> l, r |-> r.v])
PAnd(t, p, T) == LET l == PBasic(t, p, T) IN IF ~l.ok THEN l ELSE PAndMore(t, l.p, T, l.v)
PAndMore(t, p, T, l) ==
  LET q == SkipBlank(t, p) n == IsAnd(t, q, T) IN
  IF n = 0 THEN GOk(l, p)
  ELSE LET r == PBasic(t, SkipBlank(t, q + n), T) IN
       IF ~r.ok THEN r ELSE PAndMore(t, r.p, T, [e |-> "and", l |-> l, r |-> r.v])

CmpOp(t, p, T) ==
  CASE HasAt(t, p, K_eq) -> <<"==", 2>>
    [] HasAt(t, p, K_ne) -> <<"!=", 2>>
    [] T.ext /\ HasAt(t, p, K_lg) -> <<"<>", 2>>
    [] HasAt(t, p, K_le) -> <<"<=", 2>>
    [] HasAt(t, p, K_ge) -> <<">=", 2>>
    [] T.ext /\ HasAt(t, p, K_re) -> <<"=~", 2>>
    [] At(t, p) = LT -> <<"<", 1>>
    [] At(t, p) = GT -> <<">", 1>>
    [] T.ext /\ WordAt(t, p, K_in) -> <<"in", 2>>
    [] T.ext /\ WordAt(t, p, K_contains) -> <<"contains", 8>>
    [] OTHER -> <<"none", 0>>

PBasic(t, p, T) ==
  LET n == IsNot(t, p, T) IN
  IF n > 0 THEN
    LET q == SkipBlank(t, p + n) IN
    IF At(t, q) = LPAR \/ (T.ext /\ IsNot(t, q, T) > 0)
    THEN LET x == PBasic(t, q, T) IN IF x.ok THEN GOk([e |-> "not", x |-> x.v], x.p) ELSE x
    ELSE LET x == POperand(t, q, T) IN IF x.ok THEN GOk([e |-> "not", x |-> x.v], x.p) ELSE x
  ELSE IF At(t, p) = LPAR THEN
    LET x == POr(t, SkipBlank(t, p + 1), T) IN
    IF ~x.ok THEN x
    ELSE LET q == SkipBlank(t, x.p) IN
         IF At(t, q) = RPAR THEN GOk([e |-> "par", x |-> x.v], q + 1) ELSE GFail(q)
  ELSE LET l == POperand(t, p, T) IN
       IF ~l.ok THEN l
       ELSE LET q == SkipBlank(t, l.p) op == CmpOp(t, q, T) IN
            IF op[2] = 0 THEN l
            ELSE LET r == POperand(t, SkipBlank(t, q + op[2]), T) IN
                 IF ~r.ok THEN r ELSE GOk([e |-> "cmp", op |-> op[1], l |-> l.v, r |-> r.v], r.p)

Lit(v, p) == GOk([e |-> "lit", v |-> v], p)
FnNameEnd(t, p) ==
  LET RECURSIVE Go(_)
      Go(i) == IF i <= Len(t) /\ (IsLower(t[i]) \/ IsDigit(t[i]) \/ t[i] = USCORE) THEN Go(i + 1) ELSE i
  IN IF IsLower(At(t, p)) THEN Go(p) ELSE p

RECURSIVE SlashPos(_, _)
SlashPos(t, p) == IF p > Len(t) THEN 0 ELSE IF t[p] = SLASH THEN p ELSE SlashPos(t, p + 1)
RECURSIVE FlagEnd(_, _)
FlagEnd(t, p) == IF At(t, p) \in {97, 105, 109, 115} THEN FlagEnd(t, p + 1) ELSE p

PPath(t, p, T, r, n) == LET g == PSegs(t, p + n, T, <<>>) IN
                        IF g.ok THEN GOk([e |-> "q", q |-> [r |-> r, g |-> g.v]], g.p) ELSE g

POperand(t, p, T) ==
  LET c == At(t, p) tk == TokAt(t, p, T) fe == FnNameEnd(t, p) IN
  IF c = -1 THEN GFail(p)
  ELSE IF c = QUOT \/ c = APOS THEN LET s == StringAt(t, p) IN IF s.ok THEN Lit(Str(s.v), s.p) ELSE s
  ELSE IF IsDigit(c) \/ c = MINUS THEN LET n == NumberAt(t, p) IN IF n.ok THEN Lit(n.v, n.p) ELSE n
  ELSE IF tk \in {"root", "self", "fake", "ctx"} THEN PPath(t, p, T, tk, Len(T[tk]))
  ELSE IF tk = "key" THEN GOk([e |-> "key"], p + Len(T.key))
  ELSE IF fe > p /\ At(t, fe) = LPAR
       THEN LET a == PArgs(t, SkipBlank(t, fe + 1), T, <<>>) IN
            IF a.ok THEN GOk([e |-> "fn", f |-> SubSeq(t, p, fe - 1), a |-> a.v], a.p) ELSE a
  ELSE IF WordAt(t, p, K_true) THEN Lit(Bool(TRUE), p + 4)
  ELSE IF WordAt(t, p, K_false) THEN Lit(Bool(FALSE), p + 5)
  ELSE IF WordAt(t, p, K_null) THEN Lit(Null, p + 4)
  ELSE IF ~T.ext THEN GFail(p)
  ELSE IF WordAt(t, p, K_True) THEN Lit(Bool(TRUE), p + 4)
  ELSE IF WordAt(t, p, K_False) THEN Lit(Bool(FALSE), p + 5)
  ELSE IF WordAt(t, p, K_Null) \/ WordAt(t, p, K_none) \/ WordAt(t, p, K_None) THEN Lit(Null, p + 4)
  ELSE IF WordAt(t, p, K_nil) \/ WordAt(t, p, K_Nil) THEN Lit(Null, p + 3)
  ELSE IF WordAt(t, p, K_undefined) THEN GOk([e |-> "undef"], p + 9)
  ELSE IF WordAt(t, p, K_missing) THEN GOk([e |-> "undef"], p + 7)
  ELSE IF c = SLASH THEN
       LET q == SlashPos(t, p + 2) IN
       IF q = 0 THEN GFail(p)
       ELSE LET f == FlagEnd(t, q + 1) IN
            GOk([e |-> "re", pat |-> SubSeq(t, p + 1, q - 1), fl |-> SubSeq(t, q + 1, f - 1)], f)
  ELSE IF c = LBRK THEN PList(t, SkipBlank(t, p + 1), T, <<>>)
  ELSE GFail(p)

PList(t, p, T, acc) ==
  IF At(t, p) = RBRK THEN IF acc = <<>> THEN GOk([e |-> "list", a |-> acc], p + 1) ELSE GFail(p)
  ELSE LET x == POperand(t, p, T) IN
       IF ~x.ok THEN x
       ELSE IF x.v.e # "lit" THEN GFail(p)
       ELSE LET q == SkipBlank(t, x.p) IN
            IF At(t, q) = RBRK THEN GOk([e |-> "list", a |-> Append(acc, x.v)], q + 1)
            ELSE IF At(t, q) = COMMA THEN PList(t, SkipBlank(t, q + 1), T, Append(acc, x.v))
            ELSE GFail(q)

PArgs(t, p, T, acc) ==
  IF At(t, p) = RPAR THEN IF acc = <<>> THEN GOk(acc, p + 1) ELSE GFail(p)
  ELSE LET x == POr(t, p, T) IN
       IF ~x.ok THEN x
       ELSE LET q == SkipBlank(t, x.p) IN
            IF At(t, q) = RPAR THEN GOk(Append(acc, x.v), q + 1)
            ELSE IF At(t, q) = COMMA
                 THEN LET q1 == SkipBlank(t, q + 1) IN
                      IF At(t, q1) = RPAR THEN GFail(q1) ELSE PArgs(t, q1, T, Append(acc, x.v))
            ELSE GFail(q)

\* --- whole queries -------------------------------------------------------
\* a query that starts at p: identifier (optional in the extended syntax)
PQuery(t, p, T) ==
  LET tk == TokAt(t, p, T) IN
  IF tk = "root" \/ tk = "fake"
  THEN LET g == PSegs(t, p + Len(T[tk]), T, <<>>) IN
       IF g.ok THEN GOk([r |-> tk, g |-> g.v], g.p) ELSE g
  ELSE IF ~T.ext THEN GFail(p)
  ELSE LET c == At(t, p)
           first == IF c = LBRK \/ c = DOT THEN PSegment(t, p, T) ELSE PShort(t, p, T, FALSE)
       IN IF ~first.ok THEN first
          ELSE LET g == PSegs(t, first.p, T, <<first.v>>) IN
               IF g.ok THEN GOk([r |-> "root", g |-> g.v], g.p) ELSE g

RECURSIVE PCompound(_, _, _, _, _)
PCompound(t, p, T, first, rest) ==
  LET q == SkipBlank(t, p) tk == TokAt(t, q, T) IN
  IF q > Len(t) /\ (T.ext \/ q = p) THEN GOk([first |-> first, rest |-> rest], q)
  ELSE IF T.ext /\ (tk = "union" \/ tk = "inter")
  THEN LET r == PQuery(t, SkipBlank(t, q + Len(T[tk])), T) IN
       IF ~r.ok THEN r ELSE PCompound(t, r.p, T, first, Append(rest, [op |-> tk, q |-> r.v]))
  ELSE GFail(q)

\* the compound query a text denotes, or a failure
Parse(t, T) == LET f == PQuery(t, 1, T) IN IF ~f.ok THEN f ELSE PCompound(t, f.p, T, f.v, <<>>)

\* --- what makes a parsed query one that must be refused -------------------
MaxInt == K_maxint
RangeFlaw(i) == IF ~i.z /\ DigGt(i.dg, MaxInt) THEN {"range"} ELSE {}

RECURSIVE FlawsQ(_), FlawsTest(_), FlawsCmp(_), FlawsArg(_, _), FlawsFn(_)
FlawsSel(s) ==
  CASE s.s = "idx" -> (IF Len(s.dg) > 1 /\ s.dg[1] = 48 THEN {"leading-zero"} ELSE {})
                        \cup (IF s.neg /\ s.dg = <<48>> THEN {"~negzero"} ELSE {})
                        \cup (IF DigGt(s.dg, MaxInt) THEN {"range"} ELSE {})
    [] s.s = "slice" -> RangeFlaw(s.a) \cup RangeFlaw(s.b) \cup RangeFlaw(s.c)
                        \cup UNION {IF ~i.z /\ ~CanonInt(i) THEN {"~slice-spelling"} ELSE {} : i \in {s.a, s.b, s.c}}
    [] s.s = "filt" -> FlawsTest(s.x)
    [] s.s = "keys" -> {"~ext"}
    [] OTHER -> {}
FlawsSeg(g) == (IF g.ss = <<>> THEN {"empty-list"} ELSE {})
               \cup (IF g.trail THEN {"trailing-comma"} ELSE {})
               \cup (IF g.d /\ g.sh /\ g.ss[1].s = "name" /\ (g.ss[1].n \in Reserved \cup {<<USCORE>>})
                     THEN {"~reserved"} ELSE {})
               \cup UNION {FlawsSel(g.ss[i]) : i \in 1..Len(g.ss)}
FlawsQ(q) == UNION {FlawsSeg(q.g[i]) : i \in 1..Len(q.g)}
             \cup (IF q.r \in {"fake", "ctx"} THEN {"~ext"} ELSE {})
FlawsTest(x) ==
  CASE x.e \in {"or", "and"} -> FlawsTest(x.l) \cup FlawsTest(x.r)
    [] x.e \in {"not", "par"} -> FlawsTest(x.x)
    [] x.e = "lit" -> {"bare-literal"}
    [] x.e = "q" -> FlawsQ(x.q)
    [] x.e = "fn" -> FlawsFn(x) \cup (IF KnownFn(x.f) /\ SigOf(x.f).res = "V" THEN {"value-test"} ELSE {})
    [] x.e = "cmp" -> FlawsCmp(x.l) \cup FlawsCmp(x.r)
                      \cup (IF x.op \in {"in", "contains", "=~", "<>"} THEN {"~ext"} ELSE {})
    [] OTHER -> {"~ext"}
FlawsCmp(x) ==
  CASE x.e = "lit" -> {}
    [] x.e = "q" -> FlawsQ(x.q) \cup (IF Singular(x.q) THEN {} ELSE {"nonsingular-compared"})
    [] x.e = "fn" -> FlawsFn(x) \cup (IF KnownFn(x.f) /\ SigOf(x.f).res # "V" THEN {"logical-compared"} ELSE {})
    [] OTHER -> {"~ext"}
FlawsArg(x, ty) ==
  IF ty = "V"
  THEN CASE x.e = "lit" -> {}
         [] x.e = "q" -> FlawsQ(x.q) \cup (IF Singular(x.q) THEN {} ELSE {"arg-kind"})
         [] x.e = "fn" -> FlawsFn(x) \cup (IF KnownFn(x.f) /\ SigOf(x.f).res # "V" THEN {"arg-kind"} ELSE {})
         [] x.e \in {"or", "and", "not", "par", "cmp"} -> {"arg-kind"}
         [] OTHER -> {"~ext"}
  ELSE CASE x.e = "q" -> FlawsQ(x.q)
         [] x.e = "fn" -> FlawsFn(x) \cup {"arg-kind"}
         [] x.e \in {"lit", "or", "and", "not", "par", "cmp"} -> {"arg-kind"}
         [] OTHER -> {"~ext"}
FlawsFn(x) ==
  IF ~KnownFn(x.f) THEN {"unknown-function"}
  ELSE LET sg == SigOf(x.f) IN
       (IF x.f \in RfcFns THEN {} ELSE {"~ext"})
       \cup IF Len(x.a) # Len(sg.args) THEN {"arg-count"}
            ELSE UNION {FlawsArg(x.a[i], sg.args[i]) : i \in 1..Len(x.a)}

\* Flaws whose name starts with "~" carry no claim either way (the text is
\* not an RFC query, or uses a documented departure); the others must be
\* refused at compile time.
NoClaim == {"~ext", "~reserved", "~negzero", "~slice-spelling"}
FlawsC(cq) == FlawsQ(cq.first) \cup UNION {FlawsQ(cq.rest[i].q) : i \in 1..Len(cq.rest)}

\* "valid" | "reject" | "noclaim" for a text, against RFC 9535
Classify(t) ==
  LET p == Parse(t, RfcToks) IN
  IF ~p.ok THEN [c |-> "noclaim", f |-> {}]
  ELSE LET f == FlawsC(p.v) IN
       IF f = {} THEN [c |-> "valid", f |-> {}]
       ELSE IF f \ NoClaim # {} THEN [c |-> "reject", f |-> f \ NoClaim]
       ELSE [c |-> "noclaim", f |-> f]

\* the query denoted by a text and well-typed in the extended language
ParseTyped(t, T) ==
  LET p == Parse(t, T) IN
  IF ~p.ok THEN p ELSE IF FlawsC(p.v) \ NoClaim # {} THEN GFail(0) ELSE p
=============================================================================
