------------------------------- MODULE Spell --------------------------------
(* Text of an abstract query: the inverse of Grammar!Parse.  A style is     *)
(* [sh |-> use shorthand where the grammar has one, dq |-> double quotes,   *)
(*  b |-> blank space written wherever the grammar allows it,               *)
(*  w |-> 0: RFC 9535 only; 1, 2: the documented synonyms instead].         *)
EXTENDS Grammar

Hex1(n) == IF n < 10 THEN 48 + n ELSE 87 + n
UEsc(c) == <<BSL, 117, 48, 48, Hex1(c \div 16), Hex1(c % 16)>>
EscOne(c, q) ==
  CASE c = q -> <<BSL, c>> [] c = BSL -> <<BSL, BSL>>
    [] c = 8 -> <<BSL, 98>> [] c = 9 -> <<BSL, 116>> [] c = 10 -> <<BSL, 110>>
    [] c = 12 -> <<BSL, 102>> [] c = 13 -> <<BSL, 114>>
    [] c < 32 -> UEsc(c)
    [] OTHER -> <<c>>
Quoted(s, q) == <<q>> \o Flat([i \in 1..Len(s) |-> EscOne(s[i], q)]) \o <<q>>

\* RFC 9535 2.7: the normalized path of a location
NormStep(st) == CASE st.k = "n" -> <<LBRK>> \o Quoted(st.n, APOS) \o <<RBRK>>
                  [] st.k = "i" -> <<LBRK>> \o Nat2Text(st.i) \o <<RBRK>>
NormPath(l) == <<DOLLAR>> \o Flat([i \in 1..Len(l) |-> NormStep(l[i])])

IntText(i) == (IF i.neg THEN <<MINUS>> ELSE <<>>) \o i.dg
OptInt(i) == IF i.z THEN <<>> ELSE IntText(i)
Zeros(n) == [i \in 1..n |-> 48]
Digits(g) == [i \in 1..Len(g) |-> g[i] + 48]
NumText(v) ==
  IF v.s = 0 THEN <<48>>
  ELSE LET g == Digits(v.g) n == Len(g) sg == IF v.s < 0 THEN <<MINUS>> ELSE <<>> IN
       sg \o (IF v.x >= n /\ v.x <= 17 THEN g \o Zeros(v.x - n)
              ELSE IF v.x > 0 /\ v.x < n THEN SubSeq(g, 1, v.x) \o <<DOT>> \o SubSeq(g, v.x + 1, n)
              ELSE IF v.x <= 0 /\ v.x > -5 THEN <<48, DOT>> \o Zeros(-v.x) \o g
              ELSE <<g[1]>> \o (IF n > 1 THEN <<DOT>> \o SubSeq(g, 2, n) ELSE <<>>) \o <<101>> \o Int2Text(v.x - 1))

IsShort(n) == n # <<>> /\ IsNameFirst(n[1]) /\ \A i \in 1..Len(n) : IsNameChar(n[i])
Words == Reserved \cup {<<USCORE>>}

SpStr(s, st) == Quoted(s, IF st.dq THEN QUOT ELSE APOS)
SpLit(v, st) == CASE v.t = "null" -> (CASE st.w = 1 -> K_nil [] st.w = 2 -> K_None [] st.w = 3 -> K_Null [] OTHER -> K_null)
                  [] v.t = "bool" -> (IF v.b THEN IF st.w > 0 THEN K_True ELSE K_true ELSE IF st.w > 0 THEN K_False ELSE K_false)
                  [] v.t = "num" -> NumText(v) [] v.t = "str" -> SpStr(v.s, st)

RECURSIVE SpSel(_, _, _), SpSeg(_, _, _, _), SpQ(_, _, _, _), SpX(_, _, _), SpArg(_, _, _)
SpSel(s, T, st) ==
  CASE s.s = "name" -> IF st.w > 1 /\ IsShort(s.n) /\ s.n \notin Words THEN s.n ELSE SpStr(s.n, st)
    [] s.s = "idx" -> IntText(s)
    [] s.s = "slice" -> OptInt(s.a) \o (IF s.a.z THEN <<>> ELSE st.b) \o <<COLON>> \o
                        (IF s.b.z THEN <<>> ELSE st.b \o OptInt(s.b)) \o
                        (IF s.c.z THEN <<>> ELSE st.b \o <<COLON>> \o st.b \o OptInt(s.c))
    [] s.s = "wild" -> <<STAR>>
    [] s.s = "keys" -> T.keys
    [] s.s = "filt" -> <<QMARK>> \o st.b \o SpX(s.x, T, st)
\* within a singular query used as a comparand no blank may follow "["
SpSeg(g, T, st, inner) ==
  LET dd == IF g.d THEN <<DOT, DOT>> ELSE <<>>
      bb == IF inner THEN <<>> ELSE st.b
      lst == <<LBRK>> \o bb \o
             JoinWith([i \in 1..Len(g.ss) |-> SpSel(g.ss[i], T, st)], bb \o <<COMMA>> \o bb) \o
             (IF g.trail THEN bb \o <<COMMA>> ELSE <<>>) \o bb \o <<RBRK>>
  IN IF st.sh /\ Len(g.ss) = 1 /\ ~g.trail /\
        (g.ss[1].s = "wild" \/ (g.ss[1].s = "name" /\ IsShort(g.ss[1].n) /\ (g.d => g.ss[1].n \notin Words)))
     THEN (IF g.d THEN dd ELSE <<DOT>>) \o (IF g.ss[1].s = "wild" THEN <<STAR>> ELSE g.ss[1].n)
     ELSE dd \o lst
SpQ(q, T, st, inner) == T[q.r] \o Flat([i \in 1..Len(q.g) |-> st.b \o SpSeg(q.g[i], T, st, inner)])
OpText(op) == CASE op = "==" -> <<61, 61>> [] op = "!=" -> <<33, 61>> [] op = "<" -> <<60>>
                [] op = "<=" -> <<60, 61>> [] op = ">" -> <<62>> [] op = ">=" -> <<62, 61>>
                [] op = "<>" -> <<60, 62>> [] op = "=~" -> <<61, 126>>
                [] op = "in" -> <<32>> \o K_in \o <<32>> [] op = "contains" -> <<32>> \o K_contains \o <<32>>
SpOperand(x, T, st) == IF x.e = "q" THEN SpQ(x.q, T, st, TRUE) ELSE SpX(x, T, st)
Spaced(w) == <<32>> \o w \o <<32>>
SpX(x, T, st) ==
  CASE x.e = "or" -> SpX(x.l, T, st) \o st.b \o (IF st.w > 0 THEN Spaced(K_or) ELSE <<BAR, BAR>>) \o st.b \o SpX(x.r, T, st)
    [] x.e = "and" -> SpX(x.l, T, st) \o st.b \o (IF st.w > 0 THEN Spaced(K_and) ELSE <<AMP, AMP>>) \o st.b \o SpX(x.r, T, st)
    \* an absent value is one that equals `undefined`
    [] x.e = "not" /\ st.w = 2 /\ x.x.e = "q" /\ Singular(x.x.q) -> SpQ(x.x.q, T, st, TRUE) \o OpText("==") \o K_undefined
    [] x.e = "q" /\ st.w = 2 /\ Singular(x.q) -> K_missing \o st.b \o OpText("!=") \o st.b \o SpQ(x.q, T, st, TRUE)
    [] x.e = "not" -> (IF st.w = 1 THEN K_not \o <<32>> ELSE <<BANG>>) \o st.b \o SpX(x.x, T, st)
    [] x.e = "par" -> <<LPAR>> \o st.b \o SpX(x.x, T, st) \o st.b \o <<RPAR>>
    [] x.e = "cmp" -> SpOperand(x.l, T, st) \o st.b \o OpText(IF st.w > 0 /\ x.op = "!=" THEN "<>" ELSE x.op) \o st.b \o SpOperand(x.r, T, st)
    [] x.e = "q" -> SpQ(x.q, T, st, FALSE)
    [] x.e = "fn" -> x.f \o <<LPAR>> \o st.b \o
                     JoinWith([i \in 1..Len(x.a) |-> SpArg(x.a[i], T, st)], st.b \o <<COMMA>> \o st.b) \o
                     st.b \o <<RPAR>>
    [] x.e = "lit" -> SpLit(x.v, st)
    [] x.e = "key" -> T.key
    [] x.e = "undef" -> IF st.w > 1 THEN K_missing ELSE K_undefined
    [] x.e = "list" -> <<LBRK>> \o JoinWith([i \in 1..Len(x.a) |-> SpX(x.a[i], T, st)], <<COMMA>> \o st.b) \o <<RBRK>>
    [] x.e = "re" -> <<SLASH>> \o x.pat \o <<SLASH>> \o x.fl
SpArg(x, T, st) == IF x.e = "q" THEN SpQ(x.q, T, st, FALSE) ELSE SpX(x, T, st)

Style(sh, dq, b) == [sh |-> sh, dq |-> dq, b |-> b, w |-> 0]
WordStyle(w, sh, b) == [sh |-> sh, dq |-> w = 1, b |-> b, w |-> w]
WordStyles == <<WordStyle(1, FALSE, <<>>), WordStyle(2, TRUE, <<>>), WordStyle(2, FALSE, <<32>>), WordStyle(3, TRUE, <<10>>)>>
\* a leading root identifier may be left out
RECURSIVE Flush(_)
Flush(t) == IF t # <<>> /\ t[1] \in {9, 10, 13, 32} THEN Flush(Tail(t)) ELSE t
Rootless(t) == IF Len(t) > 1 /\ t[1] = DOLLAR THEN Flush(Tail(t)) ELSE t
Styles == <<Style(FALSE, FALSE, <<>>), Style(TRUE, TRUE, <<>>), Style(TRUE, FALSE, <<32, 10>>), Style(FALSE, TRUE, <<9>>)>>
Texts(q, T) == [i \in 1..Len(Styles) |-> SpQ(q, T, Styles[i], FALSE)]

\* what Parse makes of a spelling, up to the shorthand marks
RECURSIVE Bare(_), BareX(_)
BareSel(s) == IF s.s = "filt" THEN [s |-> "filt", x |-> BareX(s.x)] ELSE s
Bare(q) == [r |-> q.r, g |-> [i \in 1..Len(q.g) |->
             [d |-> q.g[i].d, ss |-> [j \in 1..Len(q.g[i].ss) |-> BareSel(q.g[i].ss[j])]]]]
BareX(x) == CASE x.e \in {"or", "and"} -> [e |-> x.e, l |-> BareX(x.l), r |-> BareX(x.r)]
              [] x.e \in {"not", "par"} -> [e |-> x.e, x |-> BareX(x.x)]
              [] x.e = "cmp" -> [e |-> "cmp", op |-> x.op, l |-> BareX(x.l), r |-> BareX(x.r)]
              [] x.e = "q" -> [e |-> "q", q |-> Bare(x.q)]
              [] x.e = "fn" -> [e |-> "fn", f |-> x.f, a |-> [i \in 1..Len(x.a) |-> BareX(x.a[i])]]
              [] OTHER -> x
SpellInverse(q) == \A i \in 1..Len(Styles) :
  LET p == Parse(SpQ(q, RfcToks, Styles[i], FALSE), RfcToks) IN
  p.ok /\ p.v.rest = <<>> /\ Bare(p.v.first) = Bare(q)
=============================================================================
