------------------------------ MODULE MC_Place -------------------------------
(* Every kind of operand - literals of every kind, queries from each        *)
(* identifier, the current key, `undefined`, function results - in every    *)
(* position of a filter expression where it may stand, at the top of the    *)
(* filter and inside a filter nested in it.                                 *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Wide
Docs == ndJsonDeserialize(IOEnv.DOCS)     \* the last one is the filter context
VARIABLES x, lvl
NDocs == Len(Docs) - 1
Ctx == Docs[Len(Docs)]
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Fn(f, a) == [e |-> "fn", f |-> f, a |-> a]
List_(xs) == [e |-> "list", a |-> xs]
Re_(p, f) == [e |-> "re", pat |-> p, fl |-> f]
Par(a) == [e |-> "par", x |-> a]
Not(a) == [e |-> "not", x |-> a]
Filt(y) == Sg([s |-> "filt", x |-> y])
NA == SName(<<97>>)
Idx(neg, dg) == [s |-> "idx", neg |-> neg, dg |-> dg]
Num(neg, ds, pt) == Lit_(MkNum(neg, ds, pt))
Roots == {"self", "root", "fake", "ctx"}
\* operands
Nums == { Num(FALSE, <<1>>, 1), Num(TRUE, <<1>>, 1), Num(FALSE, <<1, 5>>, 1), Num(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8>>, 1), Num(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8>>, 8),
          Num(FALSE, <<1>>, 23), Num(FALSE, <<1>>, -6), Num(TRUE, <<1, 2, 3, 4, 5, 6, 7>>, -5), Num(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8, 9, 2, 5>>, 9) }
Lits == Nums \cup { Lit_(Str(<<97>>)), Lit_(Str(<<>>)), Lit_(Str(<<39, 34, 92, 47>>)), Lit_(Bool(TRUE)), Lit_(Bool(FALSE)), Lit_(Null) }
Sing == { QX(r, g) : r \in Roots, g \in { <<>>, <<Sg(NA)>>, <<Sg(Idx(FALSE, <<48>>))>>, <<Sg(Idx(TRUE, <<49>>))>>, <<Sg(Idx(FALSE, <<48>>)), Sg(NA)>> } }
Many == { QX(r, g) : r \in Roots, g \in { <<Sg(SWild)>>, <<Seg(TRUE, <<NA>>, FALSE, FALSE)>>, <<Seg(FALSE, <<NA, Idx(FALSE, <<48>>)>>, FALSE, FALSE)>>, <<Sg(SKeys)>>,
                                          <<Filt(QX("self", <<Sg(NA)>>))>>, <<Sg([s |-> "slice", a |-> NoInt, b |-> [z |-> FALSE, neg |-> FALSE, dg |-> <<49>>], c |-> NoInt])>> } }
Key == [e |-> "key"]
Undef == [e |-> "undef"]
Fns == {Fn(K_length, <<y>>) : y \in Sing} \cup {Fn(f, <<y>>) : f \in {K_count, K_value}, y \in Many}
Vals1 == Lits \cup Sing \cup {Key, Undef} \cup Fns
Self == QX("self", <<>>)
MeA == QX("self", <<Sg(NA)>>)
Other == {MeA, Lit_(NumOfInt(1))} \cup (IF Wide THEN {Key, Undef, QX("root", <<Sg(NA)>>), Fn(K_count, <<QX("self", <<Sg(SWild)>>)>>)} ELSE {})
Ops == IF Wide THEN {"==", "!=", "<", "<=", ">", ">=", "<>"} ELSE {"==", "<", "<>"}
Compared == {Cmp(op, a, b) : op \in Ops, a \in Vals1, b \in Other} \cup {Cmp(op, b, a) : op \in Ops, a \in Vals1, b \in Other}
Patterns == {<<97>>, <<97, 124, 98>>}
Member_ == {Cmp("in", MeA, List_(<<a, b>>)) : a \in Lits, b \in (IF Wide THEN Lits ELSE {Lit_(Str(<<97>>)), Num(FALSE, <<1, 2, 3, 4, 5, 6, 7, 8>>, 1)})}
           \cup {Cmp("in", a, List_(<<Lit_(Str(<<97>>)), Lit_(NumOfInt(1))>>)) : a \in (Sing \cup {Key})}
           \cup {Cmp("contains", MeA, a) : a \in Lits \cup Sing \cup {Key}} \cup {Cmp("in", a, MeA) : a \in Lits \cup Sing \cup {Key}}
           \cup {Cmp("in", MeA, a) : a \in Sing} \cup {Cmp("contains", a, MeA) : a \in Sing}
           \cup {Cmp("=~", a, Re_(p, f)) : a \in Sing \cup {Key}, p \in Patterns, f \in {<<>>, <<105>>}}
Applied == {Fn(f, <<a, Lit_(Str(p))>>) : f \in {K_match, K_search}, a \in Sing, p \in Patterns} \cup {Fn(K_match, <<MeA, a>>) : a \in Sing \cup {Key}}
Tested == Sing \cup Many \cup {Not(a) : a \in Sing \cup Many} \cup {Not(Par(a)) : a \in Sing}
Exprs == Compared \cup Member_ \cup Applied \cup Tested
Init == x \in Exprs /\ lvl = 1
\* one level down: the candidate is a child of the child, `$` and `_` are what they were
Next == lvl = 1 /\ lvl' = 2 /\ x' = QX("self", <<Filt(x)>>)
Q == [r |-> "root", g |-> <<Filt(x)>>]
Selects(doc) == LET nl == Find(Q, doc, Ctx) IN [i \in 1..Len(nl) |-> LET st == nl[i].l[1] IN IF st.k = "n" THEN st.n ELSE st.i]
Used == IF lvl = 1 THEN {1, 2} ELSE {3}
Out == PrintT("@@" \o ToJson([t |-> {SpQ(Q, StdToks, Styles[i], FALSE) : i \in Used}, l |-> [d \in 1..NDocs |-> Selects(Docs[d])]]))
OutTexts == PrintT("@@" \o ToJson([t |-> {SpQ(Q, StdToks, Styles[i], FALSE) : i \in Used}]))
\* uses nothing outside RFC 9535
RECURSIVE Rfc(_)
RfcQ(q) == q.r \in {"self", "root"} /\ \A i \in 1..Len(q.g) : \A j \in 1..Len(q.g[i].ss) :
             LET s == q.g[i].ss[j] IN s # SKeys /\ (s.s = "filt" => Rfc(s.x))
Rfc(y) == CASE y.e = "cmp" -> y.op \in {"==", "!=", "<", "<=", ">", ">="} /\ Rfc(y.l) /\ Rfc(y.r)
            [] y.e = "q" -> RfcQ(y.q)
            [] y.e = "fn" -> \A i \in 1..Len(y.a) : Rfc(y.a[i])
            [] y.e \in {"not", "par"} -> Rfc(y.x)
            [] OTHER -> y.e = "lit"
Standard == Rfc(x)
OutRfc == Standard => Out
\* the same under other spellings of the identifiers
Alts == << [StdToks EXCEPT !.root = <<36, 36>>, !.self = <<36>>, !.fake = <<36, 36, 36>>, !.key = <<64>>, !.ctx = <<64, 64>>, !.keys = <<94>>, !.union = <<59>>, !.inter = <<43>>],
           [StdToks EXCEPT !.root = <<64>>, !.self = <<35>>, !.fake = <<126>>, !.key = <<95>>, !.ctx = <<36>>, !.keys = <<94>>, !.union = <<38>>, !.inter = <<124>>],
           [StdToks EXCEPT !.root = <<82, 79, 79, 84>>, !.self = <<37>>, !.fake = <<94, 94>>, !.key = <<37, 37>>, !.ctx = <<82, 79, 79, 84, 83>>, !.keys = <<42, 126>>] >>
OutAlts == PrintT("@@" \o ToJson([t |-> SpQ(Q, StdToks, Styles[IF lvl = 1 THEN 1 ELSE 3], FALSE),
                                  u |-> [i \in 1..Len(Alts) |-> SpQ(Q, Alts[i], Styles[IF lvl = 1 THEN 1 ELSE 3], FALSE)]]))
OutTables == (x = Self /\ lvl = 1) => PrintT("@@" \o ToJson([T |-> Alts]))
AltInverse == \A i \in 1..Len(Alts) : LET p == Parse(SpQ(Q, Alts[i], Styles[1], FALSE), Alts[i]) IN p.ok /\ Bare(p.v.first) = Bare(Q)
Inverse == \A i \in Used : LET p == Parse(SpQ(Q, StdToks, Styles[i], FALSE), StdToks) IN p.ok /\ Bare(p.v.first) = Bare(Q)
=============================================================================
