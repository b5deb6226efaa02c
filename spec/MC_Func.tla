------------------------------- MODULE MC_Func -------------------------------
(* The functions that take nodelists, on nodelists built one selector at a  *)
(* time: any selector of the pool may come again, so a node may be in the   *)
(* list more than once; below a child or a descendant segment.              *)
EXTENDS Spell, Json, IOUtils
CONSTANTS MaxSel
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES ss, root, d
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Fn(f, a) == [e |-> "fn", f |-> f, a |-> <<a>>]
A_ == SName(<<97>>)  B_ == SName(<<98>>)
I(n) == [s |-> "idx", neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
Bk(n) == [z |-> FALSE, neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
Back == [s |-> "slice", a |-> NoInt, b |-> NoInt, c |-> Bk(-1)]
Has(n) == [s |-> "filt", x |-> QX("self", <<Sg(n)>>)]
Pool == {A_, B_, I(0), I(-1), SWild, Back, Has(A_)}
Arg == QX(root, <<Seg(d, ss, FALSE, FALSE)>>)
Flt(x) == [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> x])>>]
MeA == QX("self", <<Sg(A_)>>)
Suite == << Flt(Cmp("==", Fn(K_count, Arg), Lit_(NumOfInt(1)))), Flt(Cmp(">", Fn(K_count, Arg), Lit_(NumOfInt(2)))), Flt(Cmp("==", Fn(K_count, Arg), Lit_(NumOfInt(Len(ss))))),
            Flt(Cmp("==", Fn(K_value, Arg), MeA)), Flt(Cmp("!=", Lit_(Null), Fn(K_value, Arg))), Flt(Cmp("==", Fn(K_length, Fn(K_value, Arg)), Fn(K_count, Arg))),
            Flt(Arg), Flt(Cmp("<", Fn(K_count, Arg), Fn(K_length, QX("self", <<>>)))) >>
Init == ss \in {<<x>> : x \in Pool} /\ root \in {"self", "root"} /\ d \in BOOLEAN
Next == Len(ss) < MaxSel /\ \E s \in Pool : ss' = Append(ss, s) /\ UNCHANGED <<root, d>>
Step_(st) == IF st.k = "n" THEN st.n ELSE st.i
Sel(q) == [k \in 1..Len(Docs) |-> LET nl == Find(q, Docs[k], Null) IN [i \in 1..Len(nl) |-> [j \in 1..Len(nl[i].l) |-> Step_(nl[i].l[j])]]]
Out == PrintT("@@" \o ToJson([q |-> [i \in 1..Len(Suite) |-> [t |-> SpQ(Suite[i], RfcToks, Styles[1 + ((i + Len(ss)) % 4)], FALSE), l |-> Sel(Suite[i])]]]))
\* every selector adds the nodes it selects on its own: nothing is dropped for being there already
Adds == Len(ss) > 1 =>
  LET n(x) == [k \in 1..Len(Docs) |-> Len(Find([r |-> "root", g |-> <<Seg(d, x, FALSE, FALSE)>>], Docs[k], Null))] IN
  \A k \in 1..Len(Docs) : n(ss)[k] = n(SubSeq(ss, 1, Len(ss) - 1))[k] + n(<<ss[Len(ss)]>>)[k]
=============================================================================
