------------------------------- MODULE MC_Nest -------------------------------
(* Filters nested in filters: at every depth `$` is the query argument and  *)
(* `@` the innermost candidate.  Expressions grow by wrapping.              *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Depth
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES x, n
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
Ds(s) == Seg(TRUE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
A_ == SName(<<97>>)  K_ == SName(<<107>>)
I0 == [s |-> "idx", neg |-> FALSE, dg |-> <<48>>]
F(y) == [s |-> "filt", x |-> y]
SelfQ == QX("self", <<>>)
Base == { QX("self", <<Sg(A_)>>), Cmp("==", SelfQ, QX("root", <<Sg(K_)>>)), Cmp("==", QX("self", <<Sg(A_)>>), QX("root", <<Sg(I0)>>)),
          Cmp(">", SelfQ, Lit_(NumOfInt(1))), Cmp("==", QX("root", <<Sg(K_)>>), QX("self", <<Sg(A_)>>)),
          Cmp("!=", SelfQ, QX("self", <<Sg(A_)>>)), QX("root", <<Sg(A_)>>) }
Wrap(y) == { QX("self", <<Sg(F(y))>>), QX("self", <<Sg(A_), Sg(F(y))>>), QX("root", <<Sg(F(y))>>), QX("self", <<Ds(F(y))>>),
             [e |-> "not", x |-> QX("self", <<Sg(F(y))>>)],
             Cmp(">", [e |-> "fn", f |-> K_count, a |-> <<QX("self", <<Sg(F(y))>>)>>], Lit_(NumOfInt(0))),
             Cmp("==", [e |-> "fn", f |-> K_value, a |-> <<QX("root", <<Sg(F(y))>>)>>], SelfQ),
             [e |-> "or", l |-> QX("self", <<Sg(F(y)), Sg(A_)>>), r |-> Cmp("==", SelfQ, QX("root", <<Sg(K_)>>))],
             [e |-> "and", l |-> QX("self", <<Sg(A_)>>), r |-> QX("root", <<Sg(A_), Sg(F(y))>>)] }
Init == x \in Base /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ x' \in Wrap(x)
Step_(st) == IF st.k = "n" THEN st.n ELSE st.i
Sel(sg) == [d \in 1..Len(Docs) |->
  LET nl == Find([r |-> "root", g |-> <<sg>>], Docs[d], Null) IN [i \in 1..Len(nl) |-> [j \in 1..Len(nl[i].l) |-> Step_(nl[i].l[j])]]]
Pr(sg) == PrintT("@@" \o ToJson([t |-> SpQ([r |-> "root", g |-> <<sg>>], RfcToks, Styles[1 + n], FALSE), l |-> Sel(sg)]))
Out == Pr(Sg(F(x))) /\ (n < Depth => Pr(Ds(F(x))))
Roundtrip == SpellInverse([r |-> "root", g |-> <<Sg(F(x))>>])
=============================================================================
