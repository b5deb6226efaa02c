------------------------------ MODULE MC_Logic -------------------------------
(* Logical expressions over a few atoms, combined with !, && and || in      *)
(* every shape up to two levels of operators over composites, parenthesised *)
(* only where the grammar's precedences require it (or also redundantly).   *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Deep
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES x, lvl
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
M(c) == QX("self", <<Sg(SName(<<c>>))>>)
Cmp(op, l, r) == [e |-> "cmp", op |-> op, l |-> l, r |-> r]
Lit_(v) == [e |-> "lit", v |-> v]
Atoms == { M(97), M(98), Cmp("==", M(97), Lit_(Null)), Cmp("<", M(98), M(97)),
           [e |-> "fn", f |-> K_search, a |-> <<M(99), Lit_(Str(<<120>>))>>] }
\* the same machine over the non-standard operators
Key == [e |-> "key"]
ExtAtoms == { M(97), Cmp("in", M(97), [e |-> "list", a |-> <<Lit_(NumOfInt(1)), Lit_(Str(<<120>>))>>]), Cmp("contains", M(98), Lit_(Str(<<120>>))),
              Cmp("=~", M(99), [e |-> "re", pat |-> <<120>>, fl |-> <<105>>]), Cmp("<>", Key, Lit_(Str(<<107>>))) }
ExtAtoms2 == { M(98), Cmp("in", M(97), M(98)), Cmp("contains", QX("root", <<Sg(SName(<<107>>))>>), Key),
               Cmp("==", M(97), [e |-> "undef"]), Cmp("=~", M(97), [e |-> "re", pat |-> <<91, 94, 120, 93, 43>>, fl |-> <<>>]) }
Par(a) == [e |-> "par", x |-> a]
InAnd(a) == IF a.e = "or" THEN Par(a) ELSE a
RightOf(op, a) == IF a.e = op \/ (op = "and" /\ a.e = "or") THEN Par(a) ELSE a
Mk(op, a, b) == [e |-> op, l |-> IF op = "and" THEN InAnd(a) ELSE a, r |-> RightOf(op, b)]
\* "!" takes a test expression or a parenthesised expression
Not(a) == [e |-> "not", x |-> IF a.e \in {"q", "fn", "par"} THEN a ELSE Par(a)]
One == Atoms \cup {Not(a) : a \in Atoms} \cup {Mk(op, a, b) : op \in {"and", "or"}, a \in Atoms, b \in Atoms}
OneN == One \cup {Not(a) : a \in {y \in One : y.e \in {"and", "or"}}}
Init == x \in OneN /\ lvl = 1
Next == /\ lvl = 1 /\ lvl' = 2
        /\ \E op \in {"and", "or"}, b \in (IF Deep THEN OneN ELSE One) :
             x' \in {Mk(op, x, b)} \cup (IF Deep THEN {Not(Mk(op, x, b)), Mk(op, Par(x), b)} ELSE {})
Q == [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> x])>>]
Selects(doc) == LET nl == Find(Q, doc, Null) IN [i \in 1..Len(nl) |-> LET st == nl[i].l[1] IN IF st.k = "n" THEN st.n ELSE st.i]
StylesUsed == Styles
Txt(i) == LET t == SpQ(Q, RfcToks, StylesUsed[i], FALSE) IN IF StylesUsed[i].w > 0 THEN Rootless(t) ELSE t
Styl == IF lvl = 1 THEN 1..4 ELSE {1, 3}
Out == PrintT("@@" \o ToJson([t |-> {Txt(i) : i \in Styl},
                              l |-> [d \in 1..Len(Docs) |-> Selects(Docs[d])]]))
Roundtrip == SpellInverse(Q)
\* propositional laws of the specification's own evaluator
DeMorgan == \A d \in 1..Len(Docs) : \A i \in 1..Len(Children(Docs[d])) :
  LET c == Children(Docs[d])[i] E == [root |-> Docs[d], ctx |-> Null]
      H(y) == Holds(y, c[2], c[1], E) IN
  /\ H(Not(x)) = ~H(x)
  /\ x.e = "and" => H(Not(x)) = (H(Not(x.l)) \/ H(Not(x.r)))
  /\ x.e = "or" => H(Not(x)) = (H(Not(x.l)) /\ H(Not(x.r)))
=============================================================================
