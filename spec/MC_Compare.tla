----------------------------- MODULE MC_Compare ------------------------------
(* The comparison table: every operator between every two operands drawn    *)
(* from a pool of values (Nothing included), each operand written in every  *)
(* form that can denote it.  The candidate child holds the two values; the  *)
(* printed case says whether the comparison selects it.                     *)
EXTENDS Spell, Json, IOUtils
CONSTANTS Ops, Forms
VARIABLES op, x, y
Vals_ == ndJsonDeserialize(IOEnv.DOCS)
NV == Len(Vals_)
L_ == <<108>>  R_ == <<114>>
Sg(s) == Seg(FALSE, <<s>>, FALSE, FALSE)
QX(r, g) == [e |-> "q", q |-> [r |-> r, g |-> g]]
I(n) == [s |-> "idx", neg |-> n < 0, dg |-> Nat2Text(IF n < 0 THEN -n ELSE n)]
Fn(f, a) == [e |-> "fn", f |-> f, a |-> <<a>>]
\* an operand is [v: index into Vals_ or 0 for Nothing, f: form]
Prim(v) == v > 0 /\ Vals_[v].t \notin {"arr", "obj"}
FormsOf(v) == (Forms \ (IF Prim(v) THEN {} ELSE {"lit", "list"})) \ (IF v = 0 THEN {} ELSE {"undef"})
Operand(o, side) ==
  LET n == SName(IF side = 1 THEN L_ ELSE R_) IN
  CASE o.f = "self" -> QX("self", <<Sg(n)>>)
    [] o.f = "root" -> QX("root", <<Sg(I(-1)), Sg(n)>>)
    [] o.f = "lit" -> [e |-> "lit", v |-> Vals_[o.v]]
    [] o.f = "ctx" -> QX("ctx", <<Sg(n)>>)
    [] o.f = "list" -> [e |-> "list", a |-> <<[e |-> "lit", v |-> Str(<<120>>)], [e |-> "lit", v |-> Vals_[o.v]]>>]
    [] o.f = "undef" -> [e |-> "undef"]
    [] o.f = "key" -> [e |-> "key"]
    [] o.f = "value" -> Fn(K_value, QX("self", <<Sg(n)>>))
    [] o.f = "valued" -> Fn(K_value, QX("self", <<Seg(TRUE, <<n>>, FALSE, FALSE)>>))
    [] o.f = "length" -> Fn(K_length, QX("self", <<Sg(n)>>))
    [] o.f = "count" -> Fn(K_count, QX("self", <<Sg(n), Sg(SWild)>>))
Cand == LET l == IF x.v > 0 THEN <<x.v>> ELSE <<>> r == IF y.v > 0 THEN <<y.v>> ELSE <<>>
            ks == (IF x.v > 0 THEN <<L_>> ELSE <<>>) \o (IF y.v > 0 THEN <<R_>> ELSE <<>>) IN
        Obj(ks, [i \in 1..Len(l \o r) |-> Vals_[(l \o r)[i]]])
StylesUsed == Styles
Doc == Arr(<<Cand>>)
Expr == [e |-> "cmp", op |-> op, l |-> Operand(x, 1), r |-> Operand(y, 2)]
Q == [r |-> "root", g |-> <<Sg([s |-> "filt", x |-> Expr])>>]
Sel == Holds(Expr, Cand, IdxStep(0), [root |-> Doc, ctx |-> Cand])

Operands == UNION {{[v |-> v, f |-> f] : f \in FormsOf(v)} : v \in 0..NV}
Init == op \in Ops /\ x \in Operands /\ y = [v |-> 0, f |-> "none"]
Next == /\ y.f = "none"
        /\ y' \in Operands
        /\ UNCHANGED <<op, x>>
Out == y.f = "none" \/ PrintT("@@" \o ToJson([l |-> x.v, r |-> y.v, s |-> Sel, t |-> SpQ(Q, RfcToks, StylesUsed[1 + ((x.v + y.v) % 4)], FALSE)]))

\* laws of the comparison operators themselves
Vx == Value(Operand(x, 1), Cand, IdxStep(0), [root |-> Doc, ctx |-> Cand])
Vy == Value(Operand(y, 2), Cand, IdxStep(0), [root |-> Doc, ctx |-> Cand])
Laws == y.f = "none" \/
  /\ Compare("==", Vx, Vy) = Compare("==", Vy, Vx)
  /\ Compare("!=", Vx, Vy) = ~Compare("==", Vx, Vy)
  /\ Compare("<", Vx, Vy) = Compare(">", Vy, Vx)
  /\ Compare("<=", Vx, Vy) = (Compare("<", Vx, Vy) \/ Compare("==", Vx, Vy))
  /\ ~(Compare("<", Vx, Vy) /\ Compare("==", Vx, Vy))
  /\ ~(Compare("<", Vx, Vy) /\ Compare("<", Vy, Vx))
  /\ (Vx.t = "nothing" => (Compare("==", Vx, Vy) <=> Vy.t = "nothing"))
=============================================================================
