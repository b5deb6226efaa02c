----------------------------- MODULE Projection -----------------------------
(* Projection of a match: relative queries are evaluated at the match's     *)
(* value, and what they select is given as a list (flat), or put together   *)
(* in place, located from the match (relative) or from the root.            *)
(* A selection is a sequence of nodes [l |-> steps, v |-> value].           *)
EXTENDS Query

IsPrefix_(p, l) == Len(p) <= Len(l) /\ SubSeq(l, 1, Len(p)) = p
\* what S selects in the container at p, in the order of selection
RECURSIVE Distinct(_, _)
Distinct(xs, seen) == IF xs = <<>> THEN seen
                      ELSE Distinct(Tail(xs), IF \E i \in 1..Len(seen) : seen[i] = Head(xs) THEN seen ELSE Append(seen, Head(xs)))
StepsAt(S, p) == LET D == SelectSeq(S, LAMBDA n : IsPrefix_(p, n.l) /\ Len(n.l) > Len(p)) IN
                 Distinct([i \in 1..Len(D) |-> D[i].l[Len(p) + 1]], <<>>)
Rank(S, p, ix) == Cardinality({i \in 1..Len(StepsAt(S, p)) : StepsAt(S, p)[i].i < ix})
Prefixes(S) == UNION {{SubSeq(S[i].l, 1, n) : n \in 0..Len(S[i].l) - 1} : i \in 1..Len(S)}
Ascending(S) == \A p \in Prefixes(S) : LET st == StepsAt(S, p) IN
                  \A i \in 1..Len(st) - 1 : st[i].k = "i" => st[i].i < st[i + 1].i
\* a selected value holding another selected one within an array: ranks cannot count only what is selected
Muddled(S) == \E i, j \in 1..Len(S) : Len(S[i].l) < Len(S[j].l) /\ IsPrefix_(S[i].l, S[j].l)
                /\ \E n \in Len(S[i].l) + 1..Len(S[j].l) : S[j].l[n].k = "i"

\* the projection: exactly what is selected, arrays without the gaps
RECURSIVE Built(_, _)
Built(S, p) ==
  LET whole == SelectSeq(S, LAMBDA n : n.l = p) IN
  IF whole # <<>> THEN whole[1].v
  ELSE LET st == StepsAt(S, p) IN
       IF st[1].k = "i" THEN LET ix == {st[i].i : i \in 1..Len(st)}
                                 Nth(n) == CHOOSE x \in ix : Cardinality({y \in ix : y < x}) = n - 1 IN
                             Arr([n \in 1..Len(st) |-> Built(S, Append(p, IdxStep(Nth(n))))])
       ELSE Obj([i \in 1..Len(st) |-> st[i].n], [i \in 1..Len(st) |-> Built(S, Append(p, st[i]))])

Container(v) == v.t \in {"obj", "arr"}
Below(S) == \A i \in 1..Len(S) : S[i].l # <<>>
Plain(S) == \A i \in 1..Len(S) : \A n \in 1..Len(S[i].l) : S[i].l[n].k \in {"n", "i"}
Moved(S, l) == [i \in 1..Len(S) |-> [S[i] EXCEPT !.l = l \o @]]
\* m: match [l, v]; S: what the relative queries select from m.v; the projections m gives (none or one)
Project(m, S, style) ==
  IF ~Container(m.v) \/ S = <<>> THEN <<>>
  ELSE CASE style = "flat" -> <<Arr(Vals(S))>>
         [] style = "relative" -> <<Built(S, <<>>)>>
         [] style = "root" -> <<Built(Moved(S, m.l), <<>>)>>

\* the property's reading of the same, for checking Built
RECURSIVE Ranked(_, _, _), Follow_(_, _), Leaves(_)
Ranked(S, l, n) == IF n > Len(l) THEN <<>>
                   ELSE <<IF l[n].k = "i" THEN [k |-> "i", i |-> Rank(S, SubSeq(l, 1, n - 1), l[n].i)] ELSE l[n]>> \o Ranked(S, l, n + 1)
Follow_(v, l) == IF l = <<>> THEN <<v>>
                 ELSE IF l[1].k = "i" THEN IF v.t = "arr" /\ l[1].i < Len(v.a) THEN Follow_(v.a[l[1].i + 1], Tail(l)) ELSE <<>>
                 ELSE IF v.t = "obj" /\ KeyAt(v, l[1].n) > 0 THEN Follow_(v.v[KeyAt(v, l[1].n)], Tail(l)) ELSE <<>>
RECURSIVE Sum_(_)
Sum_(f) == IF f = <<>> THEN 0 ELSE Head(f) + Sum_(Tail(f))
Leaves(v) == CASE v.t = "arr" /\ v.a # <<>> -> Sum_([i \in 1..Len(v.a) |-> Leaves(v.a[i])])
               [] v.t = "obj" /\ v.k # <<>> -> Sum_([i \in 1..Len(v.v) |-> Leaves(v.v[i])])
               [] OTHER -> 1
\* selected nodes that are not within another
Tops(S) == Distinct(SelectSeq(S, LAMBDA n : ~\E j \in 1..Len(S) : Len(S[j].l) < Len(n.l) /\ IsPrefix_(S[j].l, n.l)), <<>>)
FoundAll(S) == \A i \in 1..Len(S) : Follow_(Built(S, <<>>), Ranked(S, S[i].l, 1)) = <<S[i].v>>
NoOther(S) == LET T == Tops(S) IN Leaves(Built(S, <<>>)) = Sum_([i \in 1..Len(T) |-> Leaves(T[i].v)])
=============================================================================
