------------------------------- MODULE Entry --------------------------------
(* Agreement of the query entry points.  A result is what one call gave:    *)
(* [o |-> "ok", vals |-> Seq(value), locs |-> Seq(path text)] for calls     *)
(* that give matches, the same without locs for calls that give values, or  *)
(* [o |-> "err", err |-> error name].                                       *)
(* An operand's result is that of its query used on its own; a compound's   *)
(* result is folded from them, left to right.                               *)
EXTENDS JValue

Res(vals, locs) == [o |-> "ok", vals |-> vals, locs |-> locs]
Keep(a, b) == SelectSeq([i \in 1..Len(a.vals) |-> i], LAMBDA i : \E j \in 1..Len(b.vals) : JEq(a.vals[i], b.vals[j]))
Pick(s, ix) == [j \in 1..Len(ix) |-> s[ix[j]]]
Combine(op, a, b) ==
  IF op = "union" THEN Res(a.vals \o b.vals, a.locs \o b.locs)
  ELSE LET ix == Keep(a, b) IN Res(Pick(a.vals, ix), Pick(a.locs, ix))
RECURSIVE FoldRes(_, _, _, _)
FoldRes(acc, ops, parts, i) ==
  IF i > Len(ops) THEN acc ELSE FoldRes(Combine(ops[i], acc, parts[i + 1]), ops, parts, i + 1)
Expected(e) == FoldRes(e.parts[1], e.ops, e.parts, 1)

\* what each kind of entry point has to give, from the list of matches w
Fits(k, r, w) ==
  r.o = "ok" /\
  CASE k = "iter" -> r.vals = w.vals /\ r.locs = w.locs
    [] k = "all" -> r.vals = w.vals
    [] k = "one" -> IF w.vals = <<>> THEN r.vals = <<>>
                    ELSE Len(r.vals) = 1 /\ r.vals[1] = w.vals[1] /\ r.locs[1] = w.locs[1]

\* [ops, parts: operands' results, res: Seq([n: entry points, k: kind, r: result])]
JEntry(e) ==
  IF \E i \in 1..Len(e.parts) : e.parts[i].o = "err"
  THEN IF \A i \in 1..Len(e.res) : e.res[i].r.o = "err" /\ \E j \in 1..Len(e.parts) :
                                     e.parts[j].o = "err" /\ e.parts[j].err = e.res[i].r.err
       THEN "ok" ELSE "entry points disagree about failing"
  ELSE LET w == Expected(e)
           bad == {i \in 1..Len(e.res) : ~Fits(e.res[i].k, e.res[i].r, w)}
       IN IF bad = {} THEN "ok"
          ELSE LET b == e.res[CHOOSE i \in bad : \A j \in bad : i <= j] IN
               "entry point " \o b.n \o (IF b.r.o = "err" THEN " fails with " \o b.r.err ELSE " gives something else")
=============================================================================
