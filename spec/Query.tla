------------------------------- MODULE Query --------------------------------
(* Semantics of JSONPath queries (RFC 9535 sections 2.3, 2.4, 2.5 and the   *)
(* documented extensions of python-jsonpath) over abstract syntax.          *)
(*                                                                          *)
(* query    [r |-> "root"|"self"|"fake"|"ctx", g |-> Seq(segment)]          *)
(* segment  [d |-> descendant?, ss |-> Seq(selector), sh, trail]            *)
(* selector [s |-> "name", n]  [s |-> "idx", neg, dg]  [s |-> "wild"]       *)
(*          [s |-> "slice", a, b, c]   (each [z |-> absent?, neg, dg])      *)
(*          [s |-> "filt", x]  [s |-> "keys"]                               *)
(* expr     [e |-> "or"|"and", l, r]  [e |-> "not"|"par", x]                *)
(*          [e |-> "cmp", op, l, r]  [e |-> "q", q]  [e |-> "fn", f, a]     *)
(*          [e |-> "lit", v]  [e |-> "key"]  [e |-> "undef"]                *)
(*          [e |-> "list", a]  [e |-> "re", pat, fl]                        *)
(*                                                                          *)
(* A node is [l |-> location, v |-> value]; a nodelist a sequence of them.  *)
(* An environment is E = [root |-> query argument, ctx |-> filter context]. *)
EXTENDS JValue, Regex

Node(l, v) == [l |-> l, v |-> v]
Vals(nl) == [i \in 1..Len(nl) |-> nl[i].v]
Locs(nl) == [i \in 1..Len(nl) |-> nl[i].l]

IntOf(b) == IF b.neg THEN -DigVal(b.dg) ELSE DigVal(b.dg)

\* --- function signatures (RFC 9535 2.4; `typeof`, `isinstance` extensions)
Sig(name, args, res) == [name |-> name, args |-> args, res |-> res]
SigLength == Sig("length", <<"V">>, "V")
SigCount == Sig("count", <<"N">>, "V")
SigValue == Sig("value", <<"N">>, "V")
SigMatch == Sig("match", <<"V", "V">>, "L")
SigSearch == Sig("search", <<"V", "V">>, "L")
SigTypeof == Sig("typeof", <<"N">>, "V")
SigIs == Sig("isinstance", <<"N", "V">>, "L")
SigOf(n) == CASE n = K_length -> SigLength [] n = K_count -> SigCount [] n = K_value -> SigValue
              [] n = K_match -> SigMatch [] n = K_search -> SigSearch
              [] n = K_typeof -> SigTypeof [] n = K_type -> SigTypeof
              [] n = K_isinstance -> SigIs [] n = K_is -> SigIs
RfcFns == {K_length, K_count, K_value, K_match, K_search}
KnownFn(n) == n \in RfcFns \/ n \in {K_typeof, K_type, K_isinstance, K_is}

\* --- singular queries ----------------------------------------------------
Singular(q) == \A i \in 1..Len(q.g) :
                 ~q.g[i].d /\ Len(q.g[i].ss) = 1 /\ q.g[i].ss[1].s \in {"name", "idx"}

\* --- slices (RFC 9535 2.3.4.2.2) -----------------------------------------
Norm(i, len) == IF i >= 0 THEN i ELSE len + i
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Up(_, _, _), Down(_, _, _)
Up(i, upper, st) == IF i < upper THEN <<i>> \o Up(i + st, upper, st) ELSE <<>>
Down(i, lower, st) == IF lower < i THEN <<i>> \o Down(i + st, lower, st) ELSE <<>>
SliceIdx(sl, len) ==
  LET st == IF sl.c.z THEN 1 ELSE IntOf(sl.c)
      start == IF ~sl.a.z THEN IntOf(sl.a) ELSE IF st >= 0 THEN 0 ELSE len - 1
      end == IF ~sl.b.z THEN IntOf(sl.b) ELSE IF st >= 0 THEN len ELSE -len - 1
      ns == Norm(start, len) ne == Norm(end, len)
  IN IF st = 0 THEN <<>>
     ELSE IF st > 0
          THEN Up(Min2(Max2(ns, 0), len), Min2(Max2(ne, 0), len), st)
          ELSE Down(Min2(Max2(ns, -1), len - 1), Min2(Max2(ne, -1), len - 1), st)

KeyTok == <<TILDE>>

RECURSIVE Apply(_, _, _), ApplySegs(_, _, _, _), Desc(_, _), Holds(_, _, _, _), Value(_, _, _, _),
          EvalQ(_, _, _, _), ApplyAll(_, _, _, _), SegNode(_, _, _), Func(_, _, _, _)

\* children selected by one selector from one node
Apply(s, n, E) ==
  LET v == n.v IN
  CASE s.s = "name" -> IF IsObj(v) /\ HasKey(v, s.n)
                       THEN <<Node(Append(n.l, NameStep(s.n)), Member(v, s.n))>> ELSE <<>>
    [] s.s = "idx" ->
         IF IsArr(v)
         THEN LET i == Norm(IntOf(s), Len(v.a)) IN
              IF i >= 0 /\ i < Len(v.a) THEN <<Node(Append(n.l, IdxStep(i)), v.a[i + 1])>> ELSE <<>>
         ELSE IF IsObj(v)   \* documented departure: the member spelled like the index
         THEN LET nm == (IF s.neg THEN <<MINUS>> ELSE <<>>) \o s.dg IN
              IF HasKey(v, nm) THEN <<Node(Append(n.l, NameStep(nm)), Member(v, nm))>> ELSE <<>>
         ELSE <<>>
    [] s.s = "slice" -> IF IsArr(v)
                        THEN LET ix == SliceIdx(s, Len(v.a)) IN
                             [j \in 1..Len(ix) |-> Node(Append(n.l, IdxStep(ix[j])), v.a[ix[j] + 1])]
                        ELSE <<>>
    [] s.s = "wild" -> LET cs == Children(v) IN
                       [j \in 1..Len(cs) |-> Node(Append(n.l, cs[j][1]), cs[j][2])]
    [] s.s = "keys" -> IF IsObj(v)
                       THEN [j \in 1..Len(v.k) |-> Node(Append(n.l, [k |-> "k", n |-> v.k[j]]), Str(v.k[j]))]
                       ELSE <<>>
    [] s.s = "filt" ->
         LET cs == Children(v)
             RECURSIVE Go(_)
             Go(j) == IF j > Len(cs) THEN <<>>
                      ELSE IF Holds(s.x, cs[j][2], cs[j][1], E)
                           THEN <<Node(Append(n.l, cs[j][1]), cs[j][2])>> \o Go(j + 1)
                           ELSE Go(j + 1)
         IN Go(1)

\* a bracketed selection applied to one node
ApplyAll(ss, n, E, i) == IF i > Len(ss) THEN <<>> ELSE Apply(ss[i], n, E) \o ApplyAll(ss, n, E, i + 1)

\* a node and its descendants: parents before children, siblings in order
Desc(n, dummy) == LET cs == Children(n.v) IN
  <<n>> \o Flat([j \in 1..Len(cs) |-> Desc(Node(Append(n.l, cs[j][1]), cs[j][2]), dummy)])

SegNode(sg, n, E) ==
  IF sg.d THEN LET ds == Desc(n, 0) IN Flat([j \in 1..Len(ds) |-> ApplyAll(sg.ss, ds[j], E, 1)])
  ELSE ApplyAll(sg.ss, n, E, 1)

\* one segment applied to a nodelist: THE transition of the query machine
ApplySeg(sg, nl, E) == Flat([j \in 1..Len(nl) |-> SegNode(sg, nl[j], E)])

ApplySegs(g, i, nl, E) == IF i > Len(g) THEN nl ELSE ApplySegs(g, i + 1, ApplySeg(g[i], nl, E), E)

EvalQ(q, cur, key, E) ==
  LET start == CASE q.r = "root" -> E.root
                 [] q.r = "self" -> cur
                 [] q.r = "ctx" -> E.ctx
                 [] q.r = "fake" -> Arr(<<E.root>>)
  IN ApplySegs(q.g, 1, <<Node(<<>>, start)>>, E)

\* --- filter expressions --------------------------------------------------
\* the value of a comparand or ValueType argument: a JSON value or Nothing
Value(x, cur, key, E) ==
  CASE x.e = "lit" -> x.v
    [] x.e = "q" -> LET nl == EvalQ(x.q, cur, key, E) IN IF Len(nl) = 1 THEN nl[1].v ELSE Nothing
    [] x.e = "fn" -> Func(x, cur, key, E)
    [] x.e = "par" -> Value(x.x, cur, key, E)
    [] x.e = "key" -> IF key.k = "n" THEN Str(key.n) ELSE IF key.k = "i" THEN NumOfInt(key.i) ELSE Nothing
    [] x.e = "undef" -> Nothing
    [] x.e = "list" -> Arr([i \in 1..Len(x.a) |-> Value(x.a[i], cur, key, E)])
    [] x.e = "re" -> [t |-> "regex", pat |-> x.pat, fl |-> x.fl]

CmpEq(a, b) == IF a.t = "nothing" \/ b.t = "nothing" THEN a.t = b.t ELSE JEq(a, b)
CmpLt(a, b) == IF a.t = "num" /\ b.t = "num" THEN NumLt(a, b)
               ELSE IF a.t = "str" /\ b.t = "str" THEN TextLt(a.s, b.s) ELSE FALSE

\* membership (extension): arrays by element, objects by member name,
\* strings by substring
IsSubText(a, b) == \E p \in 1..(Len(b) + 1) : HasAt(b, p, a)
IsIn(a, b) == CASE b.t = "arr" -> \E i \in 1..Len(b.a) : CmpEq(a, b.a[i])
                [] b.t = "obj" -> a.t = "str" /\ HasKey(b, a.s)
                [] b.t = "str" -> a.t = "str" /\ IsSubText(a.s, b.s)
                [] OTHER -> FALSE

ReFlags(fl) == [i |-> 105 \in Range(fl), m |-> 109 \in Range(fl), s |-> 115 \in Range(fl)]

Compare(op, a, b) ==
  CASE op = "==" -> CmpEq(a, b)
    [] op = "!=" -> ~CmpEq(a, b)
    [] op = "<>" -> ~CmpEq(a, b)
    [] op = "<" -> CmpLt(a, b)
    [] op = ">" -> CmpLt(b, a)
    [] op = "<=" -> CmpLt(a, b) \/ CmpEq(a, b)
    [] op = ">=" -> CmpLt(b, a) \/ CmpEq(a, b)
    [] op = "in" -> IsIn(a, b)
    [] op = "contains" -> IsIn(b, a)
    [] op = "=~" -> IF a.t = "str" /\ b.t = "regex"
                    THEN LET r == ParseRegex(b.pat) IN r.ok /\ FullMatch(r.r, a.s, ReFlags(b.fl))
                    ELSE FALSE

TypeName(v) == CASE v.t = "null" -> K_null [] v.t = "str" -> K_string
                 [] v.t = "arr" -> K_array [] v.t = "obj" -> K_object
                 [] v.t = "bool" -> K_boolean [] v.t = "num" -> K_number
\* spellings accepted by isinstance() that do not depend on int/float
TypeAliases(v) ==
  CASE v.t = "null" -> {K_null, K_nil, K_None, K_none}
    [] v.t = "str" -> {K_str, K_string}
    [] v.t = "arr" -> {K_array, K_list, K_sequence, K_tuple}
    [] v.t = "obj" -> {K_object, K_dict, K_mapping}
    [] v.t = "bool" -> {K_bool, K_boolean}
    [] v.t = "num" -> {K_number}

Func(x, cur, key, E) ==
  LET f == SigOf(x.f).name
      V(i) == Value(x.a[i], cur, key, E)
      N(i) == EvalQ(x.a[i].q, cur, key, E)
  IN CASE f = "length" ->
            LET v == V(1) IN
            CASE v.t = "str" -> NumOfInt(Len(v.s)) [] v.t = "arr" -> NumOfInt(Len(v.a))
              [] v.t = "obj" -> NumOfInt(Len(v.k)) [] OTHER -> Nothing
       [] f = "count" -> NumOfInt(Len(N(1)))
       [] f = "value" -> LET nl == N(1) IN IF Len(nl) = 1 THEN nl[1].v ELSE Nothing
       [] f \in {"match", "search"} ->
            LET s == V(1) p == V(2) IN
            IF s.t # "str" \/ p.t # "str" THEN Bool(FALSE)
            ELSE LET r == ParseRegex(p.s) IN
                 Bool(r.ok /\ (IF f = "match" THEN FullMatch(r.r, s.s, NoFlags) ELSE Search(r.r, s.s, NoFlags)))
       [] f \in {"typeof"} ->
            LET nl == N(1) IN
            Str(IF nl = <<>> THEN K_undefined
                ELSE IF Len(nl) = 1 THEN TypeName(nl[1].v) ELSE K_array)
       [] f \in {"isinstance"} ->
            LET nl == N(1) t == V(2) IN
            Bool(t.t = "str" /\
                 (IF nl = <<>> THEN t.s \in {K_undefined, K_missing}
                  ELSE t.s \in TypeAliases(IF Len(nl) = 1 THEN nl[1].v ELSE Arr(<<>>))))

\* does the logical expression hold for candidate cur?
Holds(x, cur, key, E) ==
  CASE x.e = "or" -> Holds(x.l, cur, key, E) \/ Holds(x.r, cur, key, E)
    [] x.e = "and" -> Holds(x.l, cur, key, E) /\ Holds(x.r, cur, key, E)
    [] x.e = "not" -> ~Holds(x.x, cur, key, E)
    [] x.e = "par" -> Holds(x.x, cur, key, E)
    [] x.e = "q" -> EvalQ(x.q, cur, key, E) # <<>>
    [] x.e = "fn" -> Func(x, cur, key, E).b
    [] x.e = "cmp" -> Compare(x.op, Value(x.l, cur, key, E), Value(x.r, cur, key, E))

\* --- whole queries -------------------------------------------------------
NoKey == [k |-> "none"]
Find(q, doc, ctx) == EvalQ(q, Nothing, NoKey, [root |-> doc, ctx |-> ctx])

\* compound queries: [first |-> query, rest |-> Seq([op |-> "union"|"inter", q])]
RECURSIVE Fold_(_, _, _, _, _)
Fold_(rest, i, acc, doc, ctx) ==
  IF i > Len(rest) THEN acc
  ELSE LET rhs == Find(rest[i].q, doc, ctx) IN
       Fold_(rest, i + 1,
             IF rest[i].op = "union" THEN acc \o rhs
             ELSE SelectSeq(acc, LAMBDA n : \E j \in 1..Len(rhs) : JEq(n.v, rhs[j].v)),
             doc, ctx)
FindCompound(cq, doc, ctx) == Fold_(cq.rest, 1, Find(cq.first, doc, ctx), doc, ctx)
=============================================================================
