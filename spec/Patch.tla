------------------------------- MODULE Patch --------------------------------
(* JSON Patch (RFC 6902): the document is the state, each operation a        *)
(* transition.  op [op, path: tokens, from: tokens, value]; the result of a *)
(* step is [ok |-> TRUE, v] or [ok |-> FALSE, why].                         *)
(* "addne" and "addap" are the documented extensions; a why of "noclaim"    *)
(* marks what RFC 6902 leaves open (removing the root).                     *)
EXTENDS Pointer

POk(v) == [ok |-> TRUE, v |-> v]
PFail(why) == [ok |-> FALSE, why |-> why]

SetMember(o, n, val) == IF HasKey(o, n) THEN [o EXCEPT !.v[KeyAt(o, n)] = val]
                        ELSE Obj(Append(o.k, n), Append(o.v, val))
DelMember(o, n) == LET j == KeyAt(o, n) keep(s) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s)) IN
                   Obj(keep(o.k), keep(o.v))
InsertAt(a, i, val) == Arr(SubSeq(a.a, 1, i) \o <<val>> \o SubSeq(a.a, i + 1, Len(a.a)))
DeleteAt(a, i) == Arr(SubSeq(a.a, 1, i) \o SubSeq(a.a, i + 2, Len(a.a)))

\* the array index a token means: length for "-", -1 if none
ArrIdx(a, tok) == IF tok = <<MINUS>> THEN Len(a.a) ELSE IF CanonIdx(tok) THEN DigVal(tok) ELSE -1

\* edit the child of v named by tok
Leaf(v, tok, m, val) ==
  IF IsObj(v) THEN
    CASE m = "add" \/ m = "addap" -> POk(SetMember(v, tok, val))
      [] m = "addne" -> POk(IF HasKey(v, tok) THEN v ELSE SetMember(v, tok, val))
      [] m = "replace" -> IF HasKey(v, tok) THEN POk(SetMember(v, tok, val)) ELSE PFail("missing target")
      [] m = "remove" -> IF HasKey(v, tok) THEN POk(DelMember(v, tok)) ELSE PFail("missing target")
  ELSE IF IsArr(v) THEN
    LET i == ArrIdx(v, tok) n == Len(v.a) IN
    IF i < 0 THEN PFail("not an index")
    ELSE CASE m \in {"add", "addne"} -> IF i <= n THEN POk(InsertAt(v, i, val)) ELSE PFail("index greater than length")
           [] m = "addap" -> POk(InsertAt(v, IF i < n THEN i ELSE n, val))
           [] m = "replace" -> IF i < n THEN POk(Arr([v.a EXCEPT ![i + 1] = val])) ELSE PFail("missing target")
           [] m = "remove" -> IF i < n THEN POk(DeleteAt(v, i)) ELSE PFail("missing target")
  ELSE PFail("not a container")

RECURSIVE Edit(_, _, _, _)
Edit(v, toks, m, val) ==
  IF toks = <<>> THEN IF m = "remove" THEN PFail("noclaim") ELSE POk(val)
  ELSE IF Len(toks) = 1 THEN Leaf(v, toks[1], m, val)
  ELSE LET c == PStep(v, toks[1]) IN
       IF c.t = "nothing" THEN PFail("missing parent")
       ELSE LET r == Edit(c, Tail(toks), m, val) IN
            IF ~r.ok THEN r
            ELSE IF IsObj(v) THEN POk(SetMember(v, toks[1], r.v))
            ELSE POk(Arr([v.a EXCEPT ![DigVal(toks[1]) + 1] = r.v]))

ApplyOp(op, doc) ==
  CASE op.op \in {"add", "addne", "addap", "replace", "remove"} -> Edit(doc, op.path, op.op, op.value)
    [] op.op = "test" -> LET t == PEval(doc, op.path) IN
                         IF t.t = "nothing" THEN PFail("test of a missing target")
                         ELSE IF JEq(t, op.value) THEN POk(doc) ELSE PFail("failed test")
    [] op.op = "copy" -> LET s == PEval(doc, op.from) IN
                         IF s.t = "nothing" THEN PFail("missing source") ELSE Edit(doc, op.path, "add", s)
    [] op.op = "move" -> LET s == PEval(doc, op.from) IN
                         IF IsRelTo(op.path, op.from) THEN PFail("move into own child")
                         ELSE IF s.t = "nothing" THEN PFail("missing source")
                         ELSE IF op.from = <<>> THEN POk(doc)      \* onto itself
                         ELSE Edit(Edit(doc, op.from, "remove", Null).v, op.path, "add", s)

\* the whole patch; .n is how many operations were applied
RECURSIVE Run_(_, _, _)
Run_(ops, i, doc) == IF i > Len(ops) THEN [ok |-> TRUE, v |-> doc, n |-> i - 1]
                     ELSE LET r == ApplyOp(ops[i], doc) IN
                          IF r.ok THEN Run_(ops, i + 1, r.v) ELSE [ok |-> FALSE, why |-> r.why, n |-> i - 1]
RunPatch(ops, doc) == Run_(ops, 1, doc)
=============================================================================
