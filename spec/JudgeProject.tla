---------------------------- MODULE JudgeProject -----------------------------
(* Verdicts on recorded projections.                                        *)
EXTENDS JudgeQuery, Projection

RECURSIVE SelectAll(_, _, _)
SelectAll(v, rels, i) == IF i > Len(rels) THEN <<>> ELSE FindCompound(rels[i].v, v, Null) \o SelectAll(v, rels, i + 1)
\* claims are made for selections below the match, in ascending order, with locations in the document
Claimed(S, style) == Below(S) /\ Plain(S) /\ (style = "flat" \/ (Ascending(S) /\ ~Muddled(S)))

\* [t: query, rel: relative queries, s: style, o, out: projections, after: the document afterwards]
JProj(e, doc) ==
  LET p == ParseTyped(e.t, StdToks) rels == [i \in 1..Len(e.rel) |-> ParseTyped(e.rel[i], StdToks)] IN
  IF e.after # doc THEN "the document is modified"
  ELSE IF ~p.ok \/ \E i \in 1..Len(rels) : ~rels[i].ok THEN "skip:not in the language"
  ELSE LET nl == FindCompound(p.v, doc, Null)
           Ss == [i \in 1..Len(nl) |-> IF Container(nl[i].v) THEN SelectAll(nl[i].v, rels, 1) ELSE <<>>] IN
       IF ~Plain(nl) \/ \E i \in 1..Len(nl) : ~Claimed(Ss[i], e.s) THEN "skip:outside the claim"
       ELSE IF e.o # "ok" THEN "projection failed with " \o e.err
       ELSE LET want == Flat([i \in 1..Len(nl) |-> Project(nl[i], Ss[i], e.s)]) IN
            IF Len(want) # Len(e.out) THEN "wrong number of projections"
            ELSE IF \E i \in 1..Len(want) : ~JEq(want[i], e.out[i]) THEN "projection differs" ELSE "ok"
=============================================================================
