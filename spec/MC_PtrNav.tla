----------------------------- MODULE MC_PtrNav ------------------------------
(* The navigation machine: a pointer moves by joining texts and by going to *)
(* its parent.  Every path through the machine of up to MaxOps moves is     *)
(* printed and walked through the implementation.                           *)
EXTENDS RelPointer, Json, IOUtils
CONSTANT MaxOps
VARIABLES base, ops, toks
Bases == { <<>>, <<47>>, <<47, 97>>, <<47, 97, 47, 48>>, <<47, 126, 48, 47, 126, 49>>, <<47, 233, 47, 128512>>, <<47, 48, 49, 47, 45>> }
Parts == << <<97>>, <<48>>, <<>>, <<126, 49>>, <<126, 48, 49>>, <<97, 47, 98>>, <<47>>, <<47, 120>>, <<49, 50>>, <<45>>, <<98, 47>>,
            <<35, 97>>, <<39, 34>> >>
Init == /\ base \in Bases /\ ops = <<>> /\ toks = Tokens(base)
Moves == {[m |-> "join", t |-> Parts[i]] : i \in 1..Len(Parts)} \cup {[m |-> "parent", t |-> <<>>]}
After(p, mv) == IF mv.m = "join" THEN JoinToks(p, mv.t) ELSE ParentToks(p)
Next == /\ Len(ops) < MaxOps
        /\ \E mv \in Moves :
             /\ ops' = Append(ops, mv) /\ toks' = After(toks, mv) /\ UNCHANGED base
             /\ PrintT("@@" \o ToJson([b |-> base, m |-> ops', t |-> PText(toks'), p |-> toks', u |-> PText(ParentToks(toks'))]))
\* the algebra
JoinThenParent == \A i \in 1..Len(Parts) :
  LET t == Parts[i] q == JoinToks(toks, t) IN
  (~\E j \in 1..Len(t) : t[j] = SLASH) =>
    /\ ParentToks(q) = toks /\ IsRelTo(q, toks) /\ q[Len(q)] = Unesc(t)
RootIsItsParent == ParentToks(<<>>) = <<>>
PrintParse == Tokens(PText(toks)) = toks
=============================================================================
