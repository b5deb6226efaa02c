------------------------------- MODULE MC_Soup -------------------------------
(* Texts made of tokens: one token is appended at each step, in a context   *)
(* (the beginning of a query, of a selection, of a filter, ...), which is    *)
(* then closed.  Tokens and contexts are those the harness numbers.         *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxToks, NToks, NCtxs
VARIABLES ctx, toks
Init == ctx \in 1..NCtxs /\ toks = <<>>
Next == /\ Len(toks) < MaxToks
        /\ \E i \in 1..NToks : toks' = Append(toks, i)
        /\ UNCHANGED ctx
Out == toks = <<>> \/ PrintT("@@" \o ToJson(<<ctx>> \o toks))
=============================================================================
