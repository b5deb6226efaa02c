----------------------------- MODULE MC_PatchLife -----------------------------
(* The life of patch objects: a patch is a list of operations that grows by *)
(* builder calls, is printed, applied to documents and copied (by way of    *)
(* its list of dicts, or of the document text), in any interleaving.  Every *)
(* step is recorded with what it gives; the histories are replayed on real  *)
(* patches.                                                                 *)
EXTENDS Patch, Json, IOUtils
CONSTANTS MaxActs
Docs == ndJsonDeserialize(IOEnv.DOCS)
VARIABLES p, h         \* the patches (one or two): sequences of indices into Pool; what happened

Op(o, path, from, v) == [op |-> o, path |-> Tokens(path), from |-> Tokens(from), value |-> v]
One == NumOfInt(1)
L1 == Arr(<<One>>)
PA == <<47, 97>>  PB == <<47, 98>>  PA0 == <<47, 97, 47, 48>>  PAEnd == <<47, 97, 47, 45>>  PA9 == <<47, 97, 47, 57>>  PZ == <<47, 122>>
Pool == << Op("add", PA, <<>>, L1), Op("copy", PB, PA, Null), Op("addne", PA, <<>>, Obj(<<<<120>>>>, <<L1>>)), Op("addap", PA9, <<>>, L1),
           Op("replace", PA, <<>>, L1), Op("add", PAEnd, <<>>, L1), Op("move", PZ, PA, Null), Op("test", PA, <<>>, L1), Op("remove", PA0, <<>>, Null) >>
OpsOf(s) == [i \in 1..Len(s) |-> Pool[s[i]]]
Say(k, e) == h' = Append(h, [a |-> k] @@ e)
\* what an application to document d gives
Gives(s, d) == LET r == RunPatch(OpsOf(s), Docs[d]) IN [ok |-> r.ok, r |-> IF r.ok THEN r.v ELSE Null, why |-> IF r.ok THEN "" ELSE r.why]
Build(i, o) == Len(p[i]) < 3 /\ p' = [p EXCEPT ![i] = Append(@, o)] /\ Say("build", [i |-> i, o |-> o])
Show(i) == p' = p /\ Say("print", [i |-> i, s |-> p[i]])
Apply(i, d) == p' = p /\ Say("apply", [i |-> i, d |-> d, g |-> Gives(p[i], d)])
Copy_(i) == Len(p) = 1 /\ p' = Append(p, p[i]) /\ Say("copy", [i |-> i])
Init == /\ \E a, b \in 1..Len(Pool) : p = << <<a, b>> >>
        /\ h = <<>>
Next == /\ Len(h) < MaxActs
        /\ \E i \in 1..Len(p) : \/ \E o \in {1, 2, 6} : Build(i, o)
                                \/ Show(i)
                                \/ \E d \in 1..Len(Docs) : Apply(i, d)
                                \/ Copy_(i)
\* only a builder call changes a patch, and only the patch it is called on
OnlyBuild == [][\A i \in 1..Len(p) : p'[i] = p[i] \/ (h'[Len(h')].a = "build" /\ h'[Len(h')].i = i)]_<<p, h>>
\* a pure function of the operations and the document
Repeats == \A i, j \in 1..Len(h) : i < j /\ h[i].a = "apply" /\ h[j].a = "apply" /\ h[i].i = h[j].i /\ h[i].d = h[j].d /\
             (\A k \in i..j : h[k].a # "build" \/ h[k].i # h[i].i) => h[i].g = h[j].g

Head_ == SubSeq(p[1], 1, 2)
Out == Len(h) < MaxActs \/ PrintT("@@" \o ToJson([first |-> Head_, h |-> h, p |-> p]))
OpsOut == [i \in 1..Len(Pool) |-> [o |-> Pool[i].op, p |-> PText(Pool[i].path), f |-> PText(Pool[i].from), v |-> Pool[i].value]]
ASSUME PrintT("@@" \o ToJson([pool |-> OpsOut]))
=============================================================================
