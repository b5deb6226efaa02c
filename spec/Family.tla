------------------------------- MODULE Family --------------------------------
(* How a call may end: with a value, or with an error of the family that is *)
(* documented for it, which renders as text.  A session over one text is a  *)
(* sequence of calls; what is refused when it is built is not used again.   *)
EXTENDS Naturals, Sequences, TLC

Families == [ compile |-> {"JSONPathError"}, evaluate |-> {"JSONPathError"},
              pointer |-> {"JSONPointerError"}, resolve |-> {"JSONPointerResolutionError"}, exists |-> {},
              relative |-> {"JSONPointerError", "RelativeJSONPointerError"}, to |-> {"JSONPointerError", "RelativeJSONPointerError"},
              \* calls that build and use at once
              find |-> {"JSONPathError"}, at |-> {"JSONPointerError"}, move |-> {"JSONPointerError", "RelativeJSONPointerError"}, patch |-> {"JSONPatchError"},
              build |-> {"JSONPatchError"}, apply |-> {"JSONPatchError"} ]
\* a call that builds what a later one needs
Builds == [ evaluate |-> "compile", resolve |-> "pointer", exists |-> "pointer", to |-> "relative", apply |-> "build" ]

\* call: [c: call, o: "value"|"error", f: the families of the error, r: it renders, e: its name]
Ended(h) ==
  IF h.o = "value" THEN "ok"
  ELSE IF h.e = "Hang" THEN h.c \o " does not terminate"
  ELSE IF ~\E i \in 1..Len(h.f) : h.f[i] \in Families[h.c] THEN h.c \o " ends with " \o h.e
  ELSE IF ~h.r THEN h.c \o ": the error cannot be rendered as text" ELSE "ok"
RECURSIVE Sess(_, _, _)
Sess(hs, i, built) ==
  IF i > Len(hs) THEN "ok"
  ELSE IF hs[i].c \in DOMAIN Builds /\ Builds[hs[i].c] \notin built THEN "machinery: use of what was refused"
  ELSE LET v == Ended(hs[i]) IN
       IF v # "ok" THEN v ELSE Sess(hs, i + 1, IF hs[i].o = "value" THEN built \cup {hs[i].c} ELSE built)
JFamily(e) == Sess(e.h, 1, {})
=============================================================================
