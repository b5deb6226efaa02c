------------------------------- MODULE MC_Cli --------------------------------
(* Runs of the command line tool, stage by stage, for every configuration   *)
(* and every class of input.                                                *)
EXTENDS Cli, Json
VARIABLES cfg, class, stage, exit
Stages == <<"read expression", "compile", "read document", "evaluate", "write">>
Classes == [path |-> {"good", "nothing", "syntax", "type", "index", "name", "escape", "text", "document", "nested type"},
            pointer |-> {"good", "whole", "syntax", "missing", "index", "scalar", "escape", "encoded", "text", "document"},
            patch |-> {"good", "empty", "operation", "member", "syntax", "missing", "test", "encoded", "escape", "text", "not a list", "document"}]
\* the stage that refuses an input, or none
Refuses(c, k) ==
  CASE k \in {"good", "nothing", "whole", "empty"} -> "none"
    [] k = "text" -> "read expression"
    [] k = "document" -> "read document"
    [] k \in {"type", "nested type"} -> IF c.notype THEN "none" ELSE "compile"
    \* written with an escape sequence, which names nothing unless it is decoded
    [] k = "escape" -> IF c.sub = "path" THEN "none" ELSE IF c.noesc THEN "evaluate" ELSE "none"
    [] k = "encoded" -> IF c.uri THEN "none" ELSE "evaluate"
    [] k \in {"missing", "test", "scalar"} -> "evaluate"
    [] k = "index" -> IF c.sub = "path" THEN "compile" ELSE "evaluate"
    [] OTHER -> "compile"
Init == cfg \in {c \in Cfgs : Valid(c)} /\ class \in Classes[cfg.sub] /\ (class = "text" => cfg.src = "file") /\ stage = 1 /\ exit = -1
Next == /\ exit < 0
        /\ IF Stages[stage] = Refuses(cfg, class) THEN exit' = 1 /\ stage' = stage
           ELSE IF stage = Len(Stages) THEN exit' = 0 /\ stage' = stage ELSE exit' = exit /\ stage' = stage + 1
        /\ exit' >= 0 => PrintT("@@" \o ToJson([cfg |-> cfg, class |-> class, exit |-> exit']))
        /\ UNCHANGED <<cfg, class>>
ExitIffRefused == exit >= 0 => (exit = 1) = (Refuses(cfg, class) # "none")
OnlyWritesAtTheEnd == exit = 0 => stage = Len(Stages)
=============================================================================
