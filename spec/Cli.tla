-------------------------------- MODULE Cli ---------------------------------
(* The command line tool as a front end: a run reads its expression,        *)
(* compiles it, reads the document, evaluates and writes; it stops at the   *)
(* first stage that the library refuses, with one line on standard error    *)
(* and exit status 1.                                                       *)
(* A number in a result is [t |-> "lit", x |-> its JSON text].              *)
EXTENDS JValue

\* --- JSON text, as Python's json module writes it -------------------------
HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
U4(c) == <<BSL, 117, HexD(c \div 4096), HexD((c \div 256) % 16), HexD((c \div 16) % 16), HexD(c % 16)>>
SerChar(c) == CASE c = QUOT -> <<BSL, QUOT>> [] c = BSL -> <<BSL, BSL>> [] c = 10 -> <<BSL, 110>> [] c = 13 -> <<BSL, 114>>
                [] c = 9 -> <<BSL, 116>> [] c = 8 -> <<BSL, 98>> [] c = 12 -> <<BSL, 102>>
                [] c >= 32 /\ c <= 126 -> <<c>>
                [] c > 65535 -> U4(55296 + ((c - 65536) \div 1024)) \o U4(56320 + ((c - 65536) % 1024))
                [] OTHER -> U4(c)
SerStr(s) == <<QUOT>> \o Flat([i \in 1..Len(s) |-> SerChar(s[i])]) \o <<QUOT>>
\* dp: depth, or -1 for text on one line
NL(dp) == IF dp < 0 THEN <<>> ELSE <<10>> \o [i \in 1..2 * dp |-> 32]
Deeper(dp) == IF dp < 0 THEN -1 ELSE dp + 1
Sep(dp) == IF dp < 0 THEN <<COMMA, 32>> ELSE <<COMMA>> \o NL(dp)
RECURSIVE Ser(_, _)
Ser(v, dp) ==
  LET in == Deeper(dp)
      Many(a, xs, z) == IF xs = <<>> THEN a \o z ELSE a \o NL(in) \o JoinWith(xs, Sep(in)) \o NL(dp) \o z
  IN CASE v.t = "null" -> K_null
       [] v.t = "bool" -> IF v.b THEN K_true ELSE K_false
       [] v.t = "lit" -> v.x
       [] v.t = "str" -> SerStr(v.s)
       [] v.t = "arr" -> Many(<<LBRK>>, [i \in 1..Len(v.a) |-> Ser(v.a[i], in)], <<RBRK>>)
       [] v.t = "obj" -> Many(<<123>>, [i \in 1..Len(v.k) |-> SerStr(v.k[i]) \o <<COLON, 32>> \o Ser(v.v[i], in)], <<125>>)

\* --- the configurations ---------------------------------------------------
Subs == {"path", "pointer", "patch"}
Cfgs == [sub : Subs, src : {"inline", "file"}, doc : {"stdin", "file"}, out : {"stdout", "file"}, pretty : BOOLEAN,
         noesc : BOOLEAN, uri : BOOLEAN, notype : BOOLEAN, debug : BOOLEAN]
Valid(c) == /\ c.uri => c.sub # "path"
            /\ c.notype => c.sub = "path"
            /\ c.sub = "patch" => c.src = "file"

\* --- the verdict on a recorded run ----------------------------------------
\* [cfg.., lib: "ok"|"rejected"|"other", val, rc, exc: an exception escaped, out, err: text written, file: text of the output file]
OneLine(t) == /\ \E i \in 1..Len(t) : t[i] \notin {9, 10, 13, 32}
              /\ \A i \in 1..Len(t) - 1 : t[i] # 10 /\ t[i] # 13
JCli(e) ==
  IF e.lib = "other" THEN "skip:no claim on this library result"
  ELSE IF e.lib = "ok" THEN
    IF e.exc THEN "an exception escapes: " \o e.ename
    ELSE IF e.rc # 0 THEN "exit status is not 0 though the library call succeeds"
    ELSE IF (IF e.cfg.out = "file" THEN e.file ELSE e.out) # Ser(e.val, IF e.cfg.pretty THEN 0 ELSE -1) THEN "output is not the JSON text of the library's result"
    ELSE IF e.cfg.out = "file" /\ e.out # <<>> THEN "result written to a file, yet something to standard output" ELSE "ok"
  ELSE IF e.cfg.debug THEN IF e.exc \/ e.rc = 1 THEN "ok" ELSE "exit status is not 1 though the library rejects the input"
  ELSE IF e.exc THEN "an exception escapes: " \o e.ename
  ELSE IF e.rc # 1 THEN "exit status is not 1 though the library rejects the input"
  ELSE IF ~OneLine(e.err) THEN "no one-line message on standard error"
  ELSE IF e.out # <<>> THEN "output though the library rejects the input" ELSE "ok"
=============================================================================
