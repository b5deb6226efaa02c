#!/usr/bin/env python3
"""Regenerates Kw.tla: the texts the specification mentions, as code points.

(TLC caches literal constants; converting TLA+ strings at run time is slow.)
"""
WORDS = """true false null True False Null nil Nil none None undefined missing and or not in contains
length count value match search typeof type isinstance is string array object boolean number str list sequence tuple
dict mapping bool int float""".split()
SYMS = {"dd": "..", "eq": "==", "ne": "!=", "le": "<=", "ge": ">=", "lg": "<>", "re": "=~", "aa": "&&", "oo": "||",
        "maxint": "9007199254740991"}
with open("Kw.tla", "w") as f:
    f.write("-------------------------------- MODULE Kw ---------------------------------\n")
    f.write("(* Generated by gen_kw.py: fixed texts as sequences of code points.         *)\n")
    for n, w in [(w, w) for w in WORDS] + list(SYMS.items()):
        f.write(f"K_{n} == <<{', '.join(str(ord(c)) for c in w)}>>  \\* {w}\n")
    f.write("=" * 77 + "\n")
