#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
NOTE = {
    "C01": ("TLA+ query machine (one action per segment) explored exhaustively by TLC and replayed; TLC judges recorded findall calls on random documents and spellings",
            "exhaustive for all queries of up to 2 (thorough 3) segments over a pool of selectors and documents; beyond that, sampled traces"),
    "C02": ("TLA+ semantics of filters: TLC-enumerated comparison table, logical shapes, nested filters, regular expressions replayed; random filter queries judged by TLC",
            "exhaustive over operand forms x value pool x operators, and over logical shapes; beyond that sampled"),
    "C03": ("TLA+ nodelists with locations and normalized paths: TLC-enumerated queries replayed, random queries recorded with every fact a match states about itself and judged by TLC",
            "exhaustive for queries of up to 2 segments over pools; beyond that sampled; identity of nodes checked on the real objects"),
    "C04": ("TLA+ pointer walker and pointer-text machine explored by TLC and replayed; random pointers in every way of resolving them judged by TLC",
            "exhaustive for all token sequences over document names and probes to length 2 (3), all texts over a 7-letter alphabet to length 5 (6)"),
    "C05": ("TLA+ patch machine (document = state, one action per operation) explored by TLC, every transition replayed; random patches judged by TLC",
            "exhaustive over an operation pool on a document pool, one and two operations deep; longer patches sampled"),
    "C12": ("TLA+ machine of iterator pools: every chain of operations to a bound walked through the code; random sessions judged by TLC",
            "exhaustive for chains of up to 3 (4) operations over sequences of up to 4 (8) matches"),
    "C13": ("TLA+ meaning of the non-standard selectors, identifiers, operators and words: nodelist machine, operator tables, regular expressions explored by TLC and replayed in several spellings; documented equivalents and random extended queries judged by TLC",
            "exhaustive within a pool of constructs and documents; beyond that, sampled traces"),
    "C14": ("TLA+ pointer text and navigation machines: every text and walk to a bound replayed; random constructions judged by TLC",
            "exhaustive for texts over a 7-letter alphabet to length 5 (6) and walks of 3 (4) moves; beyond that sampled"),
    "C15": ("TLA+ patch machine replayed through every form of a patch, repeatedly; recorded forms and applications judged by TLC",
            "every transition over the operation pool through eight forms; random patches applied three times per form"),
    "C16": ("TLA+ relative pointer machine with decimal arithmetic of any length: every application over pools, singly and in pairs, replayed; random ones judged by TLC",
            "exhaustive over step counts x offsets x suffixes x bases; beyond that sampled"),
    "C18": ("TLA+ stage machine of a run over all configurations and input classes explored by TLC and replayed with representatives, in process and as subprocesses; TLC judges every run (exit status, streams, JSON text) against the library's own result",
            "every valid option combination x input class; random expressions and documents beyond that"),
    "C19": ("TLA+ projection machine (selection grows query by query; Built is checked against the rank reading of the property) explored by TLC and replayed; random projections judged by TLC",
            "exhaustive for up to 2 (thorough 3) relative queries of a pool at every node of a document pool; beyond that, sampled traces"),
    "C20": ("TLA+ composition of the query and patch machines: for recorded matches TLC computes the edited documents",
            "exhaustive for one-segment queries over pools; beyond that sampled"),
    "C06": ("TLA+ table of error families and session rules; token machines explored by TLC give every short text, all sessions on them and on disturbed well-formed texts, patches and deep or long inputs are judged by TLC",
            "every sequence of up to 2 tokens (3 over a smaller pool) in every context; beyond that, sampled; nesting up to a hundred levels"),
    "C07": ("TLA+ grammar and typing pass: TLC enumerates operand kinds x positions and classifies; recorded compilations of random and damaged texts judged by TLC",
            "exhaustive for operand kinds in nested positions to depth 2 (3); texts sampled beyond"),
    "C08": ("TLA+ entry-point state (results folded from operand results) and machine of compound queries: TLC-enumerated and random queries driven through the four entry points, sync and async, recorded and judged by TLC",
            "exhaustive for compound shapes to a bound; queries, documents and async item getters sampled"),
    "C11": ("TLA+ machine of compound queries explored by TLC and replayed through every entry point and document form; recorded entry points judged by TLC against the fold of operand results",
            "exhaustive for compounds of up to 3 (4) operands over result pools; queries, documents and forms sampled beyond"),
    "C09": ("TLA+ machine of evaluation histories (open/advance/run/drop/recompile) and of thread and task preemptions: every history and schedule to a bound forced on the real code; recorded random histories judged by TLC",
            "exhaustive for 5 (6) steps over 2 jobs and 2-3 preemptions over a pool of cache-prone queries; beyond that sampled"),
    "C10": ("TLA+ grammar reads both texts: syntax trees of a query and of its printed text compared by TLC, with evaluation where they differ; strings, logical shapes, segments and compounds enumerated by TLC",
            "exhaustive for strings over a 14-letter alphabet to length 2 (3) in seven positions and for enumerated shapes; random and disturbed texts beyond"),
    "C17": ("TLA+ grammar parametric in the token table; a machine renaming one identifier at a time prints a suite of queries under every assignment, replayed; random assignments and queries judged by TLC",
            "exhaustive for assignments two renamings or swaps away from the default over a pool of spellings; beyond that sampled"),
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if p in NOTE and os.path.exists(os.path.join(HERE, "checks", p.lower() + ".py")):
        t, n = NOTE[p]
        checks.append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks}
m["not_applicable"] = na
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
