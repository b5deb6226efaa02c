"""C02: filter expressions."""
from checks.common import *  # noqa: F403

POOL = [None, True, False, 0, 1, -1, 1.0, 1.5, 10, 2, "", "a", "b", "1", "aa", "é", "\uffff", "\U00010000", "null",
        [], [1], [True], [1.0], [[]], [None], {}, {"a": 1}, {"a": True}, {"b": 2, "a": 1}, {"a": 1, "b": 2.0},
        {"a": [False]}, {"a": [0]}, 0.1, 1e300, 1e-3]
POOL_Q = [None, True, False, 0, 1, 1.0, 1.5, 10, -1, "", "a", "b", "1", "\uffff", "\U00010000", [], [1], [True],
          {}, {"a": 1}, {"a": True}, {"b": 2, "a": 1}, {"a": 1, "b": 2.0}, {"a": [False]}, {"a": [0]}]
# numbers that binary64 does not keep apart, or that are written in more than one way (floats here are exact, and integers beyond
# 2^64 would be spelled with an exponent, which makes them binary64 numbers)
NUMS = [0, -0.0, 2**53, 2**53 + 1, 2**53 + 2, 2.0**53, -(2**53), -(2**53) - 1, 0.5, -0.5, 2**63, 2**64]
STRS = ["", "a", "A", "aa", "Z", "\u00e9", "e\u0301", "\u0130", "i", "\ud7ff", "\uffff", "\U00010000", "\U0010ffff", "a\0", "1", "01", "1.0", "true"]
OPS = '{"==", "!=", "<", "<=", ">", ">="}'
FALSY = [None, False, 0, "", [], {}]


def logic_docs():
    import itertools
    vs = {"a": [None, 1], "b": [0, 2], "c": ["x", ""]}
    arr = []
    for pa, pb, pc in itertools.product([0, 1, 2], repeat=3):
        o = {}
        for k, p in zip("abc", (pa, pb, pc)):
            if p:
                o[k] = vs[k][p - 1]
        arr.append(o)
    obj = {f"m{i}": {"a": v} for i, v in enumerate(FALSY)}
    obj["n"] = {"b": False, "c": "axb", "a": True}
    obj["o"] = 3
    obj["p"] = [1]
    return [arr, obj]


NEST = [
    {"k": 1, "a": [1, 2, {"a": 1}, [1, 2], {"a": [1, {"a": 1}], "k": 2}], "b": {"a": {"a": 1, "b": [1]}, "k": [2]}, "c": 1},
    [1, {"a": 1, "k": 1}, [1, [1], {"a": {"a": 1}}], {"b": [{"a": None}, 2]}],
    {"a": {"a": {"a": {"a": 5}}}, "k": 5, "z": [[[5]], 6]},
]

FUNC = [
    [{"a": 1}, {"a": None}, {"a": "x", "b": 2}, [1], [2, {"a": 1}, 2], [], {}, {"a": [1, 2], "b": {"a": "ab"}}, "ab", None],
    {"a": 1, "b": {"a": 1}, "c": {"a": False, "b": [None]}, "d": [0], "e": {"b": {"a": []}}, "a0": ["xy"]},
]


def subjects():
    import itertools
    out = [""]
    for n in (1, 2, 3):
        out += ["".join(t) for t in itertools.product("ab", repeat=n)]
    return out + ["aaab", "abab", "c", "\n", "a\n", "\nb", "é", ".", "\\", "a.b", "-", "b-"]


# what neither dialect takes for a pattern, and what is no text
NO_PATTERNS = ["(", ")", "[", "a)", "(a", "[a", "*", "+a", "a{2,1}", "[b-a]", "a**", "(|", "a|*", "(a))", None, 1, True, ["a"], {"a": 1}]


def pattern_finds(c, jp, n):
    """Patterns that come with the document, good ones among others, in every order."""
    rec = Recorder(c)
    for i in range(n):
        r = c.rng(f"patterns{i}")
        pats = [gen.gen_regex(r) or "a" for _ in range(r.pick([1, 2]))] + [r.pick(NO_PATTERNS) for _ in range(r.pick([1, 2]))]
        texts = [r.pick(["a", "ab", "", "b", "aa", "1", "abc"]) for _ in range(2)] + [r.pick([p for p in pats if isinstance(p, str)])]
        if r.p(0.2):
            texts.append(r.pick([None, 1, ["a"], {"a": "a"}]))
        rows = [{"a": r.pick(texts), "p": r.pick(pats)} for _ in range(r.pick([3, 5, 8]))]
        if r.p(0.3):
            rows.insert(r.randrange(len(rows)), r.pick([{"a": "a"}, {"p": "a"}, {}, "a"]))
        doc = rows if r.p(0.7) else {"x": rows, "p": r.pick(pats)}
        di = rec.doc(doc)
        for t in ("$[?match(@.a, @.p)]", "$[?search(@.a, @.p)]", "$..[?match(@.a, @.p)]", "$..[?!search(@.a, @.p) || match(@.p, @.a)]", "$[?match(@.a, @.p) && search(@.a, @.p)]",
                  "$..[?search(@.a, $.p)]", "$..[?match(@.a, $[0].p) && !match(@.a, $[1].p)]", "$..[?match($[0].a, @.p)]", "$[?count($[?match(@.a, @.p)]) == 2]"):
            path = jp.compile(t) if r.p(0.5) else None
            for _ in range(2):
                o, v = core.call(path.findall if path else lambda d: jp.findall(t, d), doc)
                rec.add(find_event(t, di, di, o, v), query=t, doc=doc, got=repr(v))
    rec.judge(key="patterns from documents")


def run(c):
    jp = core.load_repo()
    pool = POOL if c.thorough else POOL_Q
    for forms, part in (('{"self", "root", "lit", "value"}', pool), ('{"self", "valued", "length", "count"}', pool[:len(pool)])):
        r = c.explore("MC_Compare", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Laws\nCONSTANTS Ops={OPS} Forms={forms}\n",
                      key="compare" + forms, env=docs_env(c, part))
        if len(r.prints) < 1000:
            raise tlc.MachineryError("comparison table came out short")
        c.sample({"spec case": E.uncodes(r.prints[0]["t"]), "selected": r.prints[0]["s"]})

        def one(p, bad):
            cand = {}
            if p["l"]:
                cand["l"] = part[p["l"] - 1]
            if p["r"]:
                cand["r"] = part[p["r"] - 1]
            doc = [cand]
            return expect(bad, "comparison has the wrong truth value", jp.findall, E.uncodes(p["t"]), doc, doc if p["s"] else [])
        c.replay(r.prints, one, "comparisons")
    for label, part in (("numbers", NUMS), ("strings", STRS)):
        r = c.explore("MC_Compare", f'INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Laws\nCONSTANTS Ops={OPS} Forms={{"self", "lit"}}\n',
                      key="compare " + label, env=docs_env(c, part))
        c.replay(r.prints, one, "comparisons of " + label)
    docs = logic_docs()
    r = c.explore("MC_Logic", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Roundtrip\nINVARIANT DeMorgan\nCONSTANTS Deep="
                  + ("TRUE" if c.thorough else "FALSE") + "\n", key="logic", env=docs_env(c, docs))

    def one(p, bad):
        for t in p["t"]:
            for d, l in zip(docs, p["l"]):
                expect(bad, "logical expression selects the wrong children", jp.findall, E.uncodes(t), d,
                       [menus.follow(d, [st]) for st in l])
        return len(p["t"]) * len(docs)
    c.replay(r.prints, one, "logic")
    r = c.explore("MC_Nest", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Roundtrip\nCONSTANTS Depth={3 if c.thorough else 2}\n",
                  key="nested", env=docs_env(c, NEST))

    def one(p, bad):
        for d, l in zip(NEST, p["l"]):
            expect(bad, "nested filter selects the wrong nodes", jp.findall, E.uncodes(p["t"]), d, [menus.follow(d, x) for x in l])
        return len(NEST)
    c.replay(r.prints, one, "nested")
    r = c.explore("MC_Func", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Adds\nCONSTANTS MaxSel={3 if c.thorough else 2}\n",
                  key="functions of nodelists", env=docs_env(c, FUNC))

    def one(p, bad):
        for q in p["q"]:
            for d, l in zip(FUNC, q["l"]):
                expect(bad, "function of a nodelist gives the wrong result", jp.findall, E.uncodes(q["t"]), d, [menus.follow(d, x) for x in l])
        return len(p["q"]) * len(FUNC)
    c.replay(r.prints, one, "functions of nodelists")
    from checks import c13  # (it imports this module)
    c13.replay_placed(c, jp.findall, c13.placed(c, "OutRfc").prints)
    subj = subjects()
    r = c.explore("MC_Regex", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Reparses\nCONSTANTS Anchors=FALSE Rich="
                  + ("TRUE" if c.thorough else "FALSE") + "\n", key="regex", env=docs_env(c, subj))
    spell = gen.Spell(c.rng("rx"))

    def one(p, bad):
        pat = spell.string(E.uncodes(p["p"]))
        for f, k in (("match", "m"), ("search", "s")):
            expect(bad, "regular expression selects the wrong strings", jp.findall, f"$[?{f}(@, {pat})]", subj, [subj[i] for i in p[k]])
        return 2
    c.replay(r.prints, one, "regex")
    pattern_finds(c, jp, c.n(150, 2500))
    random_finds(c, "small", c.n(700, 5000), 20)
    random_finds(c, "deep", c.n(150, 1500), 20, depth=4)
