"""C13: the documented non-standard syntax."""
from checks import c02
from checks.common import *  # noqa: F403

DOCS = [
    {"a": {"a": 1, "b": "A", "c": [1]}, "b": 1, "c": ["a", 1, True, {"a": {"b": 2}}], "A": "abc", "~": "~"},
    [{"a": 1, "b": 1}, {"b": {"b": 1}}, "a", 1, ["a", "b"], 5, None],
    {"b": "Ab", "x": {"b": 1, "a": None}, "y": [1, [1, 2], {"a": "a"}]},
    [0, 1, 1, "b", 4],
]
CTX = {"a": ["a", "b", 1], "b": 1, "d": {"c": "Ab"}, "x": {"b": 1}}
# written in ways the documentation says are the same
SAME = [
    ("$.a.b", ["a.b", ".a.b", "$['a']['b']", "$[a][b]", "[a]['b']", "a[b]", "['a'].b"]),
    ("$..a", ["..a", "$..['a']", "$..[a]", "..[a]"]),
    ("$.*", ["*", ".*", "[*]", "$[*]"]),
    ("$[0]", ["[0]"]),
    ("$[1:3]", ["[1:3]"]),
    ("$['a', 'b']", ["$[a, b]", "[a,b]", "[a, 'b']", "$['a',b]"]),
    ("$.~", ["~", "$[~]", "[~]", ".~"]),
    ("$..~", ["$..[~]", "..~"]),
    ("$[?@.a]", ["[?@.a]", "$[?(@.a)]", "$[?@.a != undefined]", "$[?@.a != missing]", "$[?undefined != @.a]", "$[?@.a <> undefined]"]),
    ("$[?!@.a]", ["$[?not @.a]", "$[?not(@.a)]", "$[?@.a == undefined]", "$[?@.a == missing]", "$[?missing == @.a]", "$[?!(@.a <> missing)]"]),
    ("$[?@.a == null]", [f"$[?@.a == {w}]" for w in ("nil", "Nil", "none", "None", "Null")]),
    ("$[?@.c == true]", ["$[?@.c == True]"]), ("$[?@.c == false]", ["$[?@.c == False]"]),
    ("$[?@.a && @.b || !@.c]", ["$[?@.a and @.b or not @.c]", "$[?@.a and @.b || not @.c]", "$[?(@.a and @.b) or(not @.c)]"]),
    ("$[?@.a != 1]", ["$[?@.a <> 1]"]),
    ("$[?'a' in @]", ["$[?@ contains 'a']", '$[?@ contains "a"]']),
    ("^[?@.a]", ["^[?(@.a)]"]), ("$", ["$"]),
]


def ext_logic_docs():
    some = lambda **kw: {k: v for k, v in kw.items() if v != "-"}  # noqa: E731
    rows = [some(a=a, b=b, c=c) for a in ("-", 1, "x", None) for b in ("-", "xy", ["x", 1], {"x": 0}) for c in ("-", "X", "y")]
    return [rows[::2] + [["x"], "x"], {"k": rows[3], "j": rows[17], "x": rows[22], "": rows[30], "1": rows[40]}, rows[1::2]]


def ext_logic(c, atoms):
    return c.explore("MC_Logic", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Deep=" + ("TRUE" if c.thorough else "FALSE")
                     + f" Atoms <- {atoms}\n", key=atoms, env=docs_env(c, ext_logic_docs()))


# every operand has a value here, and one that is nearly the same
PLACE_VALS = [1, -1, 0, 1.5, 1.2345678, 1.23457, 12345678, 12345700, 1e22, 1.1e22, 1e-7, 1.1e-7, -1.234567e-06, -1.23457e-06, 123456789.25, 123456789.3, "a", "", "'\"\\/", "'\"/",
              True, False, None, [1, "a"], {"a": 1}, ["a"], "ab", "A", {"a": "a", "1": 0}, [{"a": 1}], [1.2345678, 12345678]]
PLACE_DOCS = [[{"a": v} for v in PLACE_VALS] + PLACE_VALS, {"a": 1, "b": {"a": "a", "b": [1, {"a": 1}]}, "0": {"a": 1}, "1": [[1], {"a": ["a"]}], "ab": "a", "": {"a": "ab"}},
              [[{"a": {"a": 1.5, "0": "a"}}, {"a": ["a"]}, "a"], {"a": {"a": "a"}, "b": {"a": 0}, "c": [0, {"a": None}]}, [], {}]]
PLACE_CTX = {"a": 1, "0": {"a": "a"}, "-1": [1], "b": {"a": [1, "a"]}}


def placed(c, *invs):
    """Every operand in every position."""
    return c.explore("MC_Place", "INIT Init\nNEXT Next\n" + "".join(f"INVARIANT {i}\n" for i in invs) + f"CONSTANTS Wide={'TRUE' if c.thorough else 'FALSE'}\n",
                     key="operands in every position", env=docs_env(c, [*PLACE_DOCS, PLACE_CTX]), timeout=3000)


def replay_placed(c, find, prints, label="operands in every position"):
    def one(p, bad):
        for t in p["t"]:
            for d, l in zip(PLACE_DOCS, p["l"]):
                expect(bad, "an operand means something else where it stands", find, E.uncodes(t), d, [menus.follow(d, [st]) for st in l])
        return len(p["t"]) * len(PLACE_DOCS)
    c.replay(prints, one, label)


def run(c):
    jp = core.load_repo()
    find = lambda t, d: jp.findall(t, d, filter_context=CTX)  # noqa: E731
    # nodelists
    r = c.explore("MC_Ext", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Whole\nINVARIANT Parses\nCONSTANTS MaxSegs={c.n(2, 3)}\n",
                  env=docs_env(c, [*DOCS, CTX] if not c.thorough else [*DOCS[:2], CTX]), timeout=2000)

    def one(p, bad):
        doc = DOCS[p["d"] - 1]
        for t in p["t"]:
            t = E.uncodes(t)
            o, v = core.call(find, t, doc)
            if o != "ok":
                bad(f"evaluation failed with {core.ename(v)}", {"query": t, "doc": doc, "error": repr(v)})
            elif [E.enc(x) for x in v] != p["v"]:
                bad("extension evaluates to something else", {"query": t, "doc": doc, "context": CTX, "got": v, "want": [E.dec(x) for x in p["v"]]})
        return len(p["t"])
    c.replay(r.prints, one, "extended segments")
    c.sample({"spec case": E.uncodes(r.prints[-1]["t"][2])})
    # operators
    pool = c02.POOL if c.thorough else c02.POOL_Q + [["a", 1], "ab"]

    def table(ops, forms, styles, label, part):
        r = c.explore("MC_Compare", f"INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Ops={ops} Forms={forms} StylesUsed <- {styles}\n",
                      key=label, env=docs_env(c, part), timeout=1500)

        def one(p, bad):
            cand = {}
            if p["l"]:
                cand["l"] = part[p["l"] - 1]
            if p["r"]:
                cand["r"] = part[p["r"] - 1]
            doc = [cand]
            return expect(bad, "comparison has the wrong truth value", lambda t, d: jp.findall(t, d, filter_context=cand), E.uncodes(p["t"]), doc,
                          doc if p["s"] else [])
        c.replay(r.prints, one, label)
    table('{"in", "contains"}', '{"self", "lit", "list", "ctx"}', "Styles", "membership", pool)
    table('{"==", "!=", "<>", "<", ">="}', '{"self", "lit", "ctx", "undef"}', "WordStyles", "synonyms", pool)
    # words for operators
    docs = c02.logic_docs()
    r = c.explore("MC_Logic", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Deep=" + ("TRUE" if c.thorough else "FALSE")
                  + " StylesUsed <- WordStyles\n", key="logic in words", env=docs_env(c, docs))

    def one(p, bad):
        for t in p["t"]:
            for d, l in zip(docs, p["l"]):
                expect(bad, "words for logical operators mean something else", jp.findall, E.uncodes(t), d, [menus.follow(d, [st]) for st in l])
        return len(p["t"]) * len(docs)
    c.replay(r.prints, one, "logic in words")
    # combinations of the non-standard operators
    docs = ext_logic_docs()
    for atoms in ("ExtAtoms", "ExtAtoms2")[:c.n(1, 2)] if c.seed % 2 else ("ExtAtoms2", "ExtAtoms")[:c.n(1, 2)]:
        r = ext_logic(c, atoms)
        c.replay(r.prints, one, "non-standard operators combined")
    replay_placed(c, lambda t, d: jp.findall(t, d, filter_context=PLACE_CTX), placed(c, "Out", "Inverse").prints)
    # =~
    subj = c02.subjects() + ["A", "aB", "AB", "b\na", "a\nb", "\n\n", "\na"]
    r = c.explore("MC_Regex", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Anchors=TRUE Rich="
                  + ("TRUE" if c.thorough else "FALSE") + "\n", key="regex", env=docs_env(c, subj))

    def one(p, bad):
        pat = E.uncodes(p["p"])
        if not pat:
            return 0
        for fl, k in (("", "m"), ("i", "i"), ("ms", "ms"), ("sm", "ms")):
            expect(bad, "=~ selects the wrong strings", jp.findall, f"$[?@ =~ /{pat}/{fl}]", subj, [subj[i] for i in p[k]])
        return 4
    c.replay(r.prints, one, "regex literals")
    # ways of writing that the documentation says are the same: judged in the specification's reading of each
    docs = [*DOCS, *c02.NEST, {"a": None, "b": {"a": None}, "c": {"c": True}, "d": {"c": False, "b": "a", "a": 1.0}}, [], {}, ["a", ["a"], {"a": 1}, "cat"]]
    rec = Recorder(c)
    ci = rec.doc(CTX)
    for d in docs:
        di = rec.doc(d)
        for t in [u for a, b in SAME for u in (a, *b)]:
            o, v = core.call(find, t, d)
            rec.add(find_event(t, di, ci, o, v, "ext"), query=t, doc=d, context=CTX, got=repr(v))
    verdicts = rec.judge(key="documented equivalences")
    if any(v.startswith("skip") for v in verdicts.values()):
        raise tlc.MachineryError("documented forms the specification does not have: " + repr({rec.info[i]["query"] for i, v in verdicts.items() if v.startswith("skip")}))
    random_finds(c, "ext", c.n(700, 6000), 16, ext=True, words=True, rootless=True)
    random_finds(c, "nested", c.n(200, 1500), 12, ext=True, words=True, depth=3)
