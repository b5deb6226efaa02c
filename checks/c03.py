"""C03: match locations."""
from vh import ptr

from checks.common import *  # noqa: F403

DOCS = [
    {"a": [{"b": [1, {"'": 2}]}, {"\\": {"a'b": 3, "\\'": 4}}], "\n": {"\t\b\f\r\x00\x1f": 5, "\x7f": [6]}, "0": {"1": 7, "01": [8]}},
    [[{"/": {"~": 9, "~1": 10, "~01": [11]}}], {"": {"": 12}, "\"": 13, "é": {"😀": 14, "\u2028": 15}}],
    {"true": {"or": 16, "$": [17, 18, 19]}, "-1": {"-": 20, "#a": 21, "~a": 22, "_": 23}, "\\u0041": 24, "A": 25, "a": {"a": {"a": 26}}},
]


def describe(jp, doc, m, env):
    """What a match says about itself, and the identities that hold."""
    facts = []

    def fact(what, fn):
        o, v = core.call(fn)
        if o != "ok":
            facts.append(f"{what} fails with {core.ename(v)}")
        elif v is not True:
            facts.append(what + " is another object")

    def only():
        vs = env.findall(m.path, doc)
        return len(vs) == 1 and strict(vs[0], m.obj)

    def via(get):
        return lambda: strict(get(), m.obj)

    def walk():
        v = doc
        for p in m.parts:
            v = v[p]
        return v
    p = m.pointer()
    fact("the node selected by the path", only)
    fact("the match found by the path", via(lambda: env.match(m.path, doc).obj))
    fact("the node reached by the parts", via(walk))
    fact("the node the pointer resolves to", via(lambda: p.resolve(doc)))
    if not any(isinstance(x, str) and len(x) > 15 and x.lstrip("-").isdigit() for x in m.parts):
        fact("the node the reparsed pointer resolves to", via(lambda: jp.JSONPointer(str(p), unicode_escape=False).resolve(doc)))
        if "\\" not in str(p):
            fact("the node the pointer text resolves to", via(lambda: jp.pointer.resolve(str(p), doc)))
            fact("the pointer parsed again", lambda: jp.JSONPointer(str(p)) == p and p.exists(doc))
    par = m.parent
    out = {"path": E.codes(m.path), "parts": E.enc_loc(m.parts), "ptr": E.codes(str(p)), "val": E.enc(m.obj), "facts": facts,
           "parent": "none", "pparts": []}
    if par is not None:
        v = none = object()
        try:
            v = doc
            for x in m.parts[:-1]:
                v = v[x]
        except (KeyError, IndexError, TypeError):
            v = none
        out["pparts"] = E.enc_loc(par.parts)
        out["parent"] = "ok"
        if v is none or not strict(par.obj, v):
            out["parent"] = "its value is not the container of the node"
        elif par.pointer() != p.parent() or str(par.pointer()) != str(p.parent()):
            out["parent"] = "its pointer is not the parent pointer"
        else:
            last = m.parts[-1]
            try:
                child = isinstance(par.obj, (dict, list)) and strict(par.obj[last], m.obj)
            except (KeyError, IndexError, TypeError):
                child = False
            if not child:
                out["parent"] = "the node is not its child"
    return out


def record(rec, jp, env, t, doc, di, g="rfc", ctx=None, ci=None, how="finditer"):
    o, v = core.call(lambda: list(env.finditer(t, doc, filter_context=ctx)) if how == "finditer" else list(env.compile(t).finditer(doc, filter_context=ctx)))
    ms = []
    if o == "ok":
        seen = {}
        for m in v:
            o2, d = core.call(describe, jp, doc, m, env)
            if o2 != "ok":
                o, v = "err", d
                break
            ms.append(d)
            # equal paths exactly for the same node
            key = tuple(m.parts)
            if seen.setdefault(m.path, key) != key:
                d["facts"].append("a node with the same path")
    rec.add({"k": "loc", "t": E.codes(t), "g": g, "d": di, "c": ci or di, "o": o, "err": "" if o == "ok" else core.ename(v), "ms": ms},
            query=t, doc=doc, got=[(E.uncodes(m["path"]), m["facts"], m["parent"]) for m in ms] if o == "ok" else repr(v))


def run(c):
    jp = core.load_repo()
    env = jp.JSONPathEnvironment()
    docs = menus.SMALL + DOCS
    inv = "INVARIANT PathsSelect\n"
    r = c.explore("MC_Query", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxSegs=1 Rich=TRUE\n", env=docs_env(c, docs))
    cases = r.prints
    r = c.explore("MC_Query", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxSegs=2 Rich=FALSE\n", key="two segments",
                  env=docs_env(c, DOCS + menus.SMALL[:2] if c.thorough else DOCS))
    nd = DOCS + menus.SMALL[:2] if c.thorough else DOCS

    def one(pool):
        def f(case, bad):
            doc = pool[case["d"] - 1]
            t = E.uncodes(case["t"][1])
            o, ms = core.call(lambda: list(env.finditer(t, doc)))
            if o != "ok" or len(ms) != len(case["l"]):
                bad("nodelist differs", {"query": t, "doc": doc, "got": repr(ms)})
                return 1
            for m, l in zip(ms, case["l"]):
                want = tuple(E.uncodes(s) if isinstance(s, list) else s for s in l)
                d = describe(jp, doc, m, env)
                info = {"query": t, "doc": doc, "path": m.path, "location": want}
                if tuple(m.parts) != want or [type(x) for x in m.parts] != [type(x) for x in want]:
                    bad("parts are not the location of the node", {**info, "got": m.parts})
                if d["ptr"] != E.codes(ptr.text(want)):
                    bad("pointer is not the RFC 6901 spelling of the location", {**info, "got": str(m.pointer())})
                for x in d["facts"]:
                    bad(x, info)
                if d["parent"] != ("ok" if want else "none") or d["pparts"] != E.enc_loc(want[:-1]):
                    bad("parent: " + d["parent"], {**info, "got": d["pparts"]})
            return 1 + len(ms)
        return f
    c.replay(cases, one(docs), "locations")
    c.replay(r.prints, one(nd), "locations")

    r = c.rng("loc")
    rec = Recorder(c)
    for n in range(c.n(500, 5000)):
        doc = ptr.ptr_doc(r, distinct=r.p(0.7), odd=r.pick([0.3, 0.9]), depth=r.pick([2, 3, 5]), maxsize=40)
        di = rec.doc(doc)
        for _ in range(5):
            q = gen.QGen(r, doc, filters=r.p(0.4)).any()
            record(rec, jp, env, gen.Spell(r).query(q, top=True), doc, di, how=r.pick(["finditer", "compiled"]))
        record(rec, jp, env, "$..*", doc, di)
        if n % 3 == 0:   # extended and compound queries, still $-rooted, without keys selectors
            ctx = gen.gen_doc(r, scalar_root=0)
            ctx = ctx if isinstance(ctx, dict) else {"a": ctx}
            ci = rec.doc(ctx)
            for _ in range(3):
                g = gen.QGen(r, doc, ext=True)
                parts = []
                for _ in range(r.pick([1, 1, 2])):
                    q = g.any()
                    while has_keys(q):
                        q = g.any()
                    parts.append(gen.Spell(r, words=True).query(q, top=True))
                record(rec, jp, env, r.pick([" | ", " & "]).join(parts), doc, di, "ext", ctx, ci)
    rec.judge()
    n = "9007199254740992"
    o, v = core.call(lambda: jp.JSONPointer(str(jp.match("$.*", {n: 1}).pointer())).resolve({n: 1}))
    if (o, v) != ("ok", 1):
        if isinstance(v, jp.JSONPointerIndexError):
            c.finding("the pointer text of a member spelled like an integer beyond the index limit cannot be parsed again")
        else:
            c.violate("member beyond the index limit", {"got": repr(v)})


def has_keys(x):
    if isinstance(x, (tuple, list)):
        return (len(x) == 1 and x[0] == "keys") or any(map(has_keys, x))
    return False
