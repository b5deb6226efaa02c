"""C19: projections."""
import copy
import json

from checks.common import *  # noqa: F403

DOCS = [
    {"a": [0, [1, False], {"b": None}, ""], "b": {"a": {"b": []}, "0": "x"}, "0": [{"b": 1}, 2], "-1": 5},
    [{"a": 1, "b": 0}, {"a": {"b": {}}, "0": {"b": 2}}, [[1, {"b": 3}], 2, 3], {"b": [{"b": 1}]}, "a", 0],
    {"a": {"0": {"a": False, "b": "b"}, "1": [1], "b": 1}, "b": [[], {}], "0": 0},
    [[0, 1, [2, 3, 4]], [], [[5, 6], [7, 8]], {}],
    [0, "1", [2], {"b": 3}, 4, 5, 6, 7, 8, {"a": [9], "b": 9}, {"a": [10, 11]}, {"b": {"10": 1, "9": 2}}],
]


def projections(jp, doc, query, rel, style):
    return list(jp.query(query, doc).select(*rel, projection=style))


def same(a, b):
    return len(a) == len(b) and all(json.dumps(x, sort_keys=True) == json.dumps(y, sort_keys=True) for x, y in zip(a, b))


def rel_queries(r, doc):
    """Relative queries that mostly select, in ascending order, from what a match may be."""
    nodes = [(l, v) for l, v in gen.all_nodes(doc) if isinstance(v, (dict, list)) and v]
    if not nodes:
        return None
    loc, m = r.pick(nodes)
    rels = []
    for _ in range(r.pick([1, 1, 2, 2, 3, 4])):
        k = r.randrange(10)
        below = [l for l, _ in gen.all_nodes(m) if l]
        if k < 6:
            l = r.pick(below)
            segs = [(("name" if isinstance(p, str) else "idx"), p) for p in l]
            if r.p(0.35):
                n = r.randrange(len(segs))
                segs[n] = r.pick([("wild",), ("slice", r.pick([None, 0, 1]), r.pick([None, 2, 3]), None), segs[n]])
            rels.append((l, [(False, [s]) for s in segs]))
        else:
            rels.append(((), gen.QGen(r, m, filters=r.p(0.4)).any()[2] or [(False, [("wild",)])]))
    if r.p(0.6):
        rels.sort(key=lambda x: [(isinstance(p, str), p) for p in x[0]])
    return loc, rels


def run(c):
    jp = core.load_repo()
    P = {"flat": jp.Projection.FLAT, "rel": jp.Projection.RELATIVE, "root": jp.Projection.ROOT}
    r = c.explore("MC_Project", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Found\nCONSTANTS MaxSel=" + ("3" if c.thorough else "2")
                  + " Wide=TRUE\n", env=docs_env(c, DOCS), timeout=2000)

    def one(p, bad):
        doc = DOCS[p["d"] - 1]
        before = copy.deepcopy(doc)
        rel = [E.uncodes(t) for t in p["r"]]
        if len(rel) % 2:
            rel = [jp.compile(t) for t in rel]
        n = 0
        for style, P_ in P.items():
            o, v = core.call(projections, jp, doc, E.uncodes(p["t"]), rel, P_)
            n += 1
            info = {"document": doc, "match": E.uncodes(p["t"]), "select": [str(x) for x in rel], "projection": style}
            if not same([doc], [before]):
                bad("the document is modified", info)
                return n
            if style != "flat" and not p["c"]:
                continue
            want = [E.dec(x) for x in p["f" if style == "flat" else style]]
            if o != "ok":
                bad(f"projection failed with {core.ename(v)}", {**info, "error": repr(v)})
            elif not same(v, want):
                bad("projection differs", {**info, "got": v, "want": want})
        return n
    c.replay(r.prints, one, "projections")
    c.sample({"spec case": [E.uncodes(t) for t in r.prints[-1]["r"]]})
    rr = c.rng("project")
    rec = Recorder(c)
    for _ in range(c.n(900, 8000)):
        doc = gen.gen_doc(rr, depth=rr.pick([3, 4]), odd=rr.pick([0.2, 0.6]), maxsize=40)
        if rr.p(0.12):
            doc = [rr.pick([i, {"a": i}, {"a": [i], "b": doc}, doc]) for i in range(13)]
        di = rec.doc(doc)
        for _ in range(4):
            found = rel_queries(rr, doc)
            if not found:
                continue
            loc, rels = found
            q = ("q", "root", [(False, [("name" if isinstance(p, str) else "idx", p)]) for p in loc])
            k = rr.randrange(6)
            if k == 0 and loc:
                q[2][rr.randrange(len(loc))] = (False, [("wild",)])
            elif k == 1:
                q = ("q", "root", [(True, [("wild",)])])
            sp = gen.Spell(rr)
            texts = [gen.Spell(rr, rootless=rr.p(0.7)).query(("q", "root", g), top=True) for _, g in rels]
            t = sp.query(q, top=True)
            style = rr.pick(["flat", "rel", "rel", "root", "root"])
            given = [jp.compile(x) if rr.p(0.4) else x for x in texts]
            o, v = core.call(projections, jp, doc, t, given, P[style])
            rec.add({"k": "proj", "t": E.codes(t), "rel": [E.codes(x) for x in texts], "d": di, "s": {"rel": "relative"}.get(style, style), "o": o,
                     "err": "" if o == "ok" else core.ename(v), "out": [E.enc(x) for x in v] if o == "ok" else [], "after": E.enc(doc)},
                    query=t, select=texts, projection=style, doc=doc, got=repr(v))
    rec.judge()
