"""C11: query entry points agree."""
import io
import json

from checks.common import *  # noqa: F403

DOCS = [
    {"a": [1, True, [1], {"x": 1}, 2, 1], "b": [True, [True], 2, {"x": 1.0}], "c": [2, 1.0, "1", {"x": True}]},
    {"a": [[0], [False], 0, "a", None, {}], "b": [[0], False, None, []], "c": [0.0, "a", {}, [0.0], None]},
]
SMALLVALS = [0, 1, 1.0, True, False, None, "1", "a", "", [], {}, [1], [True], {"a": 1}, {"a": True}, {"a": 1, "b": 2}, {"b": 2, "a": 1}, [[1]], [0], 2]


def small_doc(r):
    n = r.pick([1, 2, 3, 4])
    def v(d):
        if d and r.p(0.4):
            return [v(d - 1) for _ in range(r.randrange(4))] if r.p(0.5) else {r.pick("abc"): v(d - 1) for _ in range(r.randrange(3))}
        return json.loads(json.dumps(r.pick(SMALLVALS)))
    return {k: v(2) for k in "abcd"[:n]} if r.p(0.6) else [v(2) for _ in range(n)]


BIG = [2**53, 2**53 + 1, -(2**53) - 1, 2**64 + 1, 10**25 + 1, 1e16, 0.1, 1.7976931348623157e308, 5e-324]


def swell(r, v):
    """Some of its numbers made hard to represent."""
    if isinstance(v, dict):
        return {k: swell(r, x) for k, x in v.items()}
    if isinstance(v, list):
        return [swell(r, x) for x in v]
    return r.pick(BIG) if isinstance(v, (int, float)) and not isinstance(v, bool) and r.p(0.5) else v


def ok(matches=None, vals=None):
    if matches is None:
        return {"o": "ok", "vals": [E.enc(v) for v in vals], "locs": []}
    return {"o": "ok", "vals": [E.enc(m.obj) for m in matches], "locs": [E.codes(f"{m.path} {m.parts!r}") for m in matches]}


def res(kind, fn):
    def go():
        if kind == "iter":
            return ok(list(fn()))
        if kind == "all":
            return ok(vals=list(fn()))
        m = fn()
        return ok([] if m is None else [m])
    o, v = core.call(go)
    return v if o == "ok" else {"o": "err", "err": core.ename(v), "vals": [], "locs": []}


class OneShot(io.RawIOBase):
    """A readable file that can't be rewound."""

    def __init__(self, data):
        self.data = data

    def readable(self):
        return True

    def seekable(self):
        return False

    def read(self, n=-1):
        out, self.data = self.data, b""
        return out


def forms(r, doc, path):
    t = json.dumps(doc, ensure_ascii=r.p(0.5), indent=r.pick([None, None, 2]))
    if r.p(0.2):
        t = r.pick([" ", "\n", "\t\r\n"]) + t + r.pick(["", "\n", " "])
    b = t.encode("utf-8", "surrogatepass")
    out = [("parsed", lambda: doc), ("StringIO", lambda: io.StringIO(t)), ("BytesIO", lambda: io.BytesIO(b)),
           ("one-shot file", lambda: OneShot(b)), ("UTF-16 file", lambda: io.BytesIO(t.encode("utf-16", "surrogatepass")))]
    if isinstance(doc, (dict, list)):
        out.append(("JSON text", lambda: t))
    with open(path, "wb") as f:
        f.write(b)
    out.append(("file", lambda: open(path, encoding="utf-8")))
    out.append(("binary file", lambda: open(path, "rb")))
    return out


def entries(jp, env, text, doc, ctx, fs, extra=()):
    """Every entry point's result, grouped by equal results."""
    kw = {} if ctx is None else {"filter_context": ctx}
    o, p = core.call(env.compile, text)
    calls = []
    for where, host, pre in (("environment", env, (text,)), ("module", jp, (text,)), ("compiled", p if o == "ok" else None, ())):
        if host is None:
            continue
        for fname, make in fs:
            def run(name, kind, f=None):
                def go(host=host, pre=pre, make=make, name=name, f=f):
                    data = make()
                    try:
                        out = getattr(host, name)(*pre, data, **kw)
                        return f(out) if f else out
                    finally:
                        if isinstance(data, io.IOBase):
                            data.close()
                calls.append((f"{where}.{name}({fname})", kind, go))
            run("findall", "all")
            run("finditer", "iter")
            run("match", "one")
            run("query", "iter", list)
            run("query", "all", lambda q: q.values())
    for label, path in extra:
        calls.append((f"{label}.findall", "all", lambda path=path: path.findall(doc, **kw)))
        calls.append((f"{label}.finditer", "iter", lambda path=path: path.finditer(doc, **kw)))
        calls.append((f"{label}.match", "one", lambda path=path: path.match(doc, **kw)))
    groups = {}
    for label, kind, go in calls:
        x = res(kind, go)
        groups.setdefault((kind, json.dumps(x, sort_keys=True)), (label, kind, x))
    return len(calls), [{"n": n, "k": k, "r": x} for n, k, x in groups.values()]


def built(env, operands, ops):
    """The same compound put together with union() and intersection()."""
    o, p = core.call(lambda: env.compile(f"{operands[0]} {'|' if ops[0] == 'union' else '&'} {operands[1]}"))
    if o != "ok":
        return []
    for op, t in list(zip(ops, operands[1:]))[1:]:
        q = env.compile(t)
        p = p.union(q) if op == "union" else p.intersection(q)
    return [("built", p)]


def run(c):
    jp = core.load_repo()
    r0 = c.explore("MC_Compound", f"INIT Init\nNEXT Next\nINVARIANT Incremental\nINVARIANT Parses\nCONSTANTS MaxOps={c.n(2, 3)}\n",
                   env=docs_env(c, DOCS), timeout=1500)

    def one(case, bad):
        doc = DOCS[case["d"] - 1]
        want = [E.enc(E.dec(v)) for v in case["v"]]
        n = 0
        for t in case["t"][:1] if len(case["t"][0]) % 3 else case["t"][1:3]:
            text = E.uncodes(t)
            for name, f in (("findall", lambda: jp.findall(text, doc)),
                            ("finditer", lambda: [m.obj for m in jp.compile(text).finditer(doc)]),
                            ("match", lambda: [m.obj for m in [jp.match(text, doc)] if m is not None]),
                            ("query", lambda: list(jp.query(text, json.dumps(doc)).values()))):
                o, v = core.call(f)
                n += 1
                w = want[:1] if name == "match" else want
                if o != "ok":
                    bad(f"{name} failed with {core.ename(v)}", {"query": text, "doc": doc})
                elif [E.enc(x) for x in v] != w:
                    bad(f"{name} differs from the specification's", {"query": text, "doc": doc, "got": v, "want": w})
        return n
    c.replay(r0.prints, one)

    r = c.rng("entry")
    env = jp.JSONPathEnvironment()
    rec = Recorder(c)
    path = os.path.join(c.work, "doc.json")
    total = 0
    for _ in range(c.n(260, 2500)):
        doc = small_doc(r) if r.p(0.7) else gen.gen_doc(r)
        if r.p(0.3):
            doc = swell(r, doc)
        ctx = {"a": gen.gen_prim(r), "b": [1, 2]} if r.p(0.6) else None
        fs = forms(r, doc, path)
        for _ in range(4):
            n = r.pick([1, 1, 2, 2, 3, 4])
            ops = [r.pick(["union", "inter", "inter"]) for _ in range(n - 1)]
            operands = []
            for _ in range(n):
                q = gen.QGen(r, doc, ext=True, fdepth=1).any()
                if r.p(0.1):
                    q = ("q", "fake", [(False, [("idx", 0)])] + q[2])
                operands.append(gen.Spell(r, words=True, rootless=r.p(0.3)).query(q, top=True))
            text = operands[0]
            for op, t in zip(ops, operands[1:]):
                b1, b2 = r.pick(["", " ", "  "]), r.pick(["", " ", "\n"])
                text += b1 + ("|" if op == "union" else "&") + b2 + t
            kw = {} if ctx is None else {"filter_context": ctx}
            parts = [res("iter", lambda t=t: env.compile(t).finditer(doc, **kw)) for t in operands]
            extra = built(env, operands, ops) if n > 1 and all(p["o"] == "ok" for p in parts) else []
            sub = [fs[0]] + [r.pick(fs[1:]) for _ in range(2)]
            k, groups = entries(jp, env, text, doc, ctx, sub, extra)
            total += k
            rec.add({"k": "entry", "ops": ops, "parts": parts, "res": groups}, query=text, doc=doc, context=ctx,
                    groups=[g["n"] for g in groups])
    c.count("entry point calls", total)
    rec.judge()
