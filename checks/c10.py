"""C10: the text of a compiled query."""
import multiprocessing

from checks import c02, c09, c11, c13
from checks.common import *  # noqa: F403
from vh import soup


_STRS = None


def fps(q, doc, ctx):
    return c09.drain(lambda: iter(q.finditer(doc, filter_context=ctx)))


STD = {k: E.codes(v) for k, v in gen.STD.items()} | {"ext": True}


class Strs:
    """Compiles a text, prints it, compiles what was printed; records what happened."""

    def __init__(self, c, env, fam, table=STD):
        self.c = c
        self.env = env
        self.fam = fam
        self.table = table
        self.rec = Recorder(c)
        self.queue = []
        self.counts = {}

    def facts(self, t, docs, ctx):
        o, q = core.call(self.env.compile, t)
        if o != "ok":
            return None
        o, s = core.call(str, q)
        if o != "ok":
            return {"s": "", "o": "str() fails with " + core.ename(s), "s2": "", "r": []}
        o, q2 = core.call(self.env.compile, s)
        if o != "ok":
            return {"s": s, "o": core.ename(q2), "s2": "", "r": []}
        o, s2 = core.call(str, q2)
        ids = {}
        num = lambda xs: [ids.setdefault(x, len(ids) + 1) for x in xs]  # noqa: E731
        return {"s": s, "o": "ok", "s2": s2 if o == "ok" else "str() fails", "r": [{"a": num(fps(q, d, ctx)), "b": num(fps(q2, d, ctx))} for d in docs]}

    def add(self, t, docs, ctx, di, ci, label=""):
        self.queue.append((t, docs, ctx, di, ci, label))

    def flush(self):
        """Do the calls (in parallel) and record them."""
        global _STRS
        _STRS = self
        with multiprocessing.get_context("fork").Pool(8) as p:
            outs = p.map(_facts, range(len(self.queue)), chunksize=50)
        for (t, docs, ctx, di, ci, label), f in zip(self.queue, outs):
            n = self.counts.setdefault(label, [0, 0])
            n[f is None] += 1
            if f is not None:
                self.rec.add({"k": "str", "t": E.codes(t), "T": self.table, "s": E.codes(f["s"]), "s2": E.codes(f["s2"]), "o": f["o"],
                              "r": f["r"], "docs": di, "c": ci}, query=t, printed=f["s"], again=f["s2"], compiled=f["o"], docs=docs, context=ctx)
        self.queue = []
        self.c.extra["texts"] = {k or "generated": {"accepted": a, "refused": b} for k, (a, b) in self.counts.items()}


def _facts(i):
    t, docs, ctx = _STRS.queue[i][:3]
    return _STRS.facts(t, docs, ctx)


# strings that each flag tells apart
FLAGS = ["a", "A", "é", "É", "a\nb", "\n", "b\na", "ab", "axb", "a\n", "\nb", "K", "k", "\u212a", "s", "S", "\u017f", "1", "\u0661", " ", "\u2003", "\u0130", "i", "", "b", "B", "ss", "S\u017f", None]


def explored(c, jp, st):
    """Every text of the specification's machines."""
    ld, docs = c02.logic_docs(), menus.SMALL
    suites = []
    r = c.explore("MC_Print", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Inverse\nCONSTANTS MaxLen={c.n(2, 3)}\n", key="strings")
    sd = [["a", "'", '"', "\\", "/", "\n", "\x00", "''", "a'", '\\"', "\\u", "\u2028"], {"a": "a", "'": 1, "\\": [2], "\\\\": 3, "'a": {"'a": 1}, '"': '"'}]
    suites.append((r.prints, sd, lambda p: p["t"]))
    r = c.explore("MC_Logic", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Deep=" + ("TRUE" if c.thorough else "FALSE") + "\n",
                  key="logic", env=docs_env(c, ld))
    suites.append((r.prints, ld, lambda p: p["t"][:1]))
    for atoms in ("ExtAtoms", "ExtAtoms2"):
        r = c13.ext_logic(c, atoms)
        ps = sorted(r.prints, key=lambda p: len(p["t"][0]))
        suites.append((ps[:300] + ps[300::c.n(4, 1)], c13.ext_logic_docs(), lambda p: p["t"][:1]))
    r = c.explore("MC_Query", "INIT Init\nNEXT Next\nINVARIANT NodesExist\nCONSTANTS MaxSegs=2 Rich=TRUE\n", key="segments2", env=docs_env(c, docs[:1]))
    suites.append((r.prints[::c.n(2, 1)], docs[:3], lambda p: p["t"][-1:]))
    r = c.explore("MC_Nest", f"INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Depth={c.n(1, 2)}\n", key="nested", env=docs_env(c, c02.NEST))
    suites.append((r.prints[::c.n(4, 1)], c02.NEST, lambda p: [p["t"]]))
    r = c.explore("MC_Compound", "INIT Init\nNEXT Next\nINVARIANT Incremental\nCONSTANTS MaxOps=2\n", env=docs_env(c, c11.DOCS[:1]))
    suites.append((r.prints, c11.DOCS, lambda p: p["t"][:1]))
    r = c.explore("MC_Flags", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Kept\nCONSTANTS Patterns <- Plain\n", key="flags")
    suites.append((r.prints, [FLAGS, dict.fromkeys(FLAGS[:-1], 0) | {"m": "a\nb"}], lambda p: p["t"]))
    suites = [(*s, {}) for s in suites]
    r = c13.placed(c, "OutTexts")
    suites.append((r.prints, c13.PLACE_DOCS, lambda p: p["t"][:1], c13.PLACE_CTX))
    for prints, ds, texts, ctx in suites:
        di = [st.rec.doc(d) for d in ds]
        ci = st.rec.doc(ctx)
        for p in prints:
            for t in texts(p):
                st.add(E.uncodes(t), ds, ctx, di, ci)


FIXED = [
    "$[?@.a == 1e999]", "$[?@.a == -1e999]", "$[?@.a == 1e400 || @.b]", "$[?@.a == 1E2]", "$[?@.a == 1.50]", "$[?@.a == 100000000000000000000000]", "$[?@.a == 1e22]", "$[?@.a == 1e23]",
    "$[?@.a == 1e-7]", "$[?@.a == 0.1]", "$[?@.a == -0]", "$[?@.a == -0.0]", "$[?@.a == 12345678901234567890.5]", "$[?@.a < 1e16]", "$[?@.a == 5e-324]", "$[?@.a == 1.7976931348623157e308]",
    "$[?@.a == 123456789012345678]", "$[?@.a == 9007199254740993]", "$[?@.a == 1e15]", "$[?@.a == 1.0]",
    "$[?@.a =~ /x/]", "$[?@.a =~ /x/i]", "$[?@.a =~ /x/ims]", "$[?@.a =~ /x/sma]", "$[?@.a =~ /x.y/s]", "$[?@.a =~ /^x$/m]", "$[?@.a =~ /\\d'\"/a]", "$[?@.a =~ /\\//]" if False else "$[?@.a =~ /[a]'/]",
    "^", "^[0]", "^[?@.a]", "^.a | $.b", "$.a | ^[0].b", "$.a & ^[0].a", "^[?@.a == 1] | ^[0] & $", "$[?^[0].a]", "$[?^..a == @]", "$[?^[?@.a]]",
    "$ | $ | $", "$ & $ | $", "$ | $ & $", "$.a & $.b & $.c | $.d", "$", "$[?@]", "$[?$]", "$[?_]", "$[?_.a]", "$[?_['x y'].a]", "$[?_.a == _.b]", "$[?# == 0]", "$[?# == 'a']", "$[?# in ['a', 0]]",
    "$.~", "$[~]", "$..~", "$..[~]", "$[~, 'a']", "$['a', ~, 0]", "$[?@.~]", "$[?@[~] ]", "$[?count(@.~) > 1]", "$.*.~", "$['~']", "$['#']", "$['_']", "$._a", "$.a-b", "$['a-b']", "$[a-b]", "a.b", "*", "..a", "[0]", "~",
    "$[?(@.a == 1) == true]", "$[?true == (@.a == 1)]", "$[?(@.a == @.b) == (@.b == @.c)]", "$[?@.a == (@.b == (@.c == 1))]", "$[?((@.a == 1) == true) == true]", "$[?(@.a && @.b) == true]", "$[?!(@.a == 1) == true]",
    "$[?!(@.a)]", "$[?!@.a]", "$[?!(!@.a)]", "$[?!(@.a && @.b) || @.c]", "$[?!((@.a || @.b) && @.c)]", "$[?(@.a || @.b) && (@.b || @.c)]", "$[?@.a || @.b && @.c]", "$[?(@.a || @.b) && @.c]", "$[?@.a && (@.b || @.c)]",
    "$[?not @.a]", "$[?not (@.a and @.b) or not @.c]", "$[?not not @.a]", "$[?!@.a == 1]", "$[?!(@.a == 1)]", "$[?not @.a == 1]", "$[?@.a in [1, 'x', null, true]]", "$[?@.a in []]", "$[?[1] contains @.a]", "$[?@.a contains 'x']",
    "$[?'x' in @.a]", "$[?@.a == undefined]", "$[?missing != @.a]", "$[?@.a == nil]", "$[?@.a == None]", "$[?@.a == True]", "$[?@.a <> 1]",
    "$[?match(@.a, \"a'b\")]", "$[?match(@.a, 'a\"b')]", "$[?search(@.a, '\\\\d')]", "$[?search(@.a, $.b)]", "$[?length(@.a) == length('\\'')]", "$[?value(@..a) == value($..a)]", "$[?count(@[?@.a == 'x'])==1]",
    "$[?isinstance(@.a, 'str')]", "$[?is(@.a, 'str')]", "$[?typeof(@.a) == 'string']", "$[?type(@.a) == 'string']", "$[?length(value(@..a)) > 1]", "$[?length(length(@.a)) == 1]",
    "$[1:2]", "$[::]", "$[:]", "$[::-1]", "$[-1:]", "$[1:2:3, 0, 'a', *, ?@.a]", "$[1:2][3]", "$[1:2,3:4]", "$..[1:2]", "$..[0]", "$..['a']", "$..['a','b']", "$..*", "$..[*]", "$..[?@.a]", "$[-1]", "$[?@.a, ?@.b]", "$[?@[?@[?@.a]]]",
    "$['']", "$['\\'']", "$[\"'\"]", "$['\"']", "$['\\\\']", "$['\\\\\\'']", "$['\\n']", "$['\\u0000']", "$['\\u2028']", "$['😀']", "$['\\ud83d\\ude00']", "$['/']", "$[\"\\\"'\"]", "$['a\\/b']", "$['\\\\u0041']", "$['\\\\n']",
    "$[?@['a\\'b'] == 'c\\'d']", "$[?@[\"a\\\"b\"] == \"c\\\"'d\"]", "$[?@.a == '\\n']", "$[?@.a == '\\\\']", "$[?@.a == '\\\\\\\\n']", "$[?@.a == '😀']",
]


def run(c):
    jp = core.load_repo()
    env = jp.JSONPathEnvironment()
    st = Strs(c, env, jp.JSONPathError)
    explored(c, jp, st)
    d0 = [{"a": 1, "b": {"a": [1, "x", None], "c": 1}, "c": [0, 1, {"a": 1, "b": 1, "c": True}], "~": 1, "#": 2, "_": 3, "a-b": 4, "_a": 5},
          [{"a": 1, "b": True, "c": True}, {"a": "x", "b": "x"}, {"b": 1, "c": 1}, {"a": 1e300 * 1e10}, {"a": [1, 2, 3], "b": {"a": 1}}, [[1, 2], {"a": {}}], "x", 0],
          {"x": {"a": None}, "y": {"a": "x\ny"}, "z": {"a": "X", "b": 1, "c": 1}, "w": {"a": 1e22}, "v": {"a": 0.1}, "u": {"a": 12345678901234567890.5}, "t": {"a": -0.0}, "s": {"a": 123456789012345678}}]
    ctx0 = {"a": 1, "b": 1, "x y": {"a": 1}}
    di = [st.rec.doc(d) for d in d0[:1]]  # infinite numbers are not JSON
    ci = st.rec.doc(ctx0)
    for t in FIXED:
        st.add(t, d0, ctx0, di, ci, "fixed")
    r = c.rng("str")
    for _ in range(c.n(260, 3000)):
        doc = gen.gen_doc(r)
        ctx = {"a": gen.gen_prim(r), "b": [1, {"a": 2}], "c": {"a": gen.gen_prim(r)}}
        docs = [doc, c09.perturb(r, doc), c11.small_doc(r)]
        di = [st.rec.doc(d) for d in docs]
        ci = st.rec.doc(ctx)
        for _ in range(5):
            texts = []
            for _ in range(r.pick([1, 1, 1, 2, 3])):
                q = gen.QGen(r, doc, ext=True, fdepth=r.pick([1, 2, 3])).any()
                if r.p(0.12):
                    q = ("q", "fake", q[2])
                texts.append(gen.Spell(r, words=r.p(0.7), rootless=r.p(0.2)).query(q, top=True))
            t = texts[0] + "".join(r.pick([" | ", "|", " & ", "&"]) + x for x in texts[1:])
            st.add(t, docs, ctx, di, ci)
            for f in (soup.disturb, soup.regroup, soup.regroup):
                st.add(f(r, t), docs, ctx, di, ci, "disturbed")
    for _ in range(c.n(3000, 30000)):
        t = soup.disturb(r, r.pick(FIXED)) if r.p(0.7) else soup.soup(r)
        st.add(t, d0, ctx0, di, ci, "disturbed")
    st.flush()
    st.rec.judge()
