"""C08: the asynchronous API returns what the synchronous API returns."""
import asyncio
import io
import json

from checks import c02, c11, c13
from checks.common import *  # noqa: F403
from vh import aio


def fp(matches):
    """What a list of matches has to agree on."""
    return [(m.path, m.parts, m.obj) for m in matches]


def one(a, b):
    """The same node's value; the fake root is a new array around the same document each time."""
    return a is b or (type(a) is type(b) is list and len(a) == len(b) == 1 and a[0] is b[0])


def agree(jp, text, doc, bad, **kw):
    """Compiled query, both ways, on the same document."""
    o, p = core.call(jp.compile, text)
    if o != "ok":
        return 0
    o1, v1 = core.call(lambda: fp(p.finditer(doc, **kw)))
    o2, v2 = core.call(lambda: fp(aio.drive(aio.acollect(p.finditer_async(doc, **kw)))))
    o3, v3 = core.call(lambda: aio.drive(p.findall_async(doc, **kw)))
    what = {"query": text, "doc": doc, "sync": repr(v1)[:300]}
    if o1 != o2 or o1 != o3:
        bad("one of the two APIs fails", {**what, "finditer_async": repr(v2)[:300], "findall_async": repr(v3)[:300]})
    elif o1 == "err":
        if not type(v1) is type(v2) is type(v3):
            bad("the two APIs fail in different ways", {**what, "finditer_async": repr(v2)[:300], "findall_async": repr(v3)[:300]})
    else:
        same = len(v1) == len(v2) and all(a[:2] == b[:2] and one(a[2], b[2]) for a, b in zip(v1, v2))
        if not same:
            bad("finditer_async differs from finditer", {**what, "async": repr(v2)[:300]})
        if len(v3) != len(v1) or not all(one(a, b[2]) for a, b in zip(v3, v1)):
            bad("findall_async differs from findall", {**what, "async": repr(v3)[:300]})
    return 3


def explored(c, jp):
    """Every query of the specification's machines, on plain and asynchronous documents."""
    docs = menus.SMALL
    variants = [lambda d: d, lambda d: aio.wrap(d), lambda d: aio.wrap(d, True)]

    def suite(cases, docs, texts, label, **kw):
        vs = [[f(d) for f in variants] for d in docs]

        def one(case, bad):
            n = 0
            for t in texts(case):
                for i in ([case["d"] - 1] if "d" in case else range(len(docs))):
                    for j, v in enumerate(vs[i]):
                        if j != 1 or len(t) % 2:
                            n += agree(jp, E.uncodes(t), v, bad, **kw)
            return n
        c.replay(cases, one, label)
    r = c.explore("MC_Query", "INIT Init\nNEXT Next\nINVARIANT NodesExist\nCONSTANTS MaxSegs=2 Rich=TRUE\n", key="segments2",
                  env=docs_env(c, docs if c.thorough else docs[:3]))
    suite(r.prints, docs, lambda p: p["t"][:1] if len(p["t"][0]) % 2 else p["t"][2:3], "selectors both ways")
    ld = c02.logic_docs()
    r = c.explore("MC_Logic", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Deep=" + ("TRUE" if c.thorough else "FALSE") + "\n",
                  key="logic", env=docs_env(c, ld))
    suite(r.prints, ld, lambda p: p["t"][:1], "logic both ways")
    r = c.explore("MC_Nest", f"INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS Depth={c.n(1, 2)}\n", key="nested", env=docs_env(c, c02.NEST))
    suite(r.prints, c02.NEST, lambda p: [p["t"]], "nested filters both ways")
    r = c.explore("MC_Compound", "INIT Init\nNEXT Next\nINVARIANT Incremental\nCONSTANTS MaxOps=2\n", env=docs_env(c, c11.DOCS))
    suite(r.prints, c11.DOCS, lambda p: p["t"][:1], "compounds both ways")


    ext = [*c13.DOCS, c13.CTX]
    r = c.explore("MC_Ext", "INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS MaxSegs=2\n", env=docs_env(c, ext), timeout=2000)
    suite(r.prints, ext, lambda p: p["t"][:1] if len(p["t"][0]) % 3 else p["t"][3:4], "extended segments both ways", filter_context=c13.CTX)
    r = c13.placed(c, "OutTexts")
    suite(r.prints[::c.n(2, 1)], c13.PLACE_DOCS[1:], lambda p: p["t"][:1], "operands in every position both ways", filter_context=c13.PLACE_CTX)


def async_groups(jp, env, text, doc, ctx, forms):
    kw = {} if ctx is None else {"filter_context": ctx}
    o, p = core.call(env.compile, text)
    groups = {}
    n = 0
    for where, host, pre in (("environment", env, (text,)), ("module", jp, (text,)), ("compiled", p if o == "ok" else None, ())):
        if host is None:
            continue
        for fname, make in forms:
            for name, kind, run in (
                    ("findall_async", "all", lambda d: asyncio.run(host.findall_async(*pre, d, **kw))),
                    ("finditer_async", "iter", lambda d: asyncio.run(aio.acollect(host.finditer_async(*pre, d, **kw))))):
                x = c11.res(kind, lambda: run(make()))
                n += 1
                groups.setdefault((kind, json.dumps(x, sort_keys=True)), (f"{where}.{name}({fname})", kind, x))
    return n, [{"n": n_, "k": k, "r": x} for n_, k, x in groups.values()]


BROKEN = ["$[", "$.a[?nosuch(@)]", "$[?count(@.*)]", "$[?@..a==1]", "$[99999999999999999999]", "$.a |", "$[?'a'", "|", "$.a & ]"]
UNTYPED = ["$[?count(1)==1]", "$[?length(@.*)>0]", "$[?value(@.a, 1)]", "$.*[?count(@.a)==1]", "$[?value('a')=='a']", "$[?isinstance(1,'x')]",
           "$[?typeof('a')=='string']", "$[?count('ab')==2]", "$ | $[?count(1)==1]", "$ & $[?count(1)==1]"]


SCALAR = ["count(1)==1", "length(@.*)>0", "value(@.a, 1)==1", "count(@.a)==1", "count('ab')==2", "isinstance(1,'x')", "typeof(@.a,@.b)=='x'", "match(@.a)", "length()==1",
          "search(@.*,'a')", "value(1)==value(@)", "count($.a)", "length(count(1))==1", "count(@[?length(1,2)])>0"]
NESTING = ["$[?{0}]", "$[?@[?{0}]]", "$.*[?@.a || {0}]", "$..[?{0}]", "$[?count(@[?{0}]) > 0]", "$[?$[?{0}]]", "$[?@.a, ?{0}]", "$[?!@[?@.a && {0}]]", "$[?_[?{0}]]", "$.a | $[?@[?{0}]]",
           "$ & $.*[?@.b[?{0}]]", "$[?@[?@[?{0}]]]", "^[?@[?{0}]]", "$[?value(@..[?{0}]) == 1]"]


def run(c):
    jp = core.load_repo()
    explored(c, jp)
    r = c.rng("async")
    env = jp.JSONPathEnvironment()
    loose = jp.JSONPathEnvironment(well_typed=False)
    rec = Recorder(c)
    total = 0

    def record(env, text, doc, ctx, forms):
        nonlocal total
        kw = {} if ctx is None else {"filter_context": ctx}
        part = c11.res("iter", lambda: env.compile(text).finditer(forms[0][1](), **kw))
        k, groups = async_groups(jp if env is not loose else env, env, text, doc, ctx, forms)
        total += k
        rec.add({"k": "entry", "ops": [], "parts": [part], "res": groups}, query=text, doc=doc, context=ctx,
                sync=part["o"], groups=[g["n"] for g in groups])

    for _ in range(c.n(220, 2500)):
        doc = gen.gen_doc(r) if r.p(0.7) else c11.small_doc(r)
        ctx = {"a": gen.gen_prim(r), "b": [1, {"a": 2}]} if r.p(0.7) else None
        plain, slow = aio.wrap(doc), aio.wrap(doc, True)
        forms = [("parsed", lambda: doc), ("async items", lambda: plain), ("slow async items", lambda: slow),
                 ("file", lambda: io.StringIO(json.dumps(doc)))]
        for _ in range(3):
            texts = [gen.Spell(r, words=True, rootless=r.p(0.3)).query(gen.QGen(r, doc, ext=True, fdepth=r.pick([1, 2, 3])).any(), top=True)
                     for _ in range(r.pick([1, 1, 2, 3]))]
            text = texts[0] + "".join(f" {r.pick('|&')} {t}" for t in texts[1:])
            record(env, text, doc, ctx, [forms[0], r.pick(forms[1:])])
    for text in BROKEN:
        record(env, text, [1], None, [("parsed", lambda: [1])])
    for text in ("$.a", "$.* | $[0]", "$ & $"):
        for d in ('{"a": [1}', "[1,", "{]"):
            record(env, text, d, None, [("broken text", lambda: d)])
            record(env, text, d, None, [("broken file", lambda: io.StringIO(d))])
    nest = [f.format(e) for f in NESTING for e in SCALAR]
    nd = [[{"a": 1, "b": [2, {"a": 1}]}, [[1, 2], [3]], "x"], {"a": {"a": [1, 2], "b": {"a": 1}}, "b": [[0]]}, [[]]]
    slow = [aio.wrap(d, True) for d in nd]
    def ill(text, bad):
        n = 0
        for d, s in zip(nd, slow):
            for ctx in ({}, {"a": [1, {"a": 1}], "b": {"a": 1}}):
                n += agree(loose, text, d, bad, filter_context=ctx)
            n += agree(loose, text, s, bad)
        return n
    c.replay(nest, ill, "ill-typed queries both ways")
    for text in UNTYPED:
        for d in ([1], [{"a": 1, "b": [2]}], {"a": {"a": [1, 2]}}, []):
            record(loose, text, d, None, [("parsed", lambda: d), ("async items", lambda: aio.wrap(d))])
    c.count("async calls", total)
    rec.judge()
