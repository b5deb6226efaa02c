"""C17: renaming the identifier tokens."""
import sys

from checks import c09, c10, c11, c13
from checks.common import *  # noqa: F403
from vh import aio

ATTR = {"root": "root_token", "fake": "fake_root_token", "self": "self_token", "key": "key_token", "ctx": "filter_context_token",
        "keys": "keys_selector_token", "union": "union_token", "inter": "intersection_token"}
_ENVS = {}


def env_for(jp, T):
    """An environment with these spellings."""
    k = tuple(sorted(T.items()))
    if k not in _ENVS:
        if len(_ENVS) > 300:
            _ENVS.clear()
        _ENVS[k] = type("Renamed", (jp.JSONPathEnvironment,), {ATTR[i]: w for i, w in T.items()})()
    return _ENVS[k]


def table(T):
    return {k: E.codes(v) for k, v in T.items()} | {"ext": True}


def fps(q, doc, ctx, parts=True):
    """What matches mean, whatever the root is called.  (The location of a member name selected by
    the keys selector is spelled with that selector's token.)"""
    one = lambda m: f"{m.parts!a} {m.obj!a}" if parts else f"{m.obj!a}"  # noqa: E731
    o, v = core.call(lambda: [one(m) for m in q.finditer(doc, filter_context=ctx)])
    return v if o == "ok" else ["!" + core.ename(v)]


def others(env, q, t, doc, ctx, parts, which):
    """The same by another entry point."""
    one = lambda m: f"{m.parts!a} {m.obj!a}" if parts else f"{m.obj!a}"  # noqa: E731
    ways = [lambda: [one(m) for m in aio.drive(aio.acollect(q.finditer_async(doc, filter_context=ctx)))],
            lambda: [one(m) for m in aio.drive(aio.acollect(env.finditer_async(t, doc, filter_context=ctx)))],
            lambda: [one(m) for m in env.query(t, doc, filter_context=ctx)],
            lambda: [f"{x!a}" for x in env.findall(t, doc, filter_context=ctx)],
            lambda: [f"{x!a}" for x in q.findall(doc, filter_context=ctx)],
            lambda: [f"{x!a}" for x in aio.drive(q.findall_async(doc, filter_context=ctx))],
            lambda: [one(m) for m in [env.match(t, doc, filter_context=ctx)] if m],
            lambda: [f"{x!a}" for kind in (("FLAT", "RELATIVE", "ROOT") if parts else ("FLAT",))
                     for x in env.query(env.root_token, doc).select(t, projection=getattr(sys.modules["jsonpath"].Projection, kind))],
            lambda: [f"{x!a}" for x in q.query(doc, filter_context=ctx).select(env.root_token, t, projection=sys.modules["jsonpath"].Projection.FLAT)]]
    o, v = core.call(ways[which % len(ways)])
    return v if o == "ok" else ["!" + core.ename(v)]


WAYS = 9
DOC = {"a": [1, 2, {"a": 1, "b": 1}], "b": 1, "c": {"a": 1, "b": "k", "ROOT": [1]}, "d": {"a": 1, "z": 0}, "ROOT": {"a": 2}, "%": 1, "~": {"a": [1]}, "k": "a"}
CTX = {"a": 1, "b": 1, "c": "[abk]", "d": [1, 2], "%": {"a": 1}}


def explored(c, jp, st):
    r = c.explore("MC_Tokens", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Same\nCONSTANTS MaxRenames=2\n", key="assignments", timeout=1500)
    std = jp.JSONPathEnvironment()
    base = {}
    for q in r.prints[0]["q"]:
        for t in q["t0"]:
            t = E.uncodes(t)
            base[t] = [fps(std.compile(t), d, CTX, "~" not in t) for d in (DOC, DOC["a"])]
    k = c.n(3, 1)
    for w in range(WAYS):
        for q in r.prints[0]["q"]:
            for t in q["t0"]:
                t = E.uncodes(t)
                base[t, w] = others(std, std.compile(t), t, DOC, CTX, "~" not in t, w)

    def one(p, bad):
        T = {i: E.uncodes(p["T"][i]) for i in ATTR}
        env = env_for(jp, T)
        n = 0
        for q in p["q"]:
            for t, t0 in zip(q["t"], q["t0"]):
                t, t0 = E.uncodes(t), E.uncodes(t0)
                o, x = core.call(env.compile, t)
                n += 1
                if o != "ok":
                    bad(f"refused with other spellings: {core.ename(x)}", {"query": t, "spellings": T, "default": t0, "error": str(x)})
                    continue
                got = [fps(x, d, CTX, "~" not in t0) for d in (DOC, DOC["a"])]
                if got != base[t0]:
                    bad("evaluates differently with other spellings", {"query": t, "spellings": T, "default": t0, "got": got, "want": base[t0]})
                w = (n + p["n"]) % WAYS
                got = others(env, x, t, DOC, CTX, "~" not in t0, w)
                if got != base[t0, w]:
                    bad("evaluates differently with other spellings through another entry point", {"query": t, "spellings": T, "default": t0, "entry": w, "got": got, "want": base[t0, w]})
                o, y = core.call(lambda: env.compile(str(x)))
                if o != "ok":
                    bad(f"the text of a compiled query does not compile: {core.ename(y)}", {"query": t, "spellings": T, "printed": str(x)})
                elif str(y) != str(x):
                    bad("the text of a compiled query is not a fixed point", {"query": t, "spellings": T, "printed": str(x), "again": str(y)})
                elif [fps(y, d, CTX, "~" not in t0) for d in (DOC, DOC["a"])] != base[t0]:
                    bad("the recompiled query gives other matches", {"query": t, "spellings": T, "printed": str(x)})
        return n
    c.replay([{**x, "n": n} for n, x in enumerate(r.prints[::k])], one, "renamed queries")


def placed(c, jp):
    """Every operand in every position, under a few odd assignments."""
    r = c13.placed(c, "OutAlts", "OutTables", "AltInverse")
    tables = [[{i: E.uncodes(T[i]) for i in ATTR} for T in p["T"]] for p in r.prints if "T" in p][0]
    cases = [p for p in r.prints if "u" in p]
    std = jp.JSONPathEnvironment()
    docs = c13.PLACE_DOCS[1:]

    def one(p, bad):
        t0 = E.uncodes(p["t"])
        keys = "~" not in t0
        o, q0 = core.call(std.compile, t0)
        want = [fps(q0, d, c13.PLACE_CTX, keys) for d in docs] if o == "ok" else None
        for T, u in zip(tables, p["u"]):
            t = E.uncodes(u)
            o, q = core.call(env_for(jp, T).compile, t)
            info = {"query": t, "spellings": T, "default": t0}
            if (o == "ok") != (want is not None):
                bad("refused with some spellings only", {**info, "error": repr(q) if o != "ok" else repr(q0)})
            elif o == "ok":
                got = [fps(q, d, c13.PLACE_CTX, keys) for d in docs]
                if got != want:
                    bad("evaluates differently with other spellings", {**info, "got": got, "want": want})
                o, y = core.call(lambda: env_for(jp, T).compile(str(q)))
                if o != "ok":
                    bad(f"the text of a compiled query does not compile: {core.ename(y)}", {**info, "printed": str(q)})
                elif str(y) != str(q) or [fps(y, d, c13.PLACE_CTX, keys) for d in docs] != want:
                    bad("the recompiled query is another one", {**info, "printed": str(q), "again": str(y)})
        return len(tables)
    c.replay(cases[::c.n(2, 1)], one, "operands in every position, renamed")


PUNCT = ["%", "%%", "%$", "$", "$$", "$%", "@", "@@", "@$", "^", "^^", "#", "##", "~", "~~", "_", "{", "}", "{}", ";", ";;", "`", "+", "++", "\\", "\\\\", "%{", "@@@", "$$$", "{{", "+%"]
WORDS = ["ROOT", "SELF", "ROOTED", "KEY", "CTX", "FAKE", "thisNode", "¤%", "§", "é☺", "ROOT-node"]


def assignment(r):
    T = dict(gen.STD)
    ids = [i for i in T if i not in ("union", "inter")]
    k = r.randrange(5)
    if k == 0:  # one is a prefix of another
        w = r.pick(PUNCT)
        a, b = r.sample(ids, 2)
        T[a], T[b] = w, w + r.pick(PUNCT)
    elif k == 1:  # a permutation of the default ones
        p = r.sample(ids, len(ids))
        T = {**T, **{i: gen.STD[j] for i, j in zip(ids, p)}}
    elif k == 2:
        for i in r.sample(ids, r.pick([1, 2, 3])):
            T[i] = r.pick(PUNCT + ([] if i == "keys" else WORDS))
    else:
        for i in ids:
            if r.p(0.7):
                T[i] = r.pick(PUNCT if i == "keys" or r.p(0.8) else WORDS)
    if r.p(0.15):
        T["keys"] = r.pick(["*~", "*%"])
    if r.p(0.3):
        T["union"], T["inter"] = r.pick([("&", "|"), ("%", "&"), ("|", "+"), ("+", "++"), ("||>" if False else "|", "&"), ("{", "}"), ("UNION", "INTERSECT"), (";", "`")])
    # (after a dot, a keys selector that begins like a name would be a name)
    return T if len(set(T.values())) == 8 and T["keys"] != "_" else assignment(r)


def random_tokens(c, jp, st):
    r = c.rng("tokens")
    std = jp.JSONPathEnvironment()
    rec = Recorder(c)
    total = 0
    for n in range(c.n(350, 4000)):
        T = assignment(r)
        env = env_for(jp, T)
        st.env, st.table = env, table(T)
        doc = gen.gen_doc(r)
        ctx = {"a": gen.gen_prim(r), "b": [1, {"a": 2}], "c": {"a": gen.gen_prim(r)}}
        docs = [doc, c09.perturb(r, doc), c11.small_doc(r)]
        di, ci = [st.rec.doc(d) for d in docs], st.rec.doc(ctx)
        for m in range(4):
            qs = []
            for _ in range(r.pick([1, 1, 1, 2, 3])):
                q = gen.QGen(r, doc, ext=True, fdepth=r.pick([1, 2])).any()
                if r.p(0.15):
                    q = ("q", "fake", q[2])
                qs.append(q)
            ops = [r.pick(["union", "inter"]) for _ in qs[1:]]
            words = r.p(0.5)
            text = []
            for toks in (T, gen.STD):  # the same spelling decisions twice
                s = [gen.Spell(gen.Rng(f"{c.seed}:{n}:{m}:{k}"), toks=toks, words=words).query(q, top=True) for k, q in enumerate(qs)]
                text.append(s[0] + "".join(f" {toks[op]} {x}" for op, x in zip(ops, s[1:])))
            t, t0 = text
            o, q = core.call(env.compile, t)
            o0, q0 = core.call(std.compile, t0)
            ids = {}
            num = lambda xs: [ids.setdefault(x, len(ids) + 1) for x in xs]  # noqa: E731
            res = [{"a": num(fps(q, d, ctx, "~" not in t0)), "b": num(fps(q0, d, ctx, "~" not in t0))} for d in docs] if o == o0 == "ok" else []
            if res:
                w = n + m
                res.append({"a": num(others(env, q, t, doc, ctx, "~" not in t0, w)), "b": num(others(std, q0, t0, doc, ctx, "~" not in t0, w))})
            total += 1
            rec.add({"k": "tok", "t": E.codes(t), "T": table(T), "t0": E.codes(t0), "o": o if o == "ok" else core.ename(q), "o0": o0 if o0 == "ok" else core.ename(q0), "r": res},
                    query=t, spellings=T, default=t0, docs=docs, context=ctx, outcome=repr(q)[:200] if o != "ok" else "ok")
            if m < 2:
                f = st.facts(t, docs, ctx)
                if f:
                    st.rec.add({"k": "str", "t": E.codes(t), "T": table(T), "s": E.codes(f["s"]), "s2": E.codes(f["s2"]), "o": f["o"], "r": f["r"],
                                "docs": di, "c": ci}, query=t, spellings=T, printed=f["s"], again=f["s2"], compiled=f["o"], docs=docs)
    c.count("random renamings", total)
    rec.judge()
    st.rec.judge(key="string forms")


def run(c):
    jp = core.load_repo()
    st = c10.Strs(c, None, jp.JSONPathError)
    explored(c, jp, st)
    placed(c, jp)
    random_tokens(c, jp, st)
