"""C06: error families, termination."""
import copy
import io
import json

from vh import ptr, soup

from checks.common import *  # noqa: F403

DOCS = [
    [None, True, False, 0, -1, 1.5, "", "a", "ab", [], {}, ["a", 1, None, {"a": 1}, ["a"]], {"a": "a", "b": [1, "b", None], "": {}, "~": 1, "0": {"a": [1]}}],
    {"a": 1, "b": "x", "c": None, "d": [1, "a", {"a": []}], "e": {"a": {"a": "b"}, "b": True}, "f": 1e300, "$": {}, "_": False},
    {"a": {"a": [{"a": None}, "a", 3]}, "b": [[[1], "b"], {}], "é": "\U0001F600", "'": "\ud800", "length": 2},
    [], {}, None, True, 0, 1.5,
]
DEEP = "9" * 5000
TOKENS = [t for t in soup.POOL] + [DEEP, "-" + DEEP, "1e" + DEEP, "1." + DEEP, "$$", "@@", "^^", "~~", "'\\ud83d'", "'\\u12'", "'\\uZZZZ'", "'\\u", "\\'", "/a{99999999999}/", "/(?P<a>x)(?P<a>y)/",
                                   "/[z-a]/", "/(?<=a*)b/", "/\\/", "//", "/a/x", "/(?i)a/", "'['", "'('", "'*'", "'a{2,1}'", "'\\\\'", "match(@, '[')", "search('a', @)", "match(1, 2)", "count()",
                                   "length", "length(", "length(1, 2)", "value()", "not", "@[?@.a]", "1_000", "1e", "1e+", "-", "--1", "1.5.5", "0e0", "[1,", "['a', 1]", "[@.a]", "{}", "~a", "#a", "_a", "^a", "_.a.b", "#.a"]
SMALLPOOL = ["$", "@", "^", "#", "_", "~", "*", ".", "..", "[", "]", "(", ")", "?", "!", ",", ":", "&", "|", "&&", "==", "<", "=~", "in", "contains", "and", "not", "true", "undefined", "'a'", "''", "0", "-1", "1e400",
             "9007199254740993", "/(/", "/a/i", "[1, 'a']", "a", "count(", "match(@, '[')", "typeof(@)", "@.a", "$..*", "@['a']", " ", "\\", "'", "/", "-", "1.5"]
CTXS = [("", ""), ("$", ""), ("$[", "]"), ("$[", ""), ("$[?", "]"), ("$[?@.a ", "]"), ("$[?@.a == ", "]"), ("$[?", " == @.a]"), ("$[?length(", ") == 1]"), ("$..", ""), ("$[?@ in ", "]"), ("$['", "']"),
        ('$["', '"]'), ("$[?@ =~ /", "/]"), ("$[?@ contains ", "]"), ("$[?match(@, ", ")]"), ("$[?is(@, ", ")]"), ("$[?search(@, '", "')]"), ("$.a | ", ""), ("$[?@ < ", "]"), ("$[?[", "] == @]")]
PTOKENS = ["/", "~", "~0", "~1", "~2", "\\u0041", "\\ud800", "\\ud83d\\ude00", "\\u", "\\uZZ", "\\", "\\n", '"', "%", "%41", "%zz", "%ff", "%2F", "#", "-", "0", "1", "-1", "01", DEEP, "-" + DEEP, "a", "é", "\ud800", " ",
           "\x00", "\n", "+", "+1", "\u00b9", "\u0663", "1e5", "1_0", "0x1", "\\x41", "\\N{DASH}", "\U0001F600", "9007199254740993"]
PCTXS = [("", ""), ("/", ""), ("/a/", ""), ("/0", ""), ("0", ""), ("1", "/a"), ("2+", ""), ("0-", "#"), ("1", "#"), ("0-1/", "")]
BASES = ["", "/a", "/a/0", "/0/1/2", "/a/b/-", "/a/9007199254740991", "/-1/01"]
VALUES = [None, True, 0, -1, 1.5, "", "a", "/a", "add", "/\\ud800", "/%zz", "/0", "/a/-", [], {}, [1], {"a": 1}, "test", "/" + DEEP]


def families(e):
    return tuple(sorted(t.__name__ for t in type(e).__mro__ if t.__module__.startswith("jsonpath")))


def ended(c, fn, *a, **k):
    """One call's end: (call, outcome, families, rendered, name), and its value."""
    o, v = core.call(fn, *a, **k)
    if o == "ok":
        return (c, "value", (), True, ""), v
    try:
        r = isinstance(str(v), str)
    except Exception:  # noqa: BLE001
        r = False
    return (c, "error", families(v), r, core.ename(v)), None


def consume(jp, path, doc, how, ctx):
    if how == 0:
        return path.findall(doc, filter_context=ctx)
    if how == 1:
        return [(m.obj, m.path, m.parts) for m in path.finditer(doc, filter_context=ctx)]
    if how == 2:
        return path.match(doc)
    return [list(jp.query(str(path), doc).values()), str(path)]


def query_session(jp, t, docs, how=0, ctx=None):
    h, path = ended("compile", jp.compile, t)
    hs = [h]
    if path is not None:
        for d in docs:
            hs.append(ended("evaluate", consume, jp, path, d, how if how != 3 else 0, ctx)[0])
            if hs[-1][1] == "error":
                break
    elif how == 1 and docs:
        hs.append(ended("find", jp.findall, t, docs[0])[0])
    elif how == 3 and docs:
        hs.append(ended("find", lambda: list(jp.query(t, docs[0])))[0])
    return tuple(hs)


def pointer_session(jp, t, docs, ue=True, uri=False):
    h, p = ended("pointer", jp.JSONPointer, t, unicode_escape=ue, uri_decode=uri)
    hs = [h]
    if p is not None:
        for d in docs:
            hs += [ended("resolve", p.resolve, d)[0], ended("exists", p.exists, d)[0], ended("resolve", p.resolve_parent, d)[0], ended("resolve", p.resolve, d, default=1)[0]]
        hs.append(ended("pointer", p.join, t)[0])
        hs.append(ended("pointer", lambda: p / t)[0])
    hs.append(ended("at", jp.pointer.resolve, t, docs[0], unicode_escape=ue, uri_decode=uri)[0])
    return tuple(dict.fromkeys(hs))


def relative_session(jp, t, ue=True, uri=False):
    h, p = ended("relative", jp.RelativeJSONPointer, t, unicode_escape=ue, uri_decode=uri)
    hs = [h]
    for b in BASES:
        base = jp.JSONPointer(b)
        if p is not None:
            hs.append(ended("to", p.to, base)[0])
            hs.append(ended("to", p.to, b)[0])
        hs.append(ended("move", base.to, t, unicode_escape=ue, uri_decode=uri)[0])
    return tuple(dict.fromkeys(hs))


def patch_session(jp, ops, docs, ue=True, uri=False):
    h, p = ended("build", jp.JSONPatch, copy.deepcopy(ops), unicode_escape=ue, uri_decode=uri)
    hs = [h]
    for d in docs:
        if p is not None:
            hs.append(ended("apply", p.apply, copy.deepcopy(d))[0])
        hs.append(ended("patch", jp.patch.apply, copy.deepcopy(ops), copy.deepcopy(d), unicode_escape=ue, uri_decode=uri)[0])
        hs.append(ended("patch", jp.patch.apply, io.StringIO(json.dumps(ops)), copy.deepcopy(d), unicode_escape=ue, uri_decode=uri)[0])
    return tuple(dict.fromkeys(hs))


def char_noise(r, t):
    cs = list(t)
    for _ in range(r.pick([1, 1, 2])):
        i = r.randrange(len(cs) + 1)
        k = r.randrange(3)
        if k == 0 and cs:
            del cs[i % len(cs)]
        elif k == 1:
            cs.insert(i, r.pick("$@^#_~*.[](){}?!,:&|=<>'\"/\\-+0123456789aeEnutf \t\n\x00é\ud800\U0001F600%;`"))
        elif cs:
            j = r.randrange(len(cs))
            cs[i % len(cs)], cs[j] = cs[j], cs[i % len(cs)]
    return "".join(cs)


def odd_op(r, doc):
    k = r.randrange(12)
    if k == 0:
        return r.pick(VALUES)
    o = dict(ptr.rand_patch(r, doc, n=1)[0])
    if k < 9:
        for _ in range(r.pick([1, 1, 2])):
            n = r.pick([*o, "op", "path", "from", "value", "x"])
            if r.p(0.3):
                o.pop(n, None)
            else:
                o[n] = r.pick(VALUES) if r.p(0.6) else r.pick(["add", "remove", "replace", "move", "copy", "test", "addne", "addap", "Add", "nosuch"])
    return o


def nests():
    """As deep as is claimed: a hundred levels of brackets."""
    out = []
    for n in (2, 20, 50, 99):
        m = n // 2
        out += ["$[?" + "(" * n + "@.a" + ")" * n + "]", "$[?" + "!(" * n + "@.a" + ")" * n + "]", "$" + "[?@" * n + "]" * n, "$" + "[?@.a" * n + " == 1" + "]" * n, "$" + "[?($.a && @" * m + ")]" * m,
                "$[?" + "length(" * n + "@.a" + ")" * n + " == 1]", "$[?" + "count(@[?" * m + "@.a" + "]) > 0" * m + "]", "$" + "..*" * n, "$" + ".a[0]" * n, "$[?" + "@.a && " * n + "@.b]",
                "$[?" + "@.a || " * n + "!@.b]", "$" + " | $.a" * n, "$[?" + "(" * n + "@.a", "$[?" + "[" * n + "1" + "]" * n + " == @]", "$" + "[" * n, "$" + "[?@" * n, "!" * n, "$[?" + "!" * n + "@]", "(" * n, "$[" + "'a'," * n + "0]",
                "$[?@.a == " + "'" * n + "]", "$[?@ in " + "[" * n + "]", "$" + "." * n, "$[?" + "@.a == " * n + "1]", "$[?" + "not " * n + "@.a]"]
    return out


def deep_doc(n, leaf=1):
    x = leaf
    for i in range(n):
        x = {"a": x, "b": 1} if i % 2 else [x, 0]
    return x


# numbers outside what binary64 holds
HUGE = [10**400, -(10**400), 10**400 + 1, 2**1024, 2**1024 - 1, -(2**63), 1e999, -1e999, 1.7976931348623157e308, -1e308, 5e-324, 1.5, 0, -0.0, 1, True, "1", None, [10**400], {"a": 1e999}]
RELOPS = ["==", "!=", "<>", "<", "<=", ">", ">=", "in", "contains", "=~"]


def huge_sessions(jp, thorough):
    """Comparisons and functions of those numbers."""
    lits = ["1.5", "1e308", "-1e308", "1e400", "-1e400", "1" + "0" * 320, "-1" + "0" * 320, "5e-324", "1e-400", "9007199254740993", "true", "'1'", "[1, 1.5]"]
    pairs = [[a, b] for a in HUGE for b in HUGE]
    for op in RELOPS:
        for t in (f"$[?@[0] {op} @[1]]", f"$[?$[0][0] {op} @[1]]", f"$[?!(@[0] {op} @[1]) && @[0] {op} $[7][1]]"):
            if op == "=~":
                t = t.replace("@[1]", "/1.*/").replace("$[7][1]", "/e/")
            yield query_session(jp, t, [pairs, {str(i): p for i, p in enumerate(pairs)}]), {"query": t, "docs": "pairs of huge numbers"}
        for x in lits if op != "=~" else []:
            for t in (f"$[?@ {op} {x}]", f"$[?{x} {op} @]", f"$..[?@.a {op} {x}]", f"$[?{x} {op} {lits[3]}]"):
                yield query_session(jp, t, [HUGE]), {"query": t, "docs": "huge numbers"}
    for t in ("$[?length(@) == 1]", "$[?count(@) > 1e999]", "$[?match(@, '1')]", "$[?search('1', @)]", "$[?value(@) >= value($[0])]", "$[?typeof(@) == 'number']", "$[?is(@, 'number')]", "$[?@ in $[18]]", "$[?@ in $]", "$[?$ contains @]",
              "$[?length(@[0]) < $[0]]", "$[?# == $[0]]", "$[?_.a > @]", "$[?@ <= _.b]", "$[?@ in [1e999, 1.5]]"):
        for how in range(4):
            yield query_session(jp, t, [HUGE, [HUGE]], how, {"a": 10**400, "b": 1e999}), {"query": t, "docs": "huge numbers"}
    for v in HUGE:
        ops = [{"op": "add", "path": "/-", "value": v}, {"op": "test", "path": "/6", "value": v}]
        yield patch_session(jp, ops, [list(HUGE)]), {"patch": "adds and tests a huge number"}
        yield patch_session(jp, [{"op": "test", "path": "", "value": v}], HUGE), {"patch": "tests for a huge number"}
        yield patch_session(jp, [{"op": "add", "path": v, "value": 1}, {"op": v, "path": ""}], [HUGE]), {"patch": "with a huge number for a path"}


def run(c):
    import sys
    jp = core.load_repo()
    docs = DOCS
    seen = {}

    def add(found):
        for k, (info, n) in found.items():
            seen.setdefault(k, (info, 0))
            seen[k] = (seen[k][0], seen[k][1] + n)
    # every short sequence of tokens
    for name, pool, ctxs, depth in [("query texts", TOKENS, CTXS, 2), *([("longer query texts", SMALLPOOL, CTXS, 3)] if c.thorough else [("longer query texts", SMALLPOOL[::2], [CTXS[0], CTXS[2], CTXS[4]], 3)])]:
        r = c.explore("MC_Soup", f"INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS MaxToks={depth} NToks={len(pool)} NCtxs={len(ctxs)}\n", key=name, timeout=1500, heap="12g")

        def one(p):
            a, z = ctxs[p[0] - 1]
            t = a + "".join(pool[i - 1] for i in p[1:]) + z
            return [(query_session(jp, t, docs[:4] if len(t) % 5 else docs, how=len(t) % 4), {"query": t})]
        add(c.gather(r.prints, one, name))
    r = c.explore("MC_Soup", f"INIT Init\nNEXT Next\nINVARIANT Out\nCONSTANTS MaxToks=2 NToks={len(PTOKENS)} NCtxs={len(PCTXS)}\n", key="pointer texts")

    def onep(p):
        a, z = PCTXS[p[0] - 1]
        t = a + "".join(PTOKENS[i - 1] for i in p[1:]) + z
        out = []
        for ue, uri in ((True, False), (True, True), (False, False)) if c.thorough or len(t) % 3 == 0 else ((True, len(t) % 2 == 0),):
            out.append((pointer_session(jp, t, docs[:3], ue, uri), {"pointer": t[:200], "unicode_escape": ue, "uri_decode": uri}))
            out.append((relative_session(jp, t, ue, uri), {"relative pointer": t[:200], "unicode_escape": ue, "uri_decode": uri}))
            out.append((patch_session(jp, [{"op": "add", "path": t, "value": 1}, {"op": "move", "from": t, "path": "/a"}], docs[1:2], ue, uri), {"patch path": t[:200], "unicode_escape": ue, "uri_decode": uri}))
        return out
    add(c.gather(r.prints, onep, "pointer texts"))
    # long ones
    units = [u for u in [*SMALLPOOL, *PTOKENS, "'\\\\", "\\'", "/a", "a b ", "a\n", "1e", "'a',", "[", "(", ":", "1:", "\\u0041", "0.", "$.a|", "a.b.", "~1", "/~", "/*", "..a"] if len(u) < 100 and u not in ("[", "(", "!", "^", "not")]

    def long(u):
        out = []
        for n in (500, c.n(3000, 12000)):
            for a, z in (("", ""), ("$[?", "]"), ("$['", "']"), ("$[?@ =~ /", "/]"), ("$[?@.a == ", "]")):
                t = a + u * n + z
                out.append((query_session(jp, t, [{"a": 1}]), {"query": a + u + "..." + z, "repeated": n}))
            t = "/" + u * n
            out.append((pointer_session(jp, t, [{"a": 1}]), {"pointer": t[:40], "repeated": n}))
            out.append((relative_session(jp, "1" + u * n), {"relative pointer": t[:40], "repeated": n}))
        # deeply nested ones are outside the claim
        return [(k, i) for k, i in out if not any(h[4] == "RecursionError" for h in k)]
    add(c.gather(units, long, "long texts"))
    # as deep as is claimed
    lim = sys.getrecursionlimit()
    sys.setrecursionlimit(1000 + len(__import__("inspect").stack()))
    deep = [deep_doc(99), [deep_doc(99), deep_doc(98)], DOCS[0]]
    try:
        for t in nests():
            for how in range(3):
                add({query_session(jp, t, deep if "..*..*" not in t and "...." not in t else [1, [1], {"a": [1]}], how): ({"query": t[:120], "length": len(t), "how": how}, 1)})
        for t in ("/a/0" * 50, "/0/a" * 49, "/0" * 99, "/a" * 2000):
            add({pointer_session(jp, t, deep): ({"pointer": t[:100]}, 1), patch_session(jp, [{"op": "add", "path": t, "value": deep_doc(30)}], deep): ({"patch path": t[:100]}, 1)})
        add({patch_session(jp, [{"op": "add", "path": "/0", "value": deep_doc(99)}, {"op": "copy", "from": "/0", "path": "/1"}, {"op": "test", "path": "/1", "value": deep_doc(99)}], deep): ({"patch": "deep values"}, 1)})
    finally:
        sys.setrecursionlimit(lim)
    for key, info in huge_sessions(jp, c.thorough):
        add({key: (info, 1)})
    # around well-formed ones
    def rand(k):
        r = c.rng(f"near{k}")
        doc = gen.gen_doc(r, depth=r.pick([2, 3]), odd=0.5)
        out = []
        for _ in range(12):
            j = r.randrange(10)
            if j < 6:
                t = gen.Spell(r, words=r.p(0.4), rootless=r.p(0.2)).query(gen.QGen(r, doc, ext=r.p(0.7)).any(), top=True)
                m = r.randrange(7)
                t = t if m == 0 else soup.disturb(r, t) if m < 3 else soup.regroup(r, t) if m == 3 else char_noise(r, t) if m == 4 else soup.soup(r) if m == 5 else t[:r.randrange(len(t) + 1)]
                ctx = {"a": doc, "b": "a", "c": [1, "b"]} if r.p(0.7) else None
                out.append((query_session(jp, t, [doc, *([docs[r.randrange(9)]] if r.p(0.5) else [])], r.randrange(4), ctx), {"query": t, "doc": doc, "context": ctx}))
            elif j < 7:
                t = char_noise(r, ptr.text(ptr.rand_toks(r, doc)))
                ue, uri = r.p(0.6), r.p(0.4)
                out.append((pointer_session(jp, t, [doc], ue, uri), {"pointer": t, "doc": doc, "unicode_escape": ue, "uri_decode": uri}))
            elif j < 8:
                t = ptr.rand_rel(r, 3)
                t = char_noise(r, t if isinstance(t, str) else str(t))
                ue, uri = r.p(0.6), r.p(0.4)
                out.append((relative_session(jp, t, ue, uri), {"relative pointer": t, "unicode_escape": ue, "uri_decode": uri}))
            else:
                d2 = ptr.ptr_doc(r) if r.p(0.7) else r.pick(docs)
                ops = [odd_op(r, d2) if not isinstance(d2, (bool, int, float, type(None))) else odd_op(r, doc) for _ in range(r.pick([1, 1, 2, 4]))]
                ue, uri = r.p(0.6), r.p(0.4)
                out.append((patch_session(jp, ops, [d2], ue, uri), {"patch": ops, "doc": d2, "unicode_escape": ue, "uri_decode": uri}))
        return out
    add(c.gather(list(range(c.n(9000, 80000))), rand, "near well-formed texts"))
    rec = Recorder(c)
    for key, (info, n) in sorted(seen.items(), key=lambda x: repr(x[0])):
        rec.add({"k": "family", "h": [{"c": h[0], "o": h[1], "f": list(h[2]), "r": h[3], "e": h[4]} for h in key]}, **info, alike=n)
    rec.judge(key="distinct sessions")
    c.traces += sum(n for _, n in seen.values()) - len(seen)
    c.sample({"session": [h[:2] for h in next(iter(seen))], "of": next(iter(seen.values()))[0]})
