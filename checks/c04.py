"""C04: JSON Pointer resolution."""
import io
import json

from vh import ptr

from checks.common import *  # noqa: F403

DOCS = [
    {"a": [10, [11, 12], {"b": 13}], "b": {"0": 14, "1": [15], "": 16}, "": {"": 17}, "01": 18, "-": 19},
    [20, {"1": 21, "a": 22, "-1": 23, "#0": 24}, [25, []], {}, "text", None, True, 1.5],
    {"~1": 30, "/": {"~": 31, "~0": 32}, "~": 33, "~01": 34, "a/b": [35], "m~n": 36, "\\": 37, "a": "0123"},
    {"#a": 40, "~a": 41, "+1": 42, " 1": 43, "1 ": 44, "1_0": 45, "\u0661": 46, "00": [47, 48], "1e0": 49, "\u00e9": {"\U0001f600": 50}},
    [[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]],
    {"-1": {"0": "z"}, "0": {"-": "y"}, "10": ["x"]},
]


def outcome(jp, fn, doc, marker=None):
    o, v = core.call(fn)
    if o == "ok":
        if marker is not None and v is marker:
            return "default", [], ""
        return "node", ptr.nodes_at(doc, v), ""
    if isinstance(v, jp.JSONPointerResolutionError):
        return "reserr", [], core.ename(v)
    return ("ptrerr" if isinstance(v, jp.JSONPointerError) else "other"), [], core.ename(v)


def ways(jp, toks, t, ue, doc, src):
    """The ways to resolve a pointer: (name, expected failure, callable, build)."""
    P = jp.JSONPointer
    dflt = object()
    build = {"s": "text", "t": E.codes(t), "ue": ue}
    parts = {"s": "parts", "p": [E.codes(x) for x in toks], "ue": ue}
    yield "resolve", "reserr", lambda: P(t, unicode_escape=ue).resolve(doc), build, None
    yield "resolve(default)", "default", lambda: P(t, unicode_escape=ue).resolve(doc, default=dflt), build, dflt
    yield "pointer.resolve", "reserr", lambda: jp.pointer.resolve(t, doc, unicode_escape=ue), build, None
    yield "pointer.resolve(default)", "default", lambda: jp.pointer.resolve(t, doc, unicode_escape=ue, default=dflt), build, dflt
    yield "from_parts", "reserr", lambda: P.from_parts(toks, unicode_escape=ue).resolve(doc), parts, None
    yield "pointer.resolve(parts)", "reserr", lambda: jp.pointer.resolve(list(toks), doc, unicode_escape=ue), parts, None


def replay(c, jp, cases, docs, label):
    P = jp.JSONPointer
    mark = object()

    def one(case, bad):
        doc = docs[case["d"] - 1]
        t = E.uncodes(case["t"])
        n = 0
        for ue in (False, True):
            if ue and "\\" in t:
                continue
            info = {"pointer": t, "unicode_escape": ue, "doc": doc}
            o, p = core.call(P, t, unicode_escape=ue)
            if o != "ok":
                bad("pointer not accepted", {**info, "error": repr(p)})
                continue
            o, v = core.call(p.resolve, doc)
            o2, v2 = core.call(p.resolve, doc, default=mark)
            o3, ex = core.call(p.exists, doc)
            n += 3
            if case["r"] == "node":
                want = menus.follow(doc, case["l"])
                if o != "ok" or not strict(v, want):
                    bad("pointer does not resolve to its node", {**info, "got": repr(v), "want": want})
                if o2 != "ok" or not strict(v2, want):
                    bad("pointer with a default does not resolve to its node", {**info, "got": repr(v2)})
                if (o3, ex) != ("ok", True):
                    bad("exists() is wrong", {**info, "got": repr(ex)})
            elif case["r"] == "none":
                if o == "ok":
                    bad("pointer that RFC 6901 cannot evaluate yields a value", {**info, "got": repr(v)})
                elif not isinstance(v, jp.JSONPointerResolutionError):
                    bad("unresolvable pointer fails with " + core.ename(v), info)
                if o2 != "ok" or v2 is not mark:
                    bad("default not returned", {**info, "got": repr(v2)})
                if (o3, ex) != ("ok", False):
                    bad("exists() is wrong", {**info, "got": repr(ex)})
            elif (o == "ok") != (ex is True) or o3 != "ok":
                bad("exists() disagrees with resolve()", {**info, "got": repr(ex)})
        return n
    c.replay(cases, one, label)


def random_ptrs(c, jp, salt, ndocs, nptr, **k):
    r = c.rng(salt)
    rec = Recorder(c)
    for _ in range(ndocs):
        doc = ptr.ptr_doc(r, distinct=r.p(0.7), **k)
        di = rec.doc(doc)
        src = json.dumps(doc)
        for _ in range(nptr):
            toks = ptr.rand_toks(r, doc)
            t = ptr.text(toks)
            ue = r.p(0.5)
            if any(core_huge(x) for x in toks):
                c.skips["index limit"] = c.skips.get("index limit", 0) + 1
                continue
            for name, want, fn, build, dflt in ways(jp, toks, t, ue, doc, src):
                if name not in ("resolve",) and not r.p(0.35):
                    continue
                o, at, err = outcome(jp, fn, doc, dflt)
                rec.add({"k": "ptr", "b": build, "d": di, "o": o, "at": at, "err": err, "want": want},
                        how=name, pointer=t, unicode_escape=ue, doc=doc, outcome=o, error=err)
                if name == "resolve":
                    res = o
            o, v = core.call(lambda: jp.JSONPointer(t, unicode_escape=ue).exists(doc))
            rec.add({"k": "exists", "b": build_text(t, ue), "d": di, "o": str(v).lower() if o == "ok" else "err",
                     "err": "" if o == "ok" else core.ename(v), "res": res}, how="exists", pointer=t, doc=doc, got=repr(v))
            if r.p(0.2):   # the document as text or as a file
                o1, a = core.call(lambda: jp.JSONPointer(t, unicode_escape=ue).resolve(src if r.p(0.5) else io.StringIO(src)))
                o2, b = core.call(lambda: jp.JSONPointer(t, unicode_escape=ue).resolve(doc))
                if o1 != o2 or (o1 == "ok" and not E.same(a, b)) or (o1 != "ok" and type(a) is not type(b)):
                    c.violate("resolving against JSON text differs", {"pointer": t, "doc": src, "text": repr(a), "value": repr(b)})
    rec.judge()


def build_text(t, ue):
    return {"s": "text", "t": E.codes(t), "ue": ue}


def core_huge(x):
    return len(x) >= 16 and x.lstrip("-").isdigit() and x.isascii()


def huge_finding(c, jp):
    """The listed finding: member names spelled like integers beyond the index limit."""
    for n in ("9007199254740992", "-9007199254740992", "123456789012345678901234567890"):
        o, v = core.call(lambda: jp.JSONPointer("/" + n).resolve({n: 1}))
        if o == "ok" and v == 1:
            continue
        if isinstance(v, jp.JSONPointerIndexError):
            c.finding("integer-like member names beyond the index limit cannot be addressed by pointer text")
        else:
            c.violate("member name beyond the index limit", {"name": n, "outcome": repr(v)})


LIFE = [{"a": [1, {"b": 2}], "1": 3}, [4, {"a": 5}, [6]]]


def edit(doc, o, toks, v):
    """The specification's edit, carried out in place on a Python document."""
    at = doc
    for t in toks[:-1]:
        at = at[int(t)] if isinstance(at, list) else at[t]
    k = toks[-1]
    if isinstance(at, list):
        k = int(k)
        if o == "add":
            at.insert(k, v)
        elif o == "remove":
            del at[k]
        else:
            at[k] = v
    elif o == "remove":
        del at[k]
    else:
        at[k] = v


def life(c, jp):
    """Pointers that are built once and resolved against documents that change in place."""
    P = jp.JSONPointer
    mark = object()
    r = c.explore("MC_PtrLife", f"INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Repeats\nCONSTANTS MaxActs={c.n(4, 5)}\n", env=docs_env(c, LIFE))
    pool = next(p for p in r.prints if "edits" in p)
    edits = [(e["o"], [E.uncodes(t) for t in e["p"]], e["v"]) for e in pool["edits"]]
    texts = [E.uncodes(t) for t in pool["ptrs"]]

    def one(case, bad):
        docs = [json.loads(json.dumps(d)) for d in LIFE]
        ptrs = [P(t) for t in texts]
        said = []
        n = 0
        for st in case["h"]:
            doc = docs[st["d"] - 1]
            if st["a"] == "write":
                o, toks, v = edits[st["e"] - 1]
                edit(doc, o, toks, E.dec(v))
                said.append(f"{o} /{'/'.join(toks)} in document {st['d']}")
                continue
            p = ptrs[st["p"] - 1]
            said.append(f"resolve {texts[st['p'] - 1]!r} in document {st['d']}")
            info = {"history": list(said), "document": doc}
            a = core.call(p.resolve, doc)
            b = core.call(p.resolve, doc, default=mark)
            e = core.call(p.exists, doc)
            n += 3
            if st["s"]["r"] == "node":
                want = menus.follow(doc, st["s"]["l"])
                if a[0] != "ok" or not strict(a[1], want) or b[0] != "ok" or not strict(b[1], want) or e != ("ok", True):
                    bad("pointer does not resolve to its node in a document that has changed", {**info, "got": repr((a, b, e)), "want": want})
            elif a[0] == "ok" or not isinstance(a[1], jp.JSONPointerResolutionError) or b[0] != "ok" or b[1] is not mark or e != ("ok", False):
                bad("pointer that no longer resolves yields something", {**info, "got": repr((a, b, e))})
        return n
    c.replay([p for p in r.prints if "h" in p], one, "pointers over changing documents")
    for p in r.prints[-3:]:
        if "h" in p:
            docs = [json.loads(json.dumps(d)) for d in LIFE]
            for st in p["h"]:
                if st["a"] == "write":
                    o, toks, v = edits[st["e"] - 1]
                    edit(docs[st["d"] - 1], o, toks, E.dec(v))
            if [E.enc(d) for d in docs] != p["f"]:
                raise tlc.MachineryError("the harness edits documents otherwise than the specification")


def run(c):
    jp = core.load_repo()
    life(c, jp)
    inv = "INVARIANT Inverse\nINVARIANT Agree\nINVARIANT Lost\n"
    r = c.explore("MC_Pointer", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxLen={c.n(2, 3)}\n", env=docs_env(c, DOCS))
    c.sample({"pointer": E.uncodes(r.prints[7]["t"]), "doc": r.prints[7]["d"], "expect": r.prints[7]["r"]})
    replay(c, jp, r.prints, DOCS, "walked pointers")
    r = c.explore("MC_PtrText", f"INIT Init\nNEXT Next\nINVARIANT Inverse\nCONSTANTS MaxLen={c.n(5, 6)}\n", env=docs_env(c, DOCS))
    replay(c, jp, [{"t": p["t"], "d": i + 1, **q} for p in r.prints for i, q in enumerate(p["d"])], DOCS, "pointer texts")
    random_ptrs(c, jp, "small", c.n(250, 2500), 20)
    random_ptrs(c, jp, "deep", c.n(40, 400), 25, depth=6, maxsize=80, odd=0.8)
    huge_finding(c, jp)
