"""Random JSON Pointers, relative pointers and patches (inputs only)."""
from __future__ import annotations

import copy
import itertools

from . import enc as E
from .gen import NAMES, all_nodes, gen_doc, gen_name, gen_value

EXTRA = ["00", "007", "\u0663", "\u00b2", "1.0", "0x1", "+0", "--1", "-0", "\ud800", "\udc00x", "x\udfff", "\\ud83d\\ude00", "1 ", "\t1",
         "~~", "//", "~/", "/~", "%25", "%", "a%20b", "#", "#1", "#0", "##a", "~b", "\u2003", "\x1c", "9007199254740991", "4294967296"]


def esc(tok):
    return tok.replace("~", "~0").replace("/", "~1")


def text(toks):
    return "".join("/" + esc(str(t)) for t in toks)


def ptr_doc(r, distinct=True, **k):
    d = gen_doc(r, scalar_root=0.0, **k)
    it = itertools.count(1000)

    def go(v):
        if isinstance(v, dict):
            out = {}
            for n, x in v.items():
                if r.p(0.12):
                    n = r.pick(EXTRA)
                elif r.p(0.05):
                    n = "#" + n
                out[n] = go(x)
            return out
        if isinstance(v, list):
            return [go(x) for x in v]
        if distinct:
            n = next(it)
            return n if r.p(0.6) else f"s{n}"
        return v
    return go(d)


def nodes_at(doc, obj, toks_of=True):
    """Token lists of the nodes that are this very object (or an equal primitive)."""
    out = []
    for loc, v in all_nodes(doc):
        if v is obj if isinstance(obj, (dict, list)) else type(v) is type(obj) and v == obj:
            out.append([E.codes(str(p)) for p in loc])
    return out


def rand_tok(r, v):
    """A token to apply to v: good, close, or odd."""
    k = r.randrange(10)
    if isinstance(v, dict) and v and k < 6:
        n = r.pick(list(v))
        return n if k else r.pick([n + "x", n[:-1], n.swapcase(), "#" + n, "~" + n, n + " "])
    if isinstance(v, list) and k < 7:
        n = r.randrange(len(v) + 2)
        if k < 5:
            return str(n)
        return r.pick([f"0{n}", f"+{n}", f"-{n}", f"{n} ", f"{n}.0", f"{n}e0", f"#{n}", "-", f"{n}_0", chr(0x660 + n % 10), f"{n}\n", "", f"{n}L",
                       "1" + str(n), str(10**17 + n), str(10**30)])
    return r.pick(EXTRA) if r.p(0.3) else gen_name(r, 0.6)


def rand_toks(r, doc, miss=0.35):
    """A token list: a node's, possibly continued or damaged."""
    loc, v = r.pick(list(all_nodes(doc)))
    toks = [str(p) for p in loc]
    if r.p(miss):
        k = r.randrange(4)
        if k == 0 and toks:
            i = r.randrange(len(toks))
            par = doc
            for p in loc[:i]:
                par = par[p]
            toks[i] = rand_tok(r, par)
        elif k == 1 and toks and r.p(0.5):
            toks.pop(r.randrange(len(toks)))
        else:
            toks.append(rand_tok(r, v))
            if r.p(0.2):
                toks.append(r.pick(NAMES))
    return toks


def rand_rel(r, depth):
    up = r.pick([0, 0, 1, 1, 2, 3, depth, depth + 1, 10, 123456789012345678901])
    t = str(up)
    if r.p(0.35):
        t += r.pick("+-") + str(r.pick([1, 1, 2, 3, 5, 9, 10, 11, 19, 100, 12345678901234567890, 0]))
    k = r.randrange(10)
    if k < 3:
        t += "#"
    elif k < 8:
        t += text([r.pick(NAMES) if r.p(0.5) else r.pick(["a", "0", "1", ""]) for _ in range(r.pick([1, 1, 2]))])
    if r.p(0.06):
        t = r.pick(["0" + t, "+" + t, "-" + t, t + "#", t + "x", "", "#", "/a", t.replace("+", "+0"), t + " "])
    return t


def rand_build(r, doc, depth=3):
    """How a pointer comes about: the description, and the code that does it."""
    k = r.randrange(10)
    if depth == 0 or k < 3:
        return {"s": "text", "t": E.codes(text(rand_toks(r, doc))), "ue": r.p(0.5)}
    if k < 6:
        return {"s": "parts", "p": [E.codes(t) for t in rand_toks(r, doc)], "ue": r.p(0.5), "ints": r.p(0.5)}
    b = rand_build(r, doc, depth - 1)
    if k < 8:
        j = r.randrange(6)
        t = esc(rand_tok(r, {} if r.p(0.3) else [1, 2]))
        if j == 0:
            t = text(rand_toks(r, doc))
        elif j == 1:
            t += text(rand_toks(r, doc))
        return {"s": "join", "b": b, "t": E.codes(t), "op": r.pick(["join", "/"])}
    if k < 9:
        return {"s": "parent", "b": b}
    t = r.pick(["0", "1", "0/a", "1/b", "0+1", "0-1", "1/0", "2/x/y", "0/~1", "1/"])
    return {"s": "rel", "b": b, "t": E.codes(t), "how": r.randrange(2)}


def construct(jp, b):
    """Build the pointer a description describes."""
    P = jp.JSONPointer
    s = b["s"]
    if s == "text":
        return P(E.uncodes(b["t"]), unicode_escape=b["ue"])
    if s == "parts":
        ps = [E.uncodes(t) for t in b["p"]]
        if b.get("ints"):
            ps = [int(t) if t.isascii() and t.isdigit() and (t == "0" or t[0] != "0") else t for t in ps]
        return P.from_parts(ps, unicode_escape=b["ue"])
    p = construct(jp, b["b"])
    if s == "join":
        t = E.uncodes(b["t"])
        return p / t if b.get("op") == "/" else p.join(t)
    if s == "parent":
        return p.parent()
    t = E.uncodes(b["t"])
    return p.to(t) if b.get("how") else jp.RelativeJSONPointer(t).to(p)


def rand_patch(r, doc, ext=True, n=None):
    """A list of operations biased towards the document as it evolves (values are copied by the caller)."""
    ops = []
    kinds = ["add"] * 4 + ["remove"] * 2 + ["replace"] * 2 + ["move"] * 3 + ["copy"] * 3 + ["test"] * 2 + (["addne", "addap"] if ext else [])
    places = []
    for _ in range(n if n is not None else r.pick([1, 1, 2, 2, 3, 4, 6])):
        op = r.pick(kinds)

        def path():
            if places and r.p(0.35):   # below or at a place an earlier operation touched
                base = list(r.pick(places))
                if r.p(0.5):
                    base.append(r.pick(["-", "0", "1", "a", "b", ""]))
                return base
            toks = rand_toks(r, doc, 0.25)
            if r.p(0.3):
                v = doc
                for t in toks:
                    try:
                        v = v[int(t)] if isinstance(v, list) else v[t]
                    except (KeyError, IndexError, ValueError, TypeError):
                        break
                toks = toks + [r.pick(["-", str(len(v))]) if isinstance(v, list) else gen_name(r, 0.5)]
            return toks
        p = path()
        o = {"op": op, "path": text(p)}
        if op in ("move", "copy"):
            o["from"] = text(path())
        if op in ("add", "replace", "test", "addne", "addap"):
            if op == "test" and r.p(0.7):
                nodes = [v for loc, v in all_nodes(doc) if [str(x) for x in loc] == p]
                o["value"] = tweak(r, copy.deepcopy(nodes[0])) if nodes else gen_value(r, 1)
            else:
                o["value"] = gen_value(r, 2)
        places.append(p)
        ops.append(o)
    return ops


def tweak(r, v):
    """Mostly v itself; sometimes a near miss."""
    if r.p(0.6):
        return v
    if isinstance(v, dict):
        if not v:
            return []
        k = r.randrange(4)
        if k == 0:
            return dict(reversed(list(v.items())))
        n = r.pick(list(v))
        if k == 1:
            return {a: b for a, b in v.items() if a != n}
        return {**v, n: tweak(r, v[n])}
    if isinstance(v, list):
        if not v:
            return {}
        k = r.randrange(3)
        if k == 0:
            return v[:-1]
        i = r.randrange(len(v))
        return v[:i] + [tweak(r, v[i])] + v[i + 1:]
    if v is True or v is False:
        return int(v)
    if v in (0, 1) and isinstance(v, (int, float)):
        return r.pick([bool(v), float(v)])
    return r.pick([None, v, str(v), 0, False, ""])


def enc_ops(ops):
    return [{"op": o["op"], "path": E.codes(o["path"]), "from": E.codes(o.get("from", "")), "value": E.enc(o.get("value"))} for o in ops]


def aliased(v):
    """Does any container occur twice in the value?"""
    seen = set()
    for _, x in all_nodes(v):
        if isinstance(x, (dict, list)):
            if id(x) in seen:
                return True
            seen.add(id(x))
    return False
