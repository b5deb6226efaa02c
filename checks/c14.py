"""C14: pointer text, tokens and navigation."""
from vh import ptr

from checks.common import *  # noqa: F403


def steps(jp, bad, info, p, case):
    """Facts about one pointer that the specification has predicted."""
    P = jp.JSONPointer
    want = E.uncodes(case["t"])
    toks = [E.uncodes(t) for t in case["p"]]
    if str(p) != want:
        bad("printed pointer is not the RFC 6901 spelling of its tokens", {**info, "got": str(p), "want": want})
    up = p.parent()
    if str(up) != E.uncodes(case["u"]):
        bad("parent() is not the pointer without its last token", {**info, "got": str(up), "want": E.uncodes(case["u"])})
    if p.is_relative_to(up) != (len(toks) > 0):
        bad("is_relative_to() its parent is wrong", info)
    if p.is_relative_to(p):
        bad("a pointer is relative to itself", info)
    if not toks and up != p:
        bad("the parent of the root is not the root", info)
    others = {"text": P(want), "text without decoding": P(want, unicode_escape=False), "parts": P.from_parts(toks),
              "joined": P("").join(*map(ptr.esc, toks)) if not any(t[:1].isspace() for t in toks) else p}
    ints = [int(t) if t.isdigit() and t.isascii() and (t == "0" or t[0] != "0") else t for t in toks]
    others["integer parts"] = P.from_parts(ints)
    for how, q in others.items():
        if not (p == q and q == p) or p != q:
            bad("pointers with equal tokens are unequal", {**info, "other": how})
        elif hash(p) != hash(q):
            bad("equal pointers with different hashes", {**info, "other": how})
        if str(q) != want:
            bad("printed pointer is not the RFC 6901 spelling of its tokens", {**info, "how": how, "got": str(q), "want": want})
    for near in (toks + [""], toks[:-1], toks[:-1] + [toks[-1] + "0"] if toks else ["0"], ["0"] + toks):
        if near != toks and (p == P.from_parts(near) or P(ptr.text(near)) == p):
            bad("pointers with unequal tokens are equal", {**info, "other": near})


def run(c):
    jp = core.load_repo()
    P = jp.JSONPointer
    # every pointer text over a small alphabet
    r = c.explore("MC_PtrText", f"INIT Init\nNEXT Next\nINVARIANT Inverse\nCONSTANTS MaxLen={c.n(5, 6)}\n", env=docs_env(c, [{}]))

    def text_case(case, bad):
        t = E.uncodes(case["t"])
        for ue in (True, False):
            o, p = core.call(P, t, unicode_escape=ue)
            if o != "ok":
                bad("pointer not accepted", {"pointer": t, "error": repr(p)})
            else:
                steps(jp, bad, {"pointer": t}, p, case)
        return 2
    c.replay(r.prints, text_case, "pointer texts")

    # every short walk of the navigation machine
    inv = "INVARIANT JoinThenParent\nINVARIANT RootIsItsParent\nINVARIANT PrintParse\n"
    r = c.explore("MC_PtrNav", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxOps={c.n(3, 4)}\n")
    c.sample({"base": E.uncodes(r.prints[99]["b"]), "moves": [(m["m"], E.uncodes(m["t"])) for m in r.prints[99]["m"]],
              "pointer": E.uncodes(r.prints[99]["t"])})

    def walk(case, bad):
        n = 0
        for how in (0, 1, 2):
            p = P(E.uncodes(case["b"]))
            hist = [str(p)]
            if how == 2 and all(m["m"] == "join" for m in case["m"]):
                p = p.join(*[E.uncodes(m["t"]) for m in case["m"]])
            elif how < 2:
                for i, m in enumerate(case["m"]):
                    t = E.uncodes(m["t"])
                    before = str(p)
                    q = p.parent() if m["m"] == "parent" else (p / t if (how + i) % 2 else p.join(t))
                    if str(p) != before:
                        bad("navigation changes the pointer itself", {"base": hist, "move": t})
                    p = q
                    hist.append(t)
            else:
                continue
            steps(jp, bad, {"walk": hist}, p, case)
            n += 1
        return n
    c.replay(r.prints, walk, "navigation walks")

    # random pointers however built
    r = c.rng("nav")
    rec = Recorder(c)
    for _ in range(c.n(300, 3000)):
        doc = ptr.ptr_doc(r, odd=0.7)
        di = rec.doc(doc)
        last = None
        for _ in range(12):
            b = ptr.rand_build(r, doc)
            o, p = core.call(ptr.construct, jp, b)
            ok = o == "ok"
            rec.add({"k": "nav", "b": b, "o": o, "err": "" if ok else core.ename(p), "str": E.codes(str(p)) if ok else [],
                     "parent": E.codes(str(p.parent())) if ok else [], "up": ok and p.is_relative_to(p.parent()),
                     "again": ok and core.call(lambda: P(str(p), unicode_escape=False) == p and hash(P(str(p), unicode_escape=False)) == hash(p))[1] is True},
                    build=show(b), got=str(p))
            if ok:   # resolving p/t is resolving p and stepping by t
                v, parent = core.call(p.resolve, doc), core.call(p.parent().resolve, doc)
                at = ptr.nodes_at(doc, v[1]) if v[0] == "ok" else []
                rec.add({"k": "ptr", "b": b, "d": di, "o": "node" if v[0] == "ok" else
                         "reserr" if isinstance(v[1], jp.JSONPointerResolutionError) else "other", "at": at,
                         "err": "" if v[0] == "ok" else core.ename(v[1]), "want": "reserr"}, build=show(b), doc=doc, got=repr(v[1]))
            if last is not None:
                b2, p2 = last
                if r.p(0.5):   # a near relative
                    b2 = r.pick([{"s": "parent", "b": b}, {"s": "join", "b": b, "t": E.codes(r.pick(["a", "0", "", "1/b"])), "op": "/"},
                                 {"s": "text", "t": E.codes(str(p)) if ok else [], "ue": False}])
                    b2, p2 = b2, core.call(ptr.construct, jp, b2)[1]
                both = ok and isinstance(p2, P)
                x, y, bx, by = (p, p2, b, b2) if r.p(0.5) else (p2, p, b2, b)
                rec.add({"k": "eq", "b": bx, "c": by, "o": "ok" if both else "err", "err": "" if both else repr(p2)[:80],
                         "eq": both and x == y and not x != y, "hash": both and hash(x) == hash(y), "rel": both and x.is_relative_to(y)},
                        left=show(bx), right=show(by))
            last = (b, p) if ok else last
    rec.judge()
    for n in ("9007199254740992", "-9007199254740992"):
        o, v = core.call(lambda: str(P("/" + n)))
        if (o, v) != ("ok", "/" + n):
            if isinstance(v, jp.JSONPointerIndexError):
                c.finding("integer-like tokens beyond the index limit cannot be parsed")
            else:
                c.violate("pointer with an integer beyond the index limit", {"pointer": "/" + n, "got": repr(v)})


def show(b):
    if "b" in b:
        return [show(b["b"]), b["s"], E.uncodes(b.get("t", []))]
    return [b["s"], E.uncodes(b["t"]) if "t" in b else [E.uncodes(t) for t in b["p"]]]
