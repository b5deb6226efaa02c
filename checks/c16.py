"""C16: Relative JSON Pointers."""
from vh import ptr

from checks.common import *  # noqa: F403
from checks.c14 import show


def outcome(jp, fn):
    o, v = core.call(fn)
    if o == "ok":
        return "ok", v, ""
    kind = "relerr" if isinstance(v, jp.RelativeJSONPointerError) else "ptrerr" if isinstance(v, jp.JSONPointerError) else "other"
    return kind, v, core.ename(v)


def apply_ways(jp, base, t, ue):
    P, R = jp.JSONPointer, jp.RelativeJSONPointer
    yield "to(str)", lambda: base.to(t, unicode_escape=ue)
    yield "to(rel)", lambda: base.to(R(t, unicode_escape=ue))
    yield "rel.to(ptr)", lambda: R(t, unicode_escape=ue).to(base)
    yield "rel.to(str)", lambda: R(t, unicode_escape=ue).to(str(base), unicode_escape=False)


def run(c):
    jp = core.load_repo()
    P, R = jp.JSONPointer, jp.RelativeJSONPointer
    inv = "INVARIANT Arith\n"
    r = c.explore("MC_Rel", f"INIT Init\nNEXT Next\n{inv}INVARIANT Parses\nCONSTANTS MaxOps=1\n", key="single")
    single = r.prints
    r = c.explore("MC_Rel", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxOps=2\n", key="pairs")
    pairs = [p for p in r.prints if len(p["m"]) == 2]
    if not c.thorough:
        pairs = c.rng("pairs").sample(pairs, min(len(pairs), 40000))
    c.sample({"base": E.uncodes(single[70]["b"]), "relative": E.uncodes(single[70]["m"][0]), "ok": single[70]["ok"],
              "result": E.uncodes(single[70]["t"])})

    def one(case, bad):
        base = P(E.uncodes(case["b"]))
        for m in case["m"][:-1]:
            base = base.to(E.uncodes(m))
        t = E.uncodes(case["m"][-1])
        info = {"base": str(base), "relative": t, "chain": [E.uncodes(m) for m in case["m"]]}
        o, rel = core.call(R, t)
        if o != "ok":
            bad("relative pointer not parsed", {**info, "error": repr(rel)})
            return 1
        if str(rel) != t:
            bad("printing a parsed relative pointer does not return its text", {**info, "got": str(rel)})
        n = 0
        for how, fn in apply_ways(jp, base, t, True):
            o, v, err = outcome(jp, fn)
            n += 1
            if case["ok"]:
                if o != "ok" or str(v) != E.uncodes(case["t"]):
                    bad("relative pointer applied wrongly", {**info, "how": how, "got": repr(v), "want": E.uncodes(case["t"])})
            elif o != "relerr":
                bad("forbidden application not refused with a relative pointer error", {**info, "how": how, "got": repr(v)})
        if str(rel) != t:
            bad("applying a relative pointer changes it", info)
        return n
    c.replay(single + pairs, one, "applications")

    r = c.rng("rel")
    rec = Recorder(c)
    for _ in range(c.n(400, 4000)):
        doc = ptr.ptr_doc(r, odd=0.6)
        di = rec.doc(doc)
        for _ in range(12):
            b = ptr.rand_build(r, doc, 1)
            o, base = core.call(ptr.construct, jp, b)
            if o != "ok":
                continue
            t = ptr.rand_rel(r, len(base.parts))
            if r.p(0.1):
                t = f"{r.randrange(2)}{r.pick(['', '+1', '-1'])}#"
            ue = r.p(0.5)
            p, rel, perr = outcome(jp, lambda: R(t, unicode_escape=ue))
            how, fn = r.pick(list(apply_ways(jp, base, t, ue)))
            o, v, err = outcome(jp, fn)
            rec.add({"k": "rel", "b": b, "t": E.codes(t), "p": p, "print": E.codes(str(rel)) if p == "ok" else [], "o": o,
                     "err": err or perr, "str": E.codes(str(v)) if o == "ok" else []},
                    base=show(b), relative=t, how=how, got=str(v), outcome=o)
            if p == "ok" and o == "ok" and t.endswith("#"):
                o, k = core.call(v.resolve, doc)
                rec.add({"k": "key", "b": b, "t": E.codes(t), "d": di, "o": o, "err": "" if o == "ok" else core.ename(k),
                         "val": E.enc(k) if o == "ok" else {"t": "null"}}, base=show(b), relative=t, doc=doc, got=repr(k))
    rec.judge()
    o, v = core.call(lambda: str(P("/a").to("0/9007199254740992")))
    if (o, v) != ("ok", "/a/9007199254740992"):
        if isinstance(v, jp.JSONPointerIndexError):
            c.finding("integer-like tokens beyond the index limit cannot be parsed")
        else:
            c.violate("relative pointer with an integer beyond the index limit", {"got": repr(v)})
