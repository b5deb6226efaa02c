"""C20: match, pointer, patch."""
from vh import ptr

from checks.c03 import DOCS, has_keys
from checks.patching import copy, json, outcome
from checks.common import *  # noqa: F403

# names that look like integers beyond the index limit (their pointers only as objects)
HUGE = [{"9007199254740993": {"a": 1, "-9007199254740993": [1, {"123456789012345678901234567890": None}]}, "a": {"9007199254740992": 0, "09007199254740993": 1}},
        [{"-123456789012345678901": [{"1": 1}], "18446744073709551616": {"18446744073709551616": {"0": 2}}}, ["x"]]]
NEW = {"new": [1, "value"]}


def result(jp, fn):
    o, v, err = outcome(jp, fn)
    return E.enc(v) if o == "ok" else {"t": "fail", "e": err}


def edits(jp, doc, m, new, text):
    """Patches at the match's pointer, given as an object or as text."""
    o, p = core.call(m.pointer)
    o, t = core.call(str, p) if o == "ok" and text else (o, p)
    if o != "ok":
        return {"test": "making the pointer fails with " + core.ename(t), "rep": {"t": "null"}, "rem": {"t": "null"}}
    ue = not text

    def patch():
        return jp.JSONPatch(unicode_escape=ue)
    o, v, err = outcome(jp, lambda: patch().test(t, copy.deepcopy(m.obj)).apply(copy.deepcopy(doc)))
    test = "ok" if o == "ok" and E.same(v, doc) else "document changed" if o == "ok" else err
    if text:
        rep = result(jp, lambda: jp.patch.apply([{"op": "replace", "path": t, "value": new}], copy.deepcopy(doc), unicode_escape=False))
        rem = result(jp, lambda: jp.patch.apply(json.dumps([{"op": "remove", "path": t}]), json.dumps(doc), unicode_escape=False))
    else:
        rep = result(jp, lambda: patch().replace(t, copy.deepcopy(new)).apply(copy.deepcopy(doc)))
        rem = result(jp, lambda: patch().remove(t).apply(copy.deepcopy(doc))) if m.parts else {"t": "null"}
    if not m.parts:
        rem = {"t": "null"}
    return {"test": test, "rep": rep, "rem": rem}


def record(rec, jp, t, doc, di, new, text, g="rfc", ctx=None, ci=None):
    before = E.enc(doc)
    o, v = core.call(lambda: list(jp.finditer(t, doc, filter_context=ctx)))
    ms = [edits(jp, doc, m, new, text) for m in v] if o == "ok" else []
    if E.enc(doc) != before:
        rec.c.violate("the document is changed", {"query": t, "doc": doc})
    rec.add({"k": "edit", "t": E.codes(t), "g": g, "d": di, "c": ci or di, "o": o, "err": "" if o == "ok" else core.ename(v), "ms": ms,
             "new": E.enc(new)}, query=t, doc=doc, pointer_as_text=text,
            got=[(m.path, E.dec(e["rem"]) if e["rem"]["t"] != "fail" else e["rem"]["e"], e["test"]) for m, e in zip(v, ms)] if o == "ok" else repr(v))


def huge(doc):
    return any(isinstance(p, str) and len(p) > 15 and p.lstrip("-").isdigit() for loc, _ in gen.all_nodes(doc) for p in loc)


def enlarge(r, v):
    """Some of its names made into big numbers."""
    if isinstance(v, dict):
        return {(str(r.pick([1, -1]) * r.randrange(2**53, 2**70)) if r.p(0.4) else k): enlarge(r, x) for k, x in v.items()}
    return [enlarge(r, x) for x in v] if isinstance(v, list) else v


def run(c):
    jp = core.load_repo()
    docs = DOCS + menus.SMALL + HUGE
    r = c.explore("MC_Query", "INIT Init\nNEXT Next\nINVARIANT PathsSelect\nCONSTANTS MaxSegs=1 Rich=TRUE\n", env=docs_env(c, docs))
    rec = Recorder(c)
    for d in docs:
        rec.doc(d)
    for n, case in enumerate(r.prints):
        record(rec, jp, E.uncodes(case["t"][1]), docs[case["d"] - 1], case["d"], NEW, n % 2 == 0 and case["d"] <= len(docs) - len(HUGE))
    for i, d in enumerate(docs):
        for text in (False, True):
            record(rec, jp, "$..*", d, i + 1, NEW, text and d not in HUGE)
    r = c.rng("edit")
    for n in range(c.n(700, 7000)):
        doc = ptr.ptr_doc(r, distinct=r.p(0.5), odd=r.pick([0.3, 0.9]))
        if r.p(0.1):
            doc = enlarge(r, doc)
        di = rec.doc(doc)
        big = huge(doc)
        for _ in range(3):
            q = gen.QGen(r, doc, filters=r.p(0.3)).any()
            record(rec, jp, gen.Spell(r).query(q, top=True), doc, di, r.pick([NEW, None, [], 0]), r.p(0.4) and not big)
        record(rec, jp, "$..*", doc, di, NEW, r.p(0.4) and not big)
    rec.judge()
