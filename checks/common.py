"""Pieces shared by the per-property checks."""
from __future__ import annotations

import os

from vh import core, gen, menus, tlc
from vh import enc as E


def docs_env(c, docs):
    p = os.path.join(c.work, f"docs{len(os.listdir(c.work))}.ndjson")
    tlc.dump_ndjson(p, [E.enc(d) for d in docs])
    return {"DOCS": p}


def strict(a, b):
    """The same value: identical containers, strictly equal primitives."""
    if isinstance(a, (dict, list)):
        return a is b
    return type(a) is type(b) and a == b


def expect(bad, clause, find, text, doc, want):
    """One call: text must select exactly these values from doc."""
    o, v = core.call(find, text, doc)
    if o != "ok":
        bad(f"evaluation failed with {core.ename(v)}", {"query": text, "doc": doc, "error": repr(v)})
    elif len(v) != len(want) or not all(map(strict, v, want)):
        bad(clause, {"query": text, "doc": doc, "got": v, "want": want})
    return 1


def replay_queries(c, cases, docs, find, label="replayed"):
    """Replay spec-generated queries: every spelling selects the given locations."""
    def one(case, bad):
        doc = docs[case["d"] - 1]
        want = [menus.follow(doc, l) for l in case["l"]]
        for t in case["t"]:
            expect(bad, "nodelist differs from the specification's", find, E.uncodes(t), doc, want)
        return len(case["t"])
    c.replay(cases, one, label)


def find_event(text, doc_i, ctx_i, o, v, g="rfc"):
    return {"k": "find", "t": E.codes(text), "g": g, "d": doc_i, "c": ctx_i, "o": o,
            "vals": [E.enc(x) for x in v] if o == "ok" else [], "err": "" if o == "ok" else core.ename(v)}


class Recorder:
    """Collects events with the documents they mention and a readable form."""

    def __init__(self, c):
        self.c = c
        self.docs = []
        self.events = []
        self.info = []

    def doc(self, v):
        self.docs.append(E.enc(v))
        return len(self.docs)

    def add(self, event, **info):
        self.events.append(event)
        self.info.append(info)

    def judge(self, module="Trace", **k):
        if self.info:
            self.c.sample(dict(list(self.info[0].items())[:4]))
        return self.c.judge(self.events, self.docs, module=module, describe=lambda i: self.info[i], **k)


def random_finds(c, salt, ndocs, nq, *, find=None, ext=False, filters=True, depth=2, words=False, rootless=False, docgen=None):
    """Random documents and queries in random spellings, judged by the specification."""
    jp = core.load_repo()
    find = find or jp.findall
    r = c.rng(salt)
    rec = Recorder(c)
    for _ in range(ndocs):
        doc = (docgen or gen.gen_doc)(r)
        di = rec.doc(doc)
        ctx, ci = None, di
        if ext:
            ctx = gen.gen_doc(r)
            while not isinstance(ctx, dict):
                ctx = gen.gen_doc(r)
            ci = rec.doc(ctx)
        for _ in range(nq):
            q = gen.QGen(r, doc, ext=ext, filters=filters, fdepth=depth).any()
            t = gen.Spell(r, words=words, rootless=rootless).query(q, top=True)
            if ext:
                o, v = core.call(find, t, doc, filter_context=ctx)
            else:
                o, v = core.call(find, t, doc)
            rec.add(find_event(t, di, ci, o, v, "ext" if ext else "rfc"), query=t, doc=doc, context=ctx, got=repr(v))
    rec.judge()
