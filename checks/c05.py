"""C05: JSON Patch application."""
import zlib

from checks.patching import *  # noqa: F403


def run(c):
    jp = core.load_repo()
    one = explore(c, 1, True, DOCS, "one operation").prints
    two = explore(c, 2, False, DOCS[:3] if not c.thorough else DOCS, "two operations").prints
    if not c.thorough and len(two) > 120000:
        two = c.rng("two").sample(two, 120000)
    one, two = ([p for p in ps if p["o"] not in ("addne", "addap")] for ps in (one, two))
    c.sample({"doc": E.dec(one[300]["d"]), "op": decode_op(one[300]), "result": E.dec(one[300]["r"])})

    def rep(case, bad):
        op = decode_op(case)
        doc = E.dec(case["d"])
        info = {"doc": E.dec(case["d"]), "op": op}
        src = json.dumps(doc)
        judge_case(jp, case, bad, lambda: jp.patch.apply([op], doc), info)
        if zlib.crc32(src.encode()) % 8 == 0:
            judge_case(jp, case, bad, lambda: jp.patch.apply(json.dumps([op]), src), {**info, "how": "text"})
            judge_case(jp, case, bad, lambda: jp.JSONPatch(io.StringIO(json.dumps([op]))).apply(io.StringIO(src)), {**info, "how": "files"})
            return 3
        return 1
    c.replay(one + two, rep, "transitions")

    r = c.rng("patch")
    rec = Recorder(c)
    for _ in range(c.n(2500, 25000)):
        doc = ptr.ptr_doc(r, distinct=r.p(0.3), odd=0.5)
        di = rec.doc(doc)
        for _ in range(4):
            ops = ptr.rand_patch(r, doc, ext=False)
            ue = r.p(0.6)
            how = r.randrange(6)
            given = copy.deepcopy(ops)
            target = copy.deepcopy(doc)
            if how == 0:
                fn = lambda: jp.patch.apply(json.dumps(given), json.dumps(target), unicode_escape=ue)
            elif how == 1:
                fn = lambda: jp.patch.apply(tuple(given), target, unicode_escape=ue)
            elif how == 2:
                fn = lambda: builder(jp, given, ue).apply(target)
            else:
                fn = lambda: jp.JSONPatch(given, unicode_escape=ue).apply(target)
            o, v, err = outcome(jp, fn)
            rec.add(event(ops, ue, di, o, v, err), doc=doc, ops=ops, unicode_escape=ue, got=repr(v))
    rec.judge()
    o, v, err = outcome(jp, lambda: jp.patch.apply([{"op": "replace", "path": "/9007199254740992", "value": 2}], {"9007199254740992": 1}))
    if o != "ok" or v != {"9007199254740992": 2}:
        if o == "patcherr" and "index out of range" in str(v):
            c.finding("members spelled like integers beyond the index limit cannot be addressed")
        else:
            c.violate("member beyond the index limit", {"got": repr(v)})
