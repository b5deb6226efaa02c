"""C09: evaluation is pure."""
import asyncio
import json
import multiprocessing
import os
import sys
import threading

from checks.common import *  # noqa: F403
from vh import aio

# ---------------------------------------------------------------- inputs
POOL = [
    "$.items[?@.v == $.target]", "$.items[?@.v != $.target && @.w < $.max]", "$..[?count($.items.*) == @.n]",
    "$.items[?@.v == _.v]", "$.items[?_.v]", "$.items[?@.w > _.min || @.v == $.target]", "$.items[?@.kids[?@.v == $.target]]",
    "$.items[?@.kids[?@.v == _.v]]", "$.items[?@.kids[?@.w > $.max]].kids[?@.v == _.v]", "$.items[?$.flags[?@ == _.flag]]",
    "$.items[?match(@.s, $.pat)]", "$.items[?search(@.s, _.pat)]", "$.items[?@.s =~ /x.*/]", "$.items[?@.s =~ /X.*/i]",
    "$.items[?length(@.s) == length($.pat)]", "$.items[?value($..target) == @.v]", "$.items[?# in _.idx]", "$.items[?# == $.at]",
    "$.items[?@.v in $.flags]", "$.items[?$.flags contains @.v]", "$.items[?@ == $.items[0]]", "$.items[?@.kids == _.kids]",
    "$.items[?not @.v == $.target]", "$.items[?@.v == 1]", "$.items[?@.v == true]", "$.items[?@.v == 1.0]", "$.items[?@.v == '1']",
    "$.items[?@.v in [1, 'x']]", "$.items[?@.v in [true, 'x']]", "$.items[?isinstance(@.v, 'number')]", "$.items[?typeof(@.v) == 'string']",
    "$.items[?@.v == undefined]", "$.items[?$.missing]", "$.items[?!$.missing]", "$.items[?$.target]",
    "$..v", "$.items[::-1].v", "$..*", "$.items[*].~", "$.~", "^[?@.target == 1]", "^[?@.target == _.v].items[*].v", "$.items[?^[0].target == @.v]",
    "$.items[*].v | $.flags[*]", "$.items[?@.v == $.target] | $.items[?@.v != $.target]", "$.flags[*] & $.items[*].v", "$.items[?@.v == _.v] & $.items[?@.v == $.target]",
    "$.items[0,1,0]", "$['items'][?@.w >= $.max, ?@.w < $.max]", "$.items[?@.w<$['max'] ][?@ == $.target]",
    "$.items[?count(@..v) > $.at]", "$.items[?count($..v) == count(@..v) || $.at == 0]", "$.items[?(@.v == $.target) == (@.w < $.max)]",
    "$.items[?@.a == _.b]", "$.items[?_.b == $.missing]", "$.items[?_ == _]", "$.items[?$ == $]", "$.items[?_.items[0].v == @.v]",
    "$.items[?@.v == value($.items[?@.w == $.max].v)]",
    "$[?count(_.*) == 2]", "$.items[?value(_..v) == @.v]", "$.items[?@.v <> $.target]",
]


def docs_ctxs():
    def item(v, w, s, kids=()):
        return {"v": v, "w": w, "s": s, "n": w, "kids": list(kids)}
    d = {"items": [item(1, 1, "x"), item(2, 5, "xy", [{"v": 2, "w": 9}, {"v": 1, "w": 0}]), item(True, 3, "Xy", [{"v": "x", "w": 4}]), item("x", 2, "")],
         "target": 1, "max": 3, "flags": [1, "x", False], "pat": "x.", "at": 1}
    e = {"items": [item("x", 3, "xz", [{"v": True, "w": 5}]), item(1.0, 1, "y", [{"v": "x", "w": 3}]), item(2, 4, "xx"), item(1, 0, "x")],
         "target": True, "max": 1, "flags": [True, 2, None], "pat": ".", "at": 0}
    f = {"items": [item(True, 1, "x"), item("1", 5, "xy", [{"v": 2, "w": 1}]), item(1, 1, "Xy"), item(None, 2, "")],
         "target": 2, "max": 5, "flags": [], "pat": "X.*", "at": 3, "missing": None}
    c = {"v": 1, "min": 2, "flag": 1, "pat": "x", "idx": [0, 2], "kids": [], "b": 5}
    c2 = {"v": True, "min": 0, "flag": "x", "pat": "^X", "idx": [1], "kids": [{"v": "x", "w": 3}], "items": [{"v": 2}]}
    return [d, e, f], [c, c2, {}]


def perturb(r, v, d=0):
    """A document of much the same shape with other values."""
    if isinstance(v, dict):
        out = {k: perturb(r, x, d + 1) for k, x in v.items()}
        return dict(reversed(list(out.items()))) if r.p(0.1) else out
    if isinstance(v, list):
        out = [perturb(r, x, d + 1) for x in v]
        if r.p(0.25):
            out.reverse()
        if out and r.p(0.15):
            out.pop()
        return out
    if r.p(0.6):
        return v
    return {1: True, True: 1, 0: False, False: 0}.get(v, gen.gen_prim(r)) if r.p(0.4) else gen.gen_prim(r)


def fp(m):
    return f"{m.path!a} {m.parts!a} {m.obj!a}"


# ---------------------------------------------------------------- baselines
def _alone(job):
    """The job's result on its own: a process that has evaluated nothing else, caching off."""
    text, doc, ctx, envkw = job
    jp = core.load_repo()
    env = jp.JSONPathEnvironment(filter_caching=False, **envkw)
    return drain(lambda: iter(env.compile(text).finditer(doc, filter_context=ctx)))


def drain(make):
    out = []
    o, it = core.call(make)
    if o != "ok":
        return ["!" + core.ename(it)]
    while True:
        x = adv(it)
        if not x:
            return out
        out += x
        if x[0][:1] == "!":
            return out


def adv(it):
    """One match, or nothing, or an error."""
    o, m = core.call(next, it, None)
    if o != "ok":
        return ["!" + core.ename(m)]
    return [] if m is None else [fp(m)]


def aadv(it):
    async def one():
        async for m in it:
            return m
        return None
    o, m = core.call(lambda: aio.drive(one()))
    if o != "ok":
        return ["!" + core.ename(m)]
    return [] if m is None else [fp(m)]


def alone(jobs):
    """Each job in a process of its own."""
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8, maxtasksperchild=1) as p:
        return p.map(_alone, jobs, chunksize=1)


# ---------------------------------------------------------------- histories
class Broken:
    """A text that no longer compiles."""

    def __init__(self, e):
        self.e = e

    def finditer(self, *_, **__):
        raise self.e

    async def finditer_async(self, *_, **__):
        raise self.e


def compiled(env, t):
    o, q = core.call(env.compile, t)
    return q if o == "ok" else Broken(q)


class Runner:
    """Carries out a history on the real code; texts[j], docs[j], ctxs[j] are the jobs'."""

    def __init__(self, env, jobs, mode):
        self.env = env
        self.jobs = jobs
        self.mode = mode
        self.q = {}
        self.compile()
        self.its = []

    def compile(self):
        self.q = {t: compiled(self.env, t) for t in {j[0] for j in self.jobs}}

    def open(self, j):
        t, doc, ctx, _ = self.jobs[j]
        if self.mode == "sync":
            return core.call(lambda: iter(self.q[t].finditer(doc, filter_context=ctx)))
        return core.call(lambda: aio.drive(self.q[t].finditer_async(doc, filter_context=ctx)))

    def adv(self, it):
        if it is None:
            return []
        return adv(it) if self.mode == "sync" else aadv(it)

    def step(self, x):
        a = x["a"]
        if a == "new":
            self.compile()
            return []
        if a == "open":
            o, it = self.open(x["j"] - 1)
            self.its.append(("err", it) if o != "ok" else ("ok", it))
            return []
        if a == "run":
            o, it = self.open(x["j"] - 1)
            if o != "ok":
                return ["!" + core.ename(it)]
            out = []
            while True:
                m = self.adv(it)
                if not m:
                    return out
                out += m
                if m[0][:1] == "!":
                    return out
        o, it = self.its[x["i"] - 1]
        if a == "adv":
            if o == "err":  # evaluations may begin eagerly or lazily
                self.its[x["i"] - 1] = ("ok", None)
                return ["!" + core.ename(it)]
            return self.adv(it)
        if o == "ok" and it is not None and self.mode == "sync":
            getattr(it, "close", lambda: None)()
        return []


def want(base, o):
    if o["j"] == 0:
        return []
    b = base[o["j"] - 1]
    return b if o["p"] == 0 else b[o["p"] - 1:o["p"]]


def pure_facts(env, jobs, q, snaps):
    facts = []
    for (t, doc, ctx, _), (sd, sc, st) in zip(jobs, snaps):
        facts.append({"n": "the document", "same": repr(doc) == sd})
        facts.append({"n": "the filter context", "same": repr(ctx) == sc})
        facts.append({"n": "the compiled query's text", "same": str(q[t]) == st})
        again = compiled(env, t)
        facts.append({"n": "the compiled query: it no longer equals the same text compiled again",
                      "same": again == q[t] and hash(again) == hash(q[t]) and str(again) == st})
    return facts


def snap(env, jobs):
    return [(repr(d), repr(x), str(compiled(env, t))) for t, d, x, _ in jobs]


def explored(c, jp):
    """Every history of the specification's machine."""
    docs, ctxs = docs_ctxs()
    r2 = c.explore("MC_Sched", f"INIT Init\nNEXT Next\nINVARIANT Pure\nCONSTANTS Jobs=2 MaxSteps={c.n(5, 6)} MaxOpen=2\n", key="two jobs")
    r3 = c.explore("MC_Sched", f"INIT Init\nNEXT Next\nINVARIANT Pure\nCONSTANTS Jobs=3 MaxSteps=5 MaxOpen={c.n(2, 3)}\n", key="three jobs")
    families = []
    for n, t in enumerate(POOL):
        a, b = n % 3, (n + 1) % 3
        jobs2 = [(t, docs[a], ctxs[n % 2], {}), (t, docs[b], ctxs[(n + (n // 2) % 2) % 2], {})]
        families.append((jobs2, r2.prints, n))
        jobs3 = [(t, docs[a], ctxs[0], {}), (t, docs[a], ctxs[1], {}), (t, docs[b], ctxs[0], {})]
        families.append((jobs3, r3.prints, n))
    # different queries one of which may be taken for another
    pairs = [("$.items[?@.v == 1]", "$.items[?@.v == true]"), ("$.items[?@.v == 1]", "$.items[?@.v == 1.0]"),
             ("$.items[?@.s =~ /X.*/]", "$.items[?@.s =~ /X.*/i]"), ("$.items[?match(@.s, 'x')]", "$.items[?search(@.s, 'x')]"),
             ("$.items[?@.v == '1']", "$.items[?@.v == 1]"), ("$.items[?@.v in [1]]", "$.items[?@.v in [true]]"),
             ("$.items[?@.v == $.target]", "$.items[?@.v != $.target]"), ("$['1']", "$[1]"), ("$..v", "$..w"),
             ("$.items[?@.v == $.target]", "$.items[?@.v == _.v]"), ("$.items[?count($..v) == 4]", "$.items[?count($..w) == 4]"),
             ("^[?@.target == 1]", "$[?@.target == 1]"), ("$.items[0] | $.flags", "$.items[0] & $.flags"), ("$.items[?@.n]", "$.items[?!@.n]")]
    pairs = [p for p in pairs if all(core.call(jp.compile, t)[0] == "ok" for t in p)]
    for n, (a, b) in enumerate(pairs):
        families.append(([(a, docs[n % 3], ctxs[0], {}), (b, docs[n % 3], ctxs[0], {})], r2.prints, n))
    flat = [j for jobs, _, _ in families for j in jobs]
    flatbase = iter(alone(flat))
    bases = [[next(flatbase) for _ in jobs] for jobs, _, _ in families]
    k = c.n(6, 1)
    cases = [(f, i) for f, (_, hist, n) in enumerate(families) for i in range(n % k, len(hist), k)]

    def one(case, bad):
        f, i = case
        jobs, hist, _ = families[f]
        base = bases[f]
        h = hist[i]
        n = 0
        for caching in (True, False):
            for mode in (("sync", "async") if i % 3 == 0 or c.thorough else ("sync",)):
                env = jp.JSONPathEnvironment(filter_caching=caching)
                run = Runner(env, jobs, mode)
                snaps = snap(env, jobs) if i % 10 == 0 else None
                for s in h:
                    got = run.step(s["x"])
                    n += 1
                    if got != want(base, s["o"]):
                        bad("the result depends on the history", {
                            "jobs": [{"query": t, "doc": d, "context": x} for t, d, x, _ in jobs], "history": [y["x"] for y in h],
                            "at": s["x"], "got": got, "alone": want(base, s["o"]), "caching": caching, "mode": mode})
                        break
                if snaps:
                    for fact in pure_facts(env, jobs, run.q, snaps):
                        if not fact["same"]:
                            bad("evaluation changed " + fact["n"], {"jobs": [j[:3] for j in jobs], "history": [y["x"] for y in h]})
        return n
    c.replay(cases, one, "steps of explored histories")
    return bases


# ---------------------------------------------------------------- random histories, judged by the specification
def random_histories(c, jp):
    r = c.rng("hist")
    rec = Recorder(c)
    metas = []
    for _ in range(c.n(240, 3000)):
        doc = gen.gen_doc(r, scalar_root=0)
        ctx = gen.gen_doc(r, scalar_root=0)
        while not isinstance(ctx, dict):
            ctx = gen.gen_doc(r, scalar_root=0)
        texts = []
        for _ in range(r.pick([1, 1, 1, 2])):
            t = " | ".join(gen.Spell(r, words=True).query(gen.QGen(r, doc, ext=True, fdepth=r.pick([1, 2, 3])).any(), top=True)
                           for _ in range(r.pick([1, 1, 1, 2])))
            if core.call(jp.compile, t)[0] == "ok":
                texts.append(t)
        if not texts:
            continue
        docs = [doc, perturb(r, doc), perturb(r, doc)]
        ctxs = [ctx, perturb(r, ctx)]
        metas.append([(r.pick(texts), r.pick(docs), r.pick(ctxs), {}) for _ in range(r.pick([2, 3, 4]))])
    flatbase = iter(alone([j for jobs in metas for j in jobs]))
    for jobs in metas:
        base = [next(flatbase) for _ in jobs]
        mode = r.pick(["sync", "sync", "async"])
        env = jp.JSONPathEnvironment(filter_caching=r.p(0.7))
        snaps = snap(env, jobs)
        run = Runner(env, jobs, mode)
        q = run.q
        h = []
        live = []
        for _ in range(r.pick([10, 20, 60])):
            k = r.randrange(10)
            x = {"a": "open", "j": r.randrange(len(jobs)) + 1, "i": 0}
            if k < 6 and live:
                x = {"a": "adv", "i": r.pick(live), "j": 0}
            elif k == 6:
                x["a"] = "run"
            elif k == 7 and live and r.p(0.3):
                x = {"a": "drop", "i": live.pop(r.randrange(len(live))), "j": 0}
            elif k == 8 and r.p(0.2):
                x = {"a": "new", "i": 0, "j": 0}
            if x["a"] == "open":
                live.append(len(run.its) + 1)
            h.append({"x": x, "out": run.step(x)})
        ids = {}
        num = lambda xs: [ids.setdefault(s, len(ids) + 1) for s in xs]  # noqa: E731
        rec.add({"k": "sched", "base": [num(b) for b in base], "h": [{"x": s["x"], "out": num(s["out"])} for s in h],
                 "pure": pure_facts(env, jobs, q, snaps)},
                jobs=[{"query": t, "doc": d, "context": x} for t, d, x, _ in jobs], history=[s["x"] for s in h], mode=mode,
                caching=env.filter_caching)
    rec.judge()


# ---------------------------------------------------------------- many uses
def _uses(job):
    """A hundred uses of one compiled query on documents that come and go, or change in place."""
    text, variants = job
    jp = core.load_repo()
    out = []
    for caching in (True, False):
        q = jp.JSONPathEnvironment(filter_caching=caching).compile(text)
        doc, ctx = None, None
        for k in range(120):
            v, x = variants[(k * k + k // 7) % len(variants)]
            if k % 3 == 2 and isinstance(doc, dict):  # the same objects with other contents
                doc.clear()
                doc.update(json.loads(v))
                ctx.clear()
                ctx.update(json.loads(x))
            else:
                doc = ctx = None
                doc, ctx = json.loads(v), json.loads(x)
            out.append((caching, k, (k * k + k // 7) % len(variants), drain(lambda: iter(q.finditer(doc, filter_context=ctx)))))
    return out


def many_uses(c):
    docs, ctxs = docs_ctxs()
    variants = [(json.dumps(d), json.dumps(x)) for d in docs for x in ctxs]
    flat = alone([(t, json.loads(d), json.loads(x), {}) for t in POOL for d, x in variants])
    with multiprocessing.get_context("fork").Pool(8) as p:
        outs = p.map(_uses, [(t, variants) for t in POOL], chunksize=1)
    rec = Recorder(c)
    n = 0
    for i, (t, out) in enumerate(zip(POOL, outs)):
        base = flat[i * len(variants):(i + 1) * len(variants)]
        ids = {}
        num = lambda xs: [ids.setdefault(s, len(ids) + 1) for s in xs]  # noqa: E731
        for caching in (True, False):
            h = [{"x": {"a": "run", "j": j + 1, "i": 0}, "out": num(o)} for cc, _, j, o in out if cc == caching]
            n += len(h)
            rec.add({"k": "sched", "base": [num(b) for b in base], "h": h, "pure": []}, query=t, caching=caching, uses=len(h))
    c.count("repeated uses", n)
    rec.judge()


# ---------------------------------------------------------------- forced interleavings of threads
class Baton:
    """Two threads, of which one at a time runs; where they give way is the schedule's.

    Execution is measured in lines of the package under test.  If a thread can't
    go on without the other (a lock), the baton is given up and both run freely."""

    def __init__(self, root, schedule, unit):
        self.root = root
        self.turns = [threading.Semaphore(0), threading.Semaphore(0)]
        self.budget = [0, 0]
        self.schedule = [(s["th"] - 1, s["n"] * unit) for s in schedule]
        self.pos = 0
        self.free = False
        self.done = [False, False]

    def grant(self):
        while self.pos < len(self.schedule):
            th, n = self.schedule[self.pos]
            self.pos += 1
            if not self.done[th]:
                self.budget[th] = n
                self.turns[th].release()
                return
        self.release_all()

    def release_all(self):
        self.free = True
        for t in self.turns:
            t.release()

    def wait(self, me):
        if not self.free and not self.turns[me].acquire(timeout=1.0):
            self.release_all()

    def tracer(self, me):
        def local(frame, event, arg):
            if event == "line" and not self.free:
                self.budget[me] -= 1
                if self.budget[me] < 0:
                    self.grant()
                    self.wait(me)
            return local

        def glob(frame, event, arg):
            return local if frame.f_code.co_filename.startswith(self.root) else None
        return glob

    def run(self, fns):
        out = [None, None]

        def body(me):
            self.wait(me)
            sys.settrace(self.tracer(me))
            try:
                out[me] = fns[me]()
            except BaseException as e:  # noqa: BLE001
                out[me] = ["!" + type(e).__name__]
            finally:
                sys.settrace(None)
                self.done[me] = True
                if not self.free:
                    self.grant()
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in (0, 1)]
        for t in ts:
            t.start()
        self.grant()
        for t in ts:
            t.join(30)
        if any(t.is_alive() for t in ts):
            raise tlc.MachineryError("threads did not finish")
        return out


def lines(root, fn):
    n = 0

    def local(frame, event, arg):
        nonlocal n
        n += event == "line"
        return local
    sys.settrace(lambda f, e, a: local if f.f_code.co_filename.startswith(root) else None)
    try:
        fn()
    finally:
        sys.settrace(None)
    return n


def plain(make):
    """Like drain, but without signals (it runs in a thread)."""
    out = []
    try:
        for m in make():
            out.append(fp(m))
    except Exception as e:  # noqa: BLE001
        out.append("!" + type(e).__name__)
    return out


def threads(c, jp):
    root = os.path.join(core.REPO, "jsonpath")
    docs, ctxs = docs_ctxs()
    one = c.explore("MC_Preempt", "INIT Init\nNEXT Next\nINVARIANT Complete\nCONSTANTS Slots=40 MaxSwitch=2\n", key="40 slots, 2 preemptions")
    fine = c.explore("MC_Preempt", "INIT Init\nNEXT Next\nINVARIANT Complete\nCONSTANTS Slots=200 MaxSwitch=1\n", key="200 slots, 1 preemption")
    few = c.explore("MC_Preempt", f"INIT Init\nNEXT Next\nINVARIANT Complete\nCONSTANTS Slots={c.n(12, 20)} MaxSwitch=3\n", key="3 preemptions")
    scheds = [(s, 40) for s in one.prints] + [(s, 200) for s in fine.prints] * 2 + [(s, c.n(12, 20)) for s in few.prints]
    jobs = []
    shared = [POOL[k % len(POOL)] for k in (0, 2, 4, 5, 6, 7, 9, 10, 12, 17, 20, 21, 36, 40, 42, 44, 47, 51, 55, 59)]
    for n, t in enumerate(shared):
        jobs.append(("a shared query", t, t, docs[n % 3], docs[(n + 1) % 3], ctxs[0], ctxs[1]))
    texts = ["$.items[?@.v == 1 && @.s == 'x']", "$..kids[?@.v == 'x' || @.w > 3]", "$['items'][0:2]['v', \"w\"]", "$.items[?match(@.s, 'x.*')].kids",
             "$.items[?@.s =~ /x.*/i] | $.flags[*]", "^[0].target", "$.items[?count(@.kids.*) > 0 and not @.v == true]", "$.flags[*] & $.items[*].v", "$.items[?# in _.idx].~"]
    texts = [t for t in texts if core.call(jp.compile, t)[0] == "ok"]
    for n, t in enumerate(texts):
        jobs.append(("a shared environment", t, texts[(n + 1 + n % 3) % len(texts)], docs[n % 3], docs[(n + 1) % 3], ctxs[0], ctxs[1]))
    base = iter(alone([j for _, t, u, d, e, x, y in jobs for j in ((t, d, x, {}), (u, e, y, {}))]))
    bases = [(next(base), next(base)) for _ in jobs]
    per = len(scheds) // c.n(12, 2)
    cases = []
    for n, _ in enumerate(jobs):
        step = max(1, len(scheds) // per)
        cases += [(n, i) for i in range((n * 7) % step, len(scheds), step)]

    def go(case, bad):
        n, i = case
        what, t, u, d, e, x, y = jobs[n]
        sched, slots = scheds[i]
        env = jp.JSONPathEnvironment()
        if what == "a shared query":
            q = env.compile(t)
            fns = [lambda: plain(lambda: q.finditer(d, filter_context=x)), lambda: plain(lambda: q.finditer(e, filter_context=y))]
        else:
            fns = [lambda: plain(lambda: env.compile(t).finditer(d, filter_context=x)), lambda: plain(lambda: env.finditer(u, e, filter_context=y))]
        unit = max(1, max(lines(root, f) for f in fns) // slots + 1)
        if what == "a shared query":
            q = env.compile(t)
        else:
            env = jp.JSONPathEnvironment()
        got = Baton(root, sched, unit).run(fns)
        for me in (0, 1):
            if got[me] != bases[n][me]:
                bad(f"evaluations in two threads with {what} disturb one another", {
                    "queries": [t, u], "docs": [d, e], "contexts": [x, y], "schedule": sched, "lines per slot": unit, "got": got, "alone": bases[n]})
                break
        return 1
    c.replay(cases, go, "forced thread interleavings")


# ---------------------------------------------------------------- forced interleavings of tasks
def tasks(c, jp):
    docs, ctxs = docs_ctxs()
    few = c.explore("MC_Preempt", f"INIT Init\nNEXT Next\nINVARIANT Complete\nCONSTANTS Slots={c.n(14, 20)} MaxSwitch={c.n(2, 3)}\n", key="tasks")
    jobs = [(t, docs[n % 3], docs[(n + 1) % 3], ctxs[n % 2], ctxs[1 - (n // 2) % 2]) for n, t in enumerate(POOL)]
    base = iter(alone([j for t, d, e, x, y in jobs for j in ((t, d, x, {}), (t, e, y, {}))]))
    bases = [(next(base), next(base)) for _ in jobs]
    step = c.n(8, 1)
    cases = [(n, i) for n in range(len(jobs)) for i in range(n % step, len(few.prints), step)]
    slots = c.n(14, 20)

    def coro(q, doc, ctx):
        async def go():
            out = []
            try:
                async for m in await q.finditer_async(doc, filter_context=ctx):
                    out.append(fp(m))
            except Exception as e:  # noqa: BLE001
                out.append("!" + type(e).__name__)
            return out
        return go()

    def solo(q, doc, ctx):
        k = 0
        cr = coro(q, doc, ctx)
        try:
            while True:
                cr.send(None)
                k += 1
        except StopIteration:
            return k

    def go(case, bad):
        n, i = case
        t, d, e, x, y = jobs[n]
        ds = [aio.wrap(d, True), aio.wrap(e, True)]
        q = jp.compile(t)
        pauses = max(solo(q, ds[0], x), solo(q, ds[1], y))
        unit = pauses // slots + 1
        q = jp.compile(t)
        cs = [coro(q, ds[0], x), coro(q, ds[1], y)]
        out = [None, None]
        sched = few.prints[i] + [{"th": 1, "n": 10**6}, {"th": 2, "n": 10**6}]
        for s in sched:
            me = s["th"] - 1
            for _ in range(s["n"] * unit):
                if out[me] is not None:
                    break
                try:
                    cs[me].send(None)
                except StopIteration as z:
                    out[me] = z.value
        want2 = bases[n]
        for me in (0, 1):
            if out[me] != want2[me]:
                bad("evaluations in two tasks disturb one another", {
                    "query": t, "docs": [d, e], "contexts": [x, y], "schedule": sched, "got": out, "alone": want2})
                break
        return 1
    c.replay(cases, go, "forced task interleavings")


def freely(c, jp):
    """Threads left to themselves, giving way often."""
    docs, ctxs = docs_ctxs()
    base = alone([(t, d, x, {}) for t in POOL for d in docs for x in ctxs[:2]])
    wants = {}
    it = iter(base)
    for t in POOL:
        for a in range(3):
            for b in range(2):
                wants[t, a, b] = next(it)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        env = jp.JSONPathEnvironment()
        qs = {t: env.compile(t) for t in POOL}
        bads = []
        rounds = c.n(12, 120)

        def body(k):
            r = c.rng(f"free{k}")
            for _ in range(rounds):
                for t in POOL:
                    a, b = r.randrange(3), r.randrange(2)
                    q = qs[t] if r.p(0.7) else env.compile(t)
                    got = plain(lambda: q.finditer(docs[a], filter_context=ctxs[b]))
                    if got != wants[t, a, b]:
                        bads.append((t, a, b, got))
                        return
        ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(6)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for t, a, b, got in bads:
            c.violate("evaluations in threads disturb one another", {"query": t, "doc": docs[a], "context": ctxs[b], "got": got, "alone": wants[t, a, b]})
        c.count("evaluations in free threads", 6 * rounds * len(POOL))
        c.traces += 6 * rounds * len(POOL)
    finally:
        sys.setswitchinterval(old)

    async def many():
        async def one(t, a, b):
            out = []
            async for m in await qs[t].finditer_async(aio.wrap(docs[a], True), filter_context=ctxs[b]):
                out.append(fp(m))
            return out
        keys = [(t, a, b) for t in POOL for a in range(3) for b in range(2) if not any(s[:1] == "!" for s in wants[t, a, b])]
        got = await asyncio.gather(*[one(*k) for k in keys])
        for k, g in zip(keys, got):
            if g != wants[k]:
                c.violate("evaluations in tasks disturb one another", {"query": k[0], "doc": docs[k[1]], "context": ctxs[k[2]], "got": g, "alone": wants[k]})
    asyncio.run(many())


# ---------------------------------------------------------------- one environment for everything
_SHARED = {}


def one_environment(c, jp):
    """Every operand in every position, all compiled by one environment and each used again and again: what is
    selected is what the specification selects; where it isn't, the same evaluation on its own decides whether
    the history is to blame."""
    from checks import c13
    prints = c13.placed(c, "Out").prints
    docs, ctx = c13.PLACE_DOCS, c13.PLACE_CTX
    order = [0, 1, 2, 1, 0, 2]

    def one(p):
        envs = _SHARED.setdefault("envs", [jp.JSONPathEnvironment(), jp.JSONPathEnvironment(filter_caching=False)])
        out = []
        t = E.uncodes(p["t"][0])
        for k, env in enumerate(envs):
            q = compiled(env, t)
            for n, i in enumerate(order):
                o, got = core.call(lambda: [m.obj for m in q.finditer(docs[i], filter_context=ctx)])
                good = o == "ok" and [E.enc(x) for x in got] == [E.enc(menus.follow(docs[i], [st])) for st in p["l"][i]]
                if not good:
                    out.append((json.dumps([t, i]), {"caching": k == 0, "use": n + 1, "got": repr(got)}))
        return out or [("", None)]
    seen = c.gather(prints, one, "uses of one environment")
    c.traces += 2 * len(order) * len(prints)
    odd = [(json.loads(k), v[0]) for k, v in sorted(seen.items()) if k][:400]
    wants = {}
    for p in prints:
        for i, l in enumerate(p["l"]):
            wants[E.uncodes(p["t"][0]), i] = [E.enc(menus.follow(docs[i], [st])) for st in l]
    with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        own = pool.map(_values_alone, [(t, docs[i], ctx) for (t, i), _ in odd], chunksize=1)
    for ((t, i), info), v in zip(odd, own):
        if v == wants[t, i]:
            c.violate("the result depends on what the environment was used for before", {"query": t, "doc": docs[i], "context": ctx, **info, "alone": v})


def _values_alone(job):
    t, doc, ctx = job
    jp = core.load_repo()
    o, v = core.call(lambda: [m.obj for m in jp.JSONPathEnvironment(filter_caching=False).compile(t).finditer(doc, filter_context=ctx)])
    return [E.enc(x) for x in v] if o == "ok" else repr(v)


def run(c):
    jp = core.load_repo()
    POOL[:] = [t for t in POOL if core.call(jp.compile, t)[0] == "ok"]
    explored(c, jp)
    one_environment(c, jp)
    random_histories(c, jp)
    many_uses(c)
    threads(c, jp)
    tasks(c, jp)
    freely(c, jp)
