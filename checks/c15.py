"""C15: a patch is a faithful, reusable value."""
from checks.patching import *  # noqa: F403


def forms(jp, ops, ue=True):
    yield "document", lambda: jp.JSONPatch(ops, unicode_escape=ue)
    yield "text", lambda: jp.JSONPatch(json.dumps(ops), unicode_escape=ue)
    yield "file", lambda: jp.JSONPatch(io.StringIO(json.dumps(ops)), unicode_escape=ue)
    yield "builder", lambda: builder(jp, ops, ue)
    yield "builder with pointers", lambda: builder(jp, ops, ue, True)
    yield "dicts of the document form", lambda: jp.JSONPatch(jp.JSONPatch(ops, unicode_escape=ue).asdicts(), unicode_escape=ue)
    yield "dicts of the builder form", lambda: jp.JSONPatch(builder(jp, ops, ue).asdicts(), unicode_escape=ue)
    yield "iterator", lambda: jp.JSONPatch(iter(ops), unicode_escape=ue)


def scramble(v):
    """Change every container of a result, so that sharing shows."""
    for _, x in list(gen.all_nodes(v)):
        if isinstance(x, dict):
            x["scrambled"] = 1
        elif isinstance(x, list):
            x.append("scrambled")


def printed(p):
    return [{"op": d.get("op"), "path": E.codes(d.get("path", "")), "from": E.codes(d.get("from", "")), "value": E.enc(d.get("value")),
             "keys": sorted(d)} for d in p.asdicts()]


LIFE = [{"a": [1], "b": {"b": None}}, {"a": {"0": [2], "x": []}}, [1]]


def life(c, jp):
    """Histories of patch objects: built, printed, applied and copied in any order."""
    r = c.explore("MC_PatchLife", f"INIT Init\nNEXT Next\nINVARIANT Repeats\nINVARIANT Out\nPROPERTY OnlyBuild\nCONSTANTS MaxActs={c.n(3, 4)}\n",
                  key="lives", env=docs_env(c, LIFE[:c.n(2, 3)]))
    pool = [decode_op(o) for o in next(x for x in r.prints if "pool" in x)["pool"]]
    cases = [{"n": n, **x} for n, x in enumerate(x for x in r.prints if "h" in x)]
    c.sample({"life": cases[len(cases) // 2]["h"], "first": cases[len(cases) // 2]["first"]})

    def one(case, bad):
        salt = case["n"]
        first = [copy.deepcopy(pool[o - 1]) for o in case["first"]]
        make = list(forms(jp, first))
        how, fn = make[salt % len(make)]
        patches = [fn()]
        now = [list(case["first"])]
        results = []
        done = [how]
        for n, a in enumerate(case["h"]):
            i = a["i"] - 1
            p = patches[i]
            info = {"first": first, "life": done, "patch": i + 1}
            if a["a"] == "build":
                done.append(f"build({a['i']}, {a['o']})")
                append(jp, p, copy.deepcopy(pool[a["o"] - 1]), (salt + n) % 2)
                now[i].append(a["o"])
            elif a["a"] == "print":
                done.append(f"print({a['i']})")
                got = p.asdicts()
                if not E.same(got, [pool[o - 1] for o in a["s"]]):
                    bad("patch prints another list of dicts", {**info, "got": got, "want": [pool[o - 1] for o in a["s"]]})
                    return n
                if (salt + n) % 3 == 0:
                    got.clear()   # the caller's own list
            elif a["a"] == "copy":
                done.append(f"copy({a['i']})")
                ds = p.asdicts()
                q = jp.JSONPatch(ds if salt % 2 else json.dumps(ds))
                patches.append(q)
                now.append(list(now[i]))
            else:
                done.append(f"apply({a['i']}, {a['d']})")
                doc = copy.deepcopy(LIFE[a["d"] - 1])
                g = a["g"]
                case1 = {"ok": g["ok"], "r": g["r"], "why": g["why"]}
                o, v = judge_case(jp, case1, bad, lambda: p.apply(doc if (salt + n) % 4 else json.dumps(doc)), info)
                if o == "ok":
                    results.append((v, E.enc_cmp(E.enc(v))))
                    if (salt + n) % 2:
                        scramble(v)
                        results.pop()
        for v, was in results:
            if E.enc_cmp(E.enc(v)) != was:
                bad("the result of an application changed afterwards", {"first": first, "life": done, "now": v})
            scramble(v)
        for i, (p, s) in enumerate(zip(patches, now)):
            if not E.same(p.asdicts(), [pool[o - 1] for o in s]):
                bad("a patch changed without a builder call", {"first": first, "life": done, "patch": i + 1, "got": p.asdicts()})
        return len(case["h"])
    c.replay(cases, one, "lives")


def append(jp, p, o, pointers):
    P = jp.JSONPointer if pointers else str
    a = (P(o["from"]), P(o["path"])) if "from" in o else (P(o["path"]),) + ((o["value"],) if "value" in o else ())
    getattr(p, o["op"])(*a)


def respell(r, t, uri):
    """The same pointer text, some of its characters spelled as escape sequences or percent-encoded."""
    out = []
    for ch in t:
        o = ord(ch)
        k = r.randrange(12)
        if k == 0 and uri and not 0xD800 <= o < 0xE000:
            out.append("".join(f"%{b:02{r.pick('xX')}}" for b in ch.encode()))
        elif k < 2 and o < 0x10000:
            out.append(f"\\u{o:04{r.pick('xX')}}")
        elif k < 3 and o >= 0x10000:
            out.append(f"\\u{0xD800 + ((o - 0x10000) >> 10):04x}\\u{0xDC00 + ((o - 0x10000) & 0x3FF):04X}")
        else:
            out.append(ch)
    if r.p(0.25):
        out.insert(r.randrange(len(out) + 1), r.pick(["\\u005cu0061", "\\u005c", "\\\\", "\\n", "%5cu0062", "%25", "%2541", "\\u002561", "%", "%zz", "\\u00e9", "%c3%a9", "%ff", "\\ud83d\\ude00", "\\ud83d", "\\u12", "\\u002f", "%2f", "~01", "\\u007e1"]))
    return "".join(out)


def agreeing(c, jp):
    """Pointers with escape sequences and percent-encodings: every form of a patch reads them alike."""
    rec = Recorder(c)
    for n in range(c.n(500, 6000)):
        r = c.rng(f"agree{n}")
        doc = ptr.ptr_doc(r, distinct=r.p(0.3), odd=0.6)
        ue, uri = r.pick([(True, False), (True, True), (False, True)])
        ops = ptr.rand_patch(r, doc)
        for o in ops:
            for k in ("path", "from"):
                if k in o and r.p(0.8):
                    o[k] = respell(r, o[k], uri)
        kw = {"unicode_escape": ue, "uri_decode": uri}
        made = [("document", lambda: jp.JSONPatch(ops, **kw)), ("text", lambda: jp.JSONPatch(json.dumps(ops), **kw)), ("file", lambda: jp.JSONPatch(io.StringIO(json.dumps(ops)), **kw)),
                ("iterator", lambda: jp.JSONPatch(iter(ops), **kw)), ("builder", lambda: chain(jp, jp.JSONPatch(**kw), ops, str)),
                ("builder with pointers", lambda: chain(jp, jp.JSONPatch(), ops, lambda t: jp.JSONPointer(t, **kw)))]
        o, p, _ = outcome(jp, made[r.randrange(len(made))][1])
        if o == "ok":
            # what it prints has been decoded already
            ds = p.asdicts()
            texts = [d[k] for d in ds for k in ("path", "from") if k in d]
            again = {} if not any("\\" in t for t in texts) and not any("%" in t for t in texts) and r.p(0.5) else {"unicode_escape": False, "uri_decode": False}
            made.append(("dicts read back", lambda: jp.JSONPatch(ds, **again)))
            made.append(("dicts through the builder", lambda: chain(jp, jp.JSONPatch(unicode_escape=False), ds, str)))
        fs, said = [], []
        for how, make in made:
            o, p, err = outcome(jp, make)
            ends = []
            if o == "ok":
                for _ in range(2):
                    oo, v, _ = outcome(jp, lambda: p.apply(copy.deepcopy(doc)))
                    ends.append({"o": oo, "val": E.enc(v) if oo == "ok" else {"t": "null"}})
            fs.append({"o": "ok" if o == "ok" else "refused", "err": err and f" {how}: {err}", "printed": printed(p) if o == "ok" else [], "ends": ends})
            said.append(f"{how}: {p.asdicts() if o == 'ok' else err}"[:200])
        rec.add({"k": "agree", "ops": ptr.enc_ops(ops), "fs": fs}, ops=ops, unicode_escape=ue, uri_decode=uri, doc=doc, forms=said)
    rec.judge(key="forms with decoded pointers")
    # the listed finding: decoded pointers are printed as they are, and decoded again when read with decoding enabled
    p = jp.JSONPatch().add(jp.JSONPointer("/\\u0061", unicode_escape=False), 1)
    q = jp.JSONPatch(p.asdicts())
    if q.apply({}) != p.apply({}):
        c.finding("a printed pointer that contains a backslash is decoded when the dicts are read back with escape decoding enabled")


def chain(jp, p, ops, P):
    for o in ops:
        a = (P(o["from"]), P(o["path"])) if o["op"] in ("move", "copy") else (P(o["path"]),) if o["op"] == "remove" else (P(o["path"]), o["value"])
        getattr(p, o["op"])(*a)
    return p


def run(c):
    jp = core.load_repo()
    life(c, jp)
    agreeing(c, jp)
    one = explore(c, 1, True, DOCS if c.thorough else DOCS[:5], "one operation").prints
    if not c.thorough:
        one = c.rng("one").sample(one, min(len(one), 6000))
    c.sample({"op": decode_op(one[3]), "doc": E.dec(one[3]["d"])})

    def rep(case, bad):
        op = decode_op(case)
        n = 0
        for how, make in forms(jp, [op]):
            info = {"form": how, "op": op, "doc": E.dec(case["d"])}
            o, p, err = outcome(jp, make)
            if o != "ok":
                bad("patch not built: " + err, {**info, "error": repr(p)})
                continue
            ds = p.asdicts()
            if len(ds) != 1 or set(ds[0]) != set(op) or ds[0]["op"] != op["op"] or not E.same(ds[0], op):
                bad("patch prints another list of dicts", {**info, "got": ds})
            for k in range(2):
                o, v = judge_case(jp, case, bad, lambda: p.apply(E.dec(case["d"])), {**info, "application": k + 1})
                n += 1
                if o == "ok":
                    scramble(v)
            if not E.same(p.asdicts(), [op]):
                bad("applying a patch changes it", {**info, "got": p.asdicts()})
        return n
    c.replay(one, rep, "transitions by every form")

    r = c.rng("forms")
    rec = Recorder(c)
    for _ in range(c.n(900, 9000)):
        doc = ptr.ptr_doc(r, distinct=r.p(0.3), odd=0.5)
        di = rec.doc(doc)
        ops = ptr.rand_patch(r, doc)
        ue = r.p(0.5)
        eops = ptr.enc_ops(ops)
        given = copy.deepcopy(ops)
        for how, make in forms(jp, given, ue):
            if not r.p(0.5):
                continue
            o, p, err = outcome(jp, make)
            rec.add({"k": "forms", "ops": eops, "ue": ue, "o": o, "err": err, "printed": printed(p) if o == "ok" else []},
                    form=how, ops=ops, got=repr(p.asdicts() if o == "ok" else p))
            if o != "ok":
                continue
            results = []
            for k in range(3):
                o, v, err = outcome(jp, lambda: p.apply(copy.deepcopy(doc)))
                rec.add(event(ops, ue, di, o, v, err), form=how, application=k + 1, ops=ops, doc=doc, got=repr(v))
                if o == "ok":
                    before = [E.enc_cmp(E.enc(x)) for x in results]
                    scramble(v)
                    if before != [E.enc_cmp(E.enc(x)) for x in results]:
                        c.violate("results of two applications share state", {"form": how, "ops": ops, "doc": doc})
                    results.append(v)
            rec.add({"k": "forms", "ops": eops, "ue": ue, "o": "ok", "err": "", "printed": printed(p)},
                    form=how, ops=ops, after="three applications", got=repr(p.asdicts()))
        if not E.same(given, ops) or [list(o) for o in given] != [list(o) for o in ops]:
            c.violate("the caller's operation list is changed", {"ops": ops, "after": given})
    rec.judge()
