"""C07: the compile-time gate."""
from checks.common import *  # noqa: F403

VALUES = ["1", "'a'", "true", "null", "1.5", "-0"]


def outcome(fam, o, v):
    if o == "ok":
        return "accepted", ""
    return ("refused" if isinstance(v, fam) else "other"), core.ename(v)


def run(c):
    jp = core.load_repo()
    fam = jp.JSONPathError
    r = c.explore("MC_Gate", "INIT Init\nNEXT Next\nINVARIANT Out\nINVARIANT Plain\nINVARIANT Agree\n"
                  + f"CONSTANTS Depth={3 if c.thorough else 2} Wide=FALSE\n", key="gate")
    if {p["c"] for p in r.prints} != {"valid", "reject"}:
        raise tlc.MachineryError("gate exploration is one-sided")
    envs = {"default": jp.compile, "typed": jp.JSONPathEnvironment(well_typed=True).compile, "evaluated": lambda t: jp.findall(t, [{"a": 1}])}
    for p in r.prints:
        for fl in p["f"]:
            c.count("reject:" + fl)
    c.count("valid", sum(p["c"] == "valid" for p in r.prints))

    def one(p, bad):
        t = E.uncodes(p["t"])
        for name, f in envs.items():
            o, v = core.call(f, t)
            got, err = outcome(fam, o, v)
            if p["c"] == "valid" and got != "accepted":
                bad("valid query not accepted: " + err, {"query": t, "how": name, "error": str(v)})
            elif p["c"] == "reject" and got != "refused":
                bad("query not refused: " + " ".join(p["f"]), {"query": t, "how": name, "got": got, "error": err})
        return len(envs)
    c.replay(r.prints, one, "gate")
    mutants(c, jp, fam)
    ranges(c, jp, fam)


def mutants(c, jp, fam):
    """Random valid spellings, and the same texts damaged a little."""
    rec = Recorder(c)
    r = c.rng("gate")

    def ev(t):
        o, v = core.call(jp.compile, t)
        o, err = outcome(fam, o, v)
        rec.add({"k": "gate", "t": E.codes(t), "o": o, "err": err, "d": 1, "c": 1}, query=t, got=o, error=err)
    for _ in range(c.n(500, 4000)):
        doc = gen.gen_doc(r)
        for _ in range(10):
            q = gen.QGen(r, doc, fdepth=3).any()
            t = gen.Spell(r).query(q, top=True)
            ev(t)
            for _ in range(4):
                ev(damage(r, q, t))
            ev(gen.Spell(r).query(break_types(r, q), top=True))
            ev(gen.Spell(r).query(break_types(r, q), top=True))
    rec.doc(None)
    rec.judge()


TOKENS = ["[", "]", "(", ")", ",", ",]", "[]", "?", "*", "..", ".", "$", "@", "@.*", "==", "<", "&&", "||", "!", "01", "-0", "-01", "00",
          "9007199254740992", "-9007199254740992", "1e2", "'a'", "true", "length(@.a)", "count(@.*)", "match(@.a,'b')", "nope(@)",
          "@..a", "@[1:]", ":", " ", "value(@..a)==1", "search(@,@)", "length()", "[1,]", "[0,1]", "['a',]", "[?@.a,]"]


def damage(r, q, t):
    k = r.randrange(4)
    i = r.randrange(len(t) + 1)
    if k == 0:
        return t[:i] + r.pick(TOKENS) + t[i:]
    if k == 1 and t:
        j = min(len(t), i + r.pick([1, 1, 2, 3]))
        return t[:i] + t[j:]
    if k == 2:
        j = min(len(t), i + r.pick([1, 2, 4]))
        return t[:i] + r.pick(TOKENS) + t[j:]
    j = r.randrange(len(t) + 1)
    i, j = min(i, j), max(i, j)
    return t[:j] + t[i:j] + t[j:]


def break_types(r, x):
    """Replace one random sub-expression by an operand of another kind."""
    pool = [("q", "self", [(False, [("wild",)])]), ("q", "self", [(True, [("name", "a")])]), ("q", "self", [(False, [("name", "a"), ("idx", 0)])]),
            ("lit", 1), ("lit", "a"), ("lit", None), ("fn", "length", [("q", "self", [])]), ("fn", "count", [("q", "self", [(False, [("wild",)])])]),
            ("fn", "match", [("q", "self", []), ("lit", "a")]), ("fn", "nope", [("q", "self", [])]), ("fn", "length", []),
            ("fn", "value", [("q", "self", []), ("q", "self", [])]), ("q", "root", [(False, [("idx", 2**53)])]),
            ("q", "self", [(False, [("slice", None, -2**53, None)])]), ("par", ("q", "self", [])), ("q", "self", [])]
    spots = []

    def walk(y, path):
        if isinstance(y, tuple) and y and y[0] in ("or", "and", "not", "par", "cmp", "q", "lit", "fn") and len(path) > 1:
            spots.append(path)
        if isinstance(y, (tuple, list)):
            for i, z in enumerate(y):
                walk(z, path + [i])
    walk(x, [])
    if not spots:
        return x

    def put(y, path, z):
        if not path:
            return z
        w = list(y)
        w[path[0]] = put(y[path[0]], path[1:], z)
        return tuple(w) if isinstance(y, tuple) else w
    return put(x, r.pick(spots), r.pick(pool))


def ranges(c, jp, fam):
    """Configured integer bounds other than the default ones."""
    rec = Recorder(c)
    rec.doc(None)
    r = c.rng("range")
    for _ in range(c.n(60, 400)):
        hi = r.pick([0, 1, 9, 10, 99, 2**31, 2**53, 2**64, 10**30])
        lo = r.pick([0, 1, 5, 10, 2**31, 2**53, 10**30])

        class Env(jp.JSONPathEnvironment):
            max_int_index = hi
            min_int_index = -lo
        env = Env()
        near = [0, 1, hi, hi + 1, hi - 1, hi * 10, -lo, -lo - 1, -lo + 1, -lo * 10, 7, -3]
        near = [v for v in near]
        for _ in range(20):
            k = r.randrange(4)
            v = [r.pick(near) for _ in range(3)]
            if k == 0:
                s = ("idx", v[0])
            else:
                s = ("slice", *(x if r.p(0.6) else None for x in v))
            q = ("q", "root", [(r.p(0.2), [s] if r.p(0.7) else [("name", "a"), s])])
            if k == 3:
                q = ("q", "root", [(False, [("filt", ("q", "self", q[2]))])])
            if k == 2 and s[0] == "idx":
                q = ("q", "root", [(False, [("filt", ("cmp", "==", ("q", "self", [(False, [s])]), ("lit", 1)))])])
            t = gen.Spell(r).query(q)
            o, v = core.call(env.compile, t)
            o, err = outcome(fam, o, v)
            rec.add({"k": "range", "t": E.codes(t), "lo": E.codes(str(lo)), "hi": E.codes(str(hi)), "o": o, "err": err, "d": 1, "c": 1},
                    query=t, min_int_index=-lo, max_int_index=hi, got=o, error=err)
    rec.judge()
