"""C12: query iterator operations."""
import itertools

from checks.common import *  # noqa: F403

ALIAS = {"limit": ["limit", "head", "first"], "skip": ["skip", "drop"], "tail": ["tail", "last"], "first": ["first_one", "one"],
         "last": ["last_one"], "take": ["take"], "tee": ["tee"]}
VIEWS = ["iter", "values", "locations", "items", "pointers", "for"]


def view(q, how, n=None):
    """The remaining matches as a view lists them: (value, location, pointer) with what the view does not show left out."""
    take = (lambda it: list(itertools.islice(it, n))) if n is not None else list
    if how == "values":
        return [(v,) for v in take(q.values())]
    if how == "locations":
        return [(None, p) for p in take(q.locations())]
    if how == "items":
        return [(v, p) for p, v in take(q.items())]
    if how == "pointers":
        return [(None, None, str(p)) for p in take(q.pointers())]
    return [(m.obj, m.path, str(m.pointer())) for m in (take(iter(q)) if how == "iter" else take(m for m in q))]


def shows(how, row):
    v, p, t = row
    return {"values": (v,), "locations": (None, p), "items": (v, p), "pointers": (None, None, t)}.get(how, row)


def agree(got, want):
    return len(got) == len(want) and all(len(g) == len(w) and strict(g[0], w[0]) and g[1:] == w[1:] for g, w in zip(got, want))


# eight children each: the values that pass for nothing, equal ones, containers
_SAME = {"x": 1}
ARRAYS = [list(range(1, 9)), [None, False, 0, "", [], {}, 0.0, None], [1, 1, True, 1.0, 1, "1", [1], [1]], [_SAME, None, _SAME, [], "", _SAME, {}, 1],
          ["a", "a", "", None, None, {"m": 1}, [0], False]]
OBJECT = {"a": None, "b'": 0, "": "", "a/b": [], "~": {}, "0": False, "\n": "x", "é": None}
DOCS = [{"m": a} for a in ARRAYS] + [{"m": OBJECT}]


def rows_of(doc):
    m = doc["m"]
    if isinstance(m, list):
        return [(v, f"$['m'][{i}]", f"/m/{i}") for i, v in enumerate(m)]
    esc = {"'": "\\'", "\n": "\\n"}
    return [(v, "$['m']['" + "".join(esc.get(ch, ch) for ch in k) + "']", "/m/" + k.replace("~", "~0").replace("/", "~1")) for k, v in m.items()]


def walk(jp, start, rows, hist, rests, live, salt, bad):
    """Walk one chain through the code; salt picks among aliases, views and draining orders."""
    pool = [start()]
    names = []
    k = salt
    for n, c in enumerate(hist):
        q = pool[c["q"] - 1]
        al = ALIAS[c["op"]]
        name = al[k % len(al)]
        k = k // len(al) + n
        names.append(f"{c['q']}.{name}({c['n']})")
        args = () if c["op"] in ("first", "last") or (c["op"] == "tee" and c["n"] == 2 and k % 2) else (c["n"],)
        o, v = core.call(getattr(q, name), *args)
        info = {"chain": names, "step": n + 1, "got": repr(v)}
        if c["out"] == "error":
            if o == "ok" or not isinstance(v, ValueError):
                bad("negative count not refused with a value error", info)
                return
        elif o != "ok":
            bad(f"operation fails with {core.ename(v)}", info)
            return
        elif c["out"] == "self":
            if v is not q:
                pool[c["q"] - 1] = v
        elif c["out"] == "match":
            if v is None or not agree([(v.obj, v.path, str(v.pointer()))], [rows[c["m"] - 1]]):
                bad("wrong match", {**info, "want": c["m"]})
                return
        elif c["out"] == "none":
            if v is not None:
                bad("match from an exhausted iterator", info)
                return
        elif c["op"] == "take":
            pool.append(v)
        else:
            if len(v) != c["n"]:
                bad("tee gives another number of iterators", info)
                return
            pool.extend(v)
    idx = [i for i in range(len(pool)) if live[i]]
    if salt % 3 == 1:
        idx.reverse()
    if salt % 3 == 2 and len(idx) > 1:   # drain in alternation
        its = {i: iter(pool[i]) for i in idx}
        got = {i: [] for i in idx}
        todo = list(idx)
        while todo:
            for i in list(todo):
                m = next(its[i], None)
                if m is None:
                    todo.remove(i)
                else:
                    got[i].append((m.obj, m.path, str(m.pointer())))
        how = dict.fromkeys(idx, "iter")
    else:
        how = {i: VIEWS[(salt // 3 + i) % len(VIEWS)] for i in idx}
        got = {i: view(pool[i], how[i]) for i in idx}
    for i in idx:
        if not agree(got[i], [shows(how[i], rows[k - 1]) for k in rests[i]]):
            bad("remaining matches differ from the list operations'", {"chain": names, "iterator": i + 1, "got": got[i], "want": rests[i],
                                                                       "rows": rows, "view": how[i]})


def starters(jp, n, doc):
    env = jp.JSONPathEnvironment()
    if isinstance(doc["m"], dict):   # no slices of objects: name the members
        names = [r[1][7:-1] for r in rows_of(doc)[:n]]
        q = "$.m[" + ",".join(names) + "]" if names else "$.m.zz"
        return [lambda: jp.query(q, doc), lambda: env.query(q, doc), lambda: jp.compile(q).query(doc),
                lambda: jp.compile(q + " | $.zz").query(doc), lambda: jp.query("$.zz | " + q, doc), lambda: jp.query(q + " & $.m.*", doc)]
    q = f"$.m[:{n}]"
    return [lambda: jp.query(q, doc), lambda: env.query(q, doc), lambda: jp.compile(q).query(doc),
            lambda: jp.query(f"$.m[:{n // 2}] | $.m[{n // 2}:{n}]", doc), lambda: jp.compile(f"$.m[:{n}] & $.m.*").query(doc),
            lambda: jp.query(f"$.m[:{n}] & $.m[:{n}]", doc)]


def run(c):
    jp = core.load_repo()
    props = "INVARIANT Contiguous\nPROPERTY Refused\nPROPERTY TakeSplits\n"
    plans = [(4, 3, "{-1,0,1,2,5}"), (3, 2, "{-2,-1,0,1,2,3,4,7}"), (0, 2, "{-1,0,1}"), (1, 3, "{-1,0,1,2}")]
    if c.thorough:
        plans += [(4, 4, "{-1,0,1,3}"), (8, 3, "{-1,0,1,2,3,4,7,8,9}"), (2, 4, "{-1,0,1,2,3}")]
    for n, ops, counts in plans:
        r = c.explore("MC_Iter", cfg(n, ops, counts, props), key=f"n={n} ops={ops}")
        st = [(x, rows_of(d)) for d in DOCS for x in starters(jp, n, d)]

        def one(case, bad):
            k = 0
            for s in range(2):
                salt = case["i"] * 7 + s * 3 + case["i"] // 11
                x, rows = st[(salt * 5 + case["i"]) % len(st)]
                walk(jp, x, rows, case["h"], case["r"], case["l"], salt, bad)
                k += 1
            return k
        c.sample({"chain": [(h["op"], h["q"], h["n"], h["out"]) for h in r.prints[len(r.prints) // 2]["h"]], "rests": r.prints[len(r.prints) // 2]["r"]})
        c.replay([{"i": i, **p} for i, p in enumerate(r.prints)], one, "chains")
    sessions(c, jp)


def cfg(n, ops, counts, props):
    """TLC's configuration syntax has no negative numbers: a definition is substituted instead."""
    name = "Counts_" + counts.strip("{}").replace("-", "m").replace(",", "_")
    return f"INIT Init\nNEXT Next\n{props}CONSTANTS N={n} MaxOps={ops} Counts <- {name}\n"


def session(jp, r, text, doc, full):
    """A random session; returns the event the specification judges."""
    where = {m.path: i + 1 for i, m in enumerate(full)}

    def num(m):
        i = where.get(m.path, 0)
        return i if i and strict(m.obj, full[i - 1].obj) else -1
    pool = [r.pick([lambda: jp.query(text, doc), lambda: jp.compile(text).query(doc), lambda: jp.JSONPathEnvironment().query(text, doc)])()]
    live = [True]
    h = []
    for _ in range(r.pick([1, 2, 4, 7, 10])):
        qs = [i for i in range(len(pool)) if live[i]]
        if not qs:
            break
        q = r.pick(qs)
        op = r.pick(["limit", "skip", "tail", "take", "tee", "first", "last", "skip", "take", "first"])
        n = 0 if op in ("first", "last") else r.pick([0, 1, 1, 2, 3, len(full), len(full) + 1, max(0, len(full) - 1), -1, -3])
        if op == "tee":
            n = r.pick([2, 2, 3, 1, 0, -1])
        if op in ("limit", "tail", "tee") and r.p(0.5):
            n = max(n, len(full) - 1) if op != "tee" else n
        o, v = core.call(getattr(pool[q], r.pick(ALIAS[op])), *(() if op in ("first", "last") else (n,)))
        c = {"op": op, "q": q + 1, "n": n, "out": "?", "m": 0}
        if o != "ok":
            c["out"] = "error" if isinstance(v, ValueError) else core.ename(v)
        elif op in ("first", "last"):
            c["out"] = "none" if v is None else "match"
            c["m"] = num(v) if v is not None else 0
        elif op == "take":
            c["out"] = "new"
            pool.append(v)
            live.append(True)
        elif op == "tee":
            c["out"] = "new"
            live[q] = False
            pool.extend(v)
            live.extend([True] * len(v))
        else:
            c["out"] = "self"
            pool[q] = v
        h.append(c)
        if c["out"] not in ("self", "new", "none", "match", "error"):
            break
    rests = [[] for _ in pool]
    byloc = {m.path: i for m, i in zip(full, range(1, len(full) + 1))}
    byptr = {str(m.pointer()): i for m, i in zip(full, range(1, len(full) + 1))}

    def listed(q, how):
        if how == "locations":
            return (byloc.get(p, 0) for p in q.locations())
        if how == "items":
            return (byloc[p] if p in byloc and strict(v, full[byloc[p] - 1].obj) else -1 for p, v in q.items())
        if how == "pointers":
            return (byptr.get(str(p), 0) for p in q.pointers())
        return (num(m) for m in q)
    views = ["iter", "iter", "items", "locations"] + (["pointers"] if len(byptr) == len(full) else [])
    its = {i: listed(pool[i], r.pick(views)) for i in range(len(pool)) if live[i]}
    while its:   # drain in a random interleaving
        i = r.pick(list(its))
        m = next(its[i], None)
        if m is None:
            del its[i]
        else:
            rests[i].append(m)
    return {"k": "iter", "n": len(full), "h": h, "r": rests}


def sessions(c, jp):
    r = c.rng("sessions")
    rec = Recorder(c)
    while len(rec.events) < c.n(6000, 60000):
        doc = gen.gen_doc(r)
        text = r.pick(["$..*", "$.*", "$[*]", "$.*.*", "$..[?@]", "$.a", "$.zz", "$", "$.* | $.*.*"])
        full = jp.JSONPathEnvironment().finditer(text, doc)
        full = list(full)
        if len({m.path for m in full}) != len(full):
            continue
        for _ in range(4):
            o, e = core.call(session, jp, r, text, doc, full)
            if o != "ok":
                c.violate("a session with query iterators fails with " + core.ename(e), {"query": text, "doc": doc, "error": repr(e)})
                continue
            rec.add(e, query=text, doc=doc, session=e)
    rec.judge()
