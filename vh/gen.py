"""Seeded generators of documents and queries (inputs only; no oracle here)."""
from __future__ import annotations

import random

RESERVED = {"and", "or", "not", "in", "contains", "true", "false", "null", "True", "False", "Null",
            "nil", "Nil", "none", "None", "undefined", "missing"}

PLAIN = ["a", "b", "c", "d", "ab", "a1", "A", "foo", "bar"]
NAMES = PLAIN + [
    "", " ", "a b", "a'b", 'a"b', "a\\b", "a\\", "\\", "\\\\", "'", '"', "\\'", '\\"', "é", "☺", "😀", "e\u0301",
    "0", "1", "-1", "01", "10", "and", "or", "not", "in", "true", "null", "nil", "contains", "missing",
    "_", "_a", "__", "$", "@", "*", "~", "#", "^", "|", "&", "?", "\n", "\t", "\b", "\f", "\r", "\x00", "\x1f", "\x7f",
    "a/b", "a~b", "~1", "~0", "~01", "/", "length", "a.b", ".", "..", "[0]", "']", "a]", "a,b", "\u0080", "\ud7ff", "\ue000",
    "\u2028", "\uffff", "\U0010ffff", "u0041", "\\u0041", "\\n", "%41", "andy", "orb", "nothing", "inner", "true1", "#a", "~a",
    "-", "a-b", "+1", "1_0", " 1", "1e1", "\uff11", "K", "İ", "ß",
]
STRINGS = ["", "a", "b", "ab", "abc", "A", "aa", "foo", "é", "☺", "😀", "1", "0", "true", "null", "a b", "\n", "'", '"',
           "\\", "\uffff", "\U00010000", "$", "[", "{}", "[1]", "z"]
NUMS = [0, 1, -1, 2, 3, 10, 100, 1.0, 1.5, 0.1, -0.5, 1e2, 1e-3, 9007199254740991, -9007199254740991, -0.0, 1e300]


class Rng(random.Random):
    def p(self, x):
        return self.random() < x

    def pick(self, xs):
        return xs[int(self.random() * len(xs))]


def gen_name(r, odd=0.35):
    return r.pick(NAMES) if r.p(odd) else r.pick(PLAIN)


def gen_prim(r):
    k = r.randrange(10)
    if k < 1:
        return None
    if k < 2:
        return True
    if k < 3:
        return False
    if k < 7:
        return r.pick(NUMS)
    return r.pick(STRINGS)


def gen_value(r, depth, odd=0.35, width=4):
    k = r.randrange(10)
    if depth <= 0 or k < 3:
        return gen_prim(r)
    n = r.pick([0, 1, 2, 2, 3, 3, width])
    if k < 6:
        return [gen_value(r, depth - 1, odd, width) for _ in range(n)]
    out = {}
    for _ in range(n):
        out[gen_name(r, odd)] = gen_value(r, depth - 1, odd, width)
    return out


def size(v):
    if isinstance(v, dict):
        return 1 + sum(size(x) for x in v.values())
    if isinstance(v, list):
        return 1 + sum(size(x) for x in v)
    return 1


def gen_doc(r, depth=3, odd=0.35, maxsize=30, scalar_root=0.03):
    while True:
        k = r.randrange(2)
        if r.p(scalar_root):
            v = r.pick([None, True, False, 0, 1, 1.5])
            return v
        n = r.pick([0, 1, 2, 3, 3, 4, 5])
        if k:
            v = [gen_value(r, depth - 1, odd) for _ in range(n)]
        else:
            v = {gen_name(r, odd): gen_value(r, depth - 1, odd) for _ in range(n)}
        if size(v) <= maxsize:
            return v


def all_nodes(v, loc=()):
    yield loc, v
    if isinstance(v, dict):
        for k, x in v.items():
            yield from all_nodes(x, loc + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v):
            yield from all_nodes(x, loc + (i,))


def doc_names(v):
    out = set()
    for loc, _ in all_nodes(v):
        out.update(p for p in loc if isinstance(p, str))
    return sorted(out)


def doc_prims(v):
    out = []
    for _, x in all_nodes(v):
        if not isinstance(x, (dict, list)):
            out.append(x)
    return out


# --- abstract queries ---------------------------------------------------------


class QGen:
    """Generates abstract queries biased towards a document's contents."""

    def __init__(self, r, doc, ext=False, ctx=None, filters=True, fdepth=2, regex=True):
        self.r = r
        self.doc = doc
        self.ext = ext
        self.ctx = ctx
        self.names = doc_names(doc) or ["a"]
        self.prims = [p for p in doc_prims(doc)] or [1]
        self.filters = filters
        self.regex = regex
        self.fdepth = fdepth

    def name(self):
        r = self.r
        return r.pick(self.names) if r.p(0.8) else gen_name(r)

    def index(self):
        r = self.r
        k = r.randrange(20)
        if k == 0:
            return r.pick([9007199254740991, -9007199254740991, 100, -100])
        return r.pick([0, 0, 0, 1, 1, 2, 3, -1, -1, -2, -3, 5])

    def slice(self):
        r = self.r

        def b():
            return None if r.p(0.4) else r.pick([0, 1, 2, 3, 4, 10, -1, -2, -3, -4, -10, 9007199254740991, -9007199254740991])
        c = None if r.p(0.5) else r.pick([1, 2, 3, -1, -2, -3, 0, 9007199254740991, -9007199254740991])
        return ("slice", b(), b(), c)

    def selector(self, depth, filters):
        r = self.r
        k = r.randrange(100)
        if filters and self.filters and depth > 0 and k < 22:
            return ("filt", self.logical(depth - 1))
        if k < 50:
            return ("name", self.name())
        if k < 68:
            return ("idx", self.index())
        if k < 82:
            return self.slice()
        if self.ext and k < 88:
            return ("keys",)
        return ("wild",)

    def segment(self, depth, filters=True):
        r = self.r
        desc = r.p(0.22)
        n = 1 if r.p(0.78) else r.pick([2, 2, 3])
        sels = [self.selector(depth, filters) for _ in range(n)]
        if r.p(0.06):   # the same nodes again
            sels.append(r.pick(sels))
        return (desc, sels)

    def query(self, root="root", maxseg=4, depth=None, filters=True):
        r = self.r
        depth = self.fdepth if depth is None else depth
        n = r.pick([0, 1, 1, 2, 2, 3, maxseg]) if root == "root" else r.pick([0, 1, 1, 1, 2, 2])
        return ("q", root, [self.segment(depth, filters) for _ in range(n)])

    def guided(self, depth=None):
        """A query following a real location, with some steps generalised."""
        r = self.r
        depth = self.fdepth if depth is None else depth
        loc, _ = r.pick(list(all_nodes(self.doc)))
        segs = []
        i = 0
        while i < len(loc):
            st = loc[i]
            k = r.randrange(12)
            if k == 0:
                segs.append((False, [("wild",)]))
            elif k == 1 and self.filters and depth > 0:
                segs.append((False, [("filt", self.logical(depth - 1))]))
            elif k == 2:
                segs.append(self.segment(depth))
            else:
                sel = ("name", st) if isinstance(st, str) else ("idx", st)
                if isinstance(st, int) and k == 3:
                    sel = self.slice()
                sels = [sel]
                while r.p(0.15):
                    sels.insert(r.randrange(len(sels) + 1), self.selector(depth, True))
                desc = r.p(0.15)
                if desc:
                    i = min(len(loc) - 1, i + r.randrange(2))
                    st = loc[i]
                    sels[0] = ("name", st) if isinstance(st, str) else ("idx", st)
                segs.append((desc, sels))
            i += 1
        if r.p(0.3):
            segs.append(self.segment(depth))
        return ("q", "root", segs)

    def any(self):
        return self.guided() if self.r.p(0.6) else self.query()

    # filter expressions ---------------------------------------------------
    def singular(self, root=None):
        r = self.r
        root = root or self.qroot()
        segs = []
        for _ in range(r.pick([0, 1, 1, 1, 2])):
            segs.append((False, [("name", self.name()) if r.p(0.65) else ("idx", self.index())]))
        return ("q", root, segs)

    def qroot(self):
        r = self.r
        if self.ext:
            return r.pick(["self"] * 6 + ["root"] * 2 + ["ctx", "fake"])
        return r.pick(["self"] * 7 + ["root"] * 3)

    def fquery(self, depth):
        r = self.r
        if r.p(0.5):
            return self.singular()
        return self.query(self.qroot(), 3, depth, filters=depth > 0)

    def literal(self):
        r = self.r
        k = r.randrange(10)
        if k < 5:
            v = r.pick(self.prims)
        elif k < 8:
            v = gen_prim(r)
        else:
            v = r.pick([True, False, None, 0, 1, "", "a"])
        return ("lit", v)

    def regex_lit(self):
        return ("lit", gen_regex(self.r))

    def fn_value(self, depth):
        r = self.r
        k = r.randrange(3)
        if k == 0:
            return ("fn", "length", [self.value_arg(depth)])
        if k == 1:
            return ("fn", "count", [self.fquery(depth - 1)])
        return ("fn", "value", [self.fquery(depth - 1)])

    def value_arg(self, depth):
        r = self.r
        k = r.randrange(10)
        if k < 6 or depth <= 0:
            return self.singular()
        if k < 8:
            return self.literal()
        return self.fn_value(depth - 1)

    def comparand(self, depth):
        r = self.r
        k = r.randrange(10)
        if self.ext and r.p(0.1):
            return r.pick([("key",), ("undef",)])
        if k < 4:
            return self.literal()
        if k < 9 or depth <= 0:
            return self.singular()
        return self.fn_value(depth)

    def comparison(self, depth):
        r = self.r
        ops = ["==", "!=", "<", "<=", ">", ">="]
        if self.ext and r.p(0.35):
            k = r.randrange(4)
            if k == 0:
                return ("cmp", "<>", self.comparand(depth), self.comparand(depth))
            if k == 1:
                op = r.pick(["in", "contains"])
                lst = ("list", [self.literal() for _ in range(r.pick([0, 1, 2, 3]))])
                coll = r.pick([lst, self.singular(), ("lit", r.pick(STRINGS))])
                it = self.comparand(depth)
                return ("cmp", op, it, coll) if op == "in" else ("cmp", op, coll, it)
            if k == 2 and self.regex:
                return ("cmp", "=~", r.pick([self.singular(), ("lit", r.pick(STRINGS)), ("key",)]),
                        ("re", gen_regex(r, slash=False) or "a", r.pick(["", "i", "s", "m", "a", "is"])))
        a, b = self.comparand(depth), self.comparand(depth)
        return ("cmp", r.pick(ops), a, b)

    def test(self, depth):
        r = self.r
        k = r.randrange(10)
        if k < 7 or not self.regex:
            return self.fquery(depth)
        return ("fn", r.pick(["match", "search"]),
                [self.value_arg(0) if r.p(0.8) else self.value_arg(depth),
                 self.regex_lit() if r.p(0.8) else self.value_arg(0)])

    def basic(self, depth):
        r = self.r
        k = r.randrange(10)
        if k < 1 and depth > 0:
            x = ("par", self.logical(depth - 1))
            return ("not", x) if r.p(0.5) else x
        if k < 6:
            return self.comparison(depth)
        x = self.test(depth)
        return ("not", x) if r.p(0.3) else x

    def conj(self, depth):
        x = self.basic(depth)
        while self.r.p(0.2):
            x = ("and", x, self.basic(depth))
        return x

    def logical(self, depth):
        x = self.conj(depth)
        while self.r.p(0.2):
            x = ("or", x, self.conj(depth))
        return x


def gen_regex(r, slash=True):
    """Patterns on which I-Regexp and Python agree."""
    def atom(d):
        k = r.randrange(12)
        if k < 5:
            return r.pick(["a", "b", "c", "1", "A", "é", "f", "o"])
        if k < 6:
            return "."
        if k < 8:
            return r.pick(["[ab]", "[a-c]", "[^a]", "[0-9]", "[^0-9a]", "[abA-Z]", "[a-]" if False else "[-a]"])
        if k < 9:
            return r.pick(["\\.", "\\*", "\\(", "\\[", "\\\\", "\\n", "\\-", "\\?"])
        if d > 0:
            return "(" + alt(d - 1) + ")"
        return r.pick(["ab", "foo", "oo"])

    def piece(d):
        a = atom(d)
        if len(a) > 1 and a[0] not in "([\\":
            return a
        if r.p(0.3):
            a += r.pick(["*", "+", "?", "{2}", "{1,2}", "{0,1}", "{1,}"])
        return a

    def seq(d):
        return "".join(piece(d) for _ in range(r.pick([0, 1, 1, 2, 2, 3])))

    def alt(d):
        s = seq(d)
        while r.p(0.2):
            s += "|" + seq(d)
        return s
    return alt(2)


# --- spelling -------------------------------------------------------------------

STD = {"root": "$", "fake": "^", "self": "@", "key": "#", "ctx": "_", "keys": "~", "union": "|", "inter": "&"}


def is_short(name, dash=False):
    if not name:
        return False

    def first(c):
        return c.isascii() and c.isalpha() or c == "_" or 0x80 <= ord(c) <= 0xD7FF or ord(c) >= 0xE000
    return first(name[0]) and all(first(c) or (c.isascii() and c.isdigit()) or (dash and c == "-") for c in name[1:])


class Spell:
    """Spells an abstract query in one of the ways the grammar permits."""

    def __init__(self, r, toks=None, blanks=0.12, canonical=False, words=False, rootless=False, escapes=0.08):
        self.r = r
        self.toks = toks or STD
        self.bp = 0 if canonical else blanks
        self.canonical = canonical
        self.words = words
        self.rootless = rootless
        self.ep = 0 if canonical else escapes

    def b(self):
        r = self.r
        if self.bp and r.p(self.bp):
            return "".join(r.pick(" \t\n\r") if r.p(0.4) else " " for _ in range(r.pick([1, 1, 2])))
        return ""

    def b1(self):
        """At least one blank."""
        return self.b() or " "

    def string(self, s):
        r = self.r
        q = "'" if self.canonical or r.p(0.6) else '"'
        out = [q]
        simple = {8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 92: "\\"}
        for ch in s:
            o = ord(ch)
            if ch == q:
                out.append("\\" + ch if not r.p(self.ep) else self.uesc(o))
            elif o in simple:
                out.append("\\" + simple[o] if not r.p(self.ep * 3) else self.uesc(o))
            elif o < 32:
                out.append(self.uesc(o))
            elif ch == "/" and self.ep and r.p(0.3):
                out.append("\\/")
            elif r.p(self.ep):
                out.append(self.uesc(o))
            else:
                out.append(ch)
        out.append(q)
        return "".join(out)

    def uesc(self, o):
        def h(x):
            s = f"{x:04x}"
            return "\\u" + (s.upper() if self.r.p(0.5) else s)
        if o >= 0x10000:
            o -= 0x10000
            return h(0xD800 + (o >> 10)) + h(0xDC00 + (o & 0x3FF))
        return h(o)

    def number(self, v):
        r = self.r
        if isinstance(v, int):
            k = 0 if self.canonical else r.randrange(10)
            if k < 7:
                return str(v)
            if k == 7 and v % 10 == 0 and v:
                z = len(str(v)) - len(str(v).rstrip("0"))
                return str(v)[:-z] + r.pick(["e", "E"]) + r.pick(["", "+"]) + str(z)
            if k == 8:
                return f"{v}.0" if abs(v) < 10**15 else str(v)
            if v == 0:
                return r.pick(["-0", "0", "0.0", "0e1", "-0.0", "0E-2"])
            return f"{v}e0"
        t = repr(v)
        if "e" not in t and r.p(0.2) and not self.canonical:
            t += "0"
        if "e" in t and r.p(0.3):
            t = t.replace("e", "E")
        return t

    def lit(self, v):
        r = self.r
        if v is None:
            return r.pick(["null", "nil", "none", "Null", "Nil", "None"]) if self.words else "null"
        if v is True:
            return r.pick(["true", "True"]) if self.words else "true"
        if v is False:
            return r.pick(["false", "False"]) if self.words else "false"
        if isinstance(v, str):
            return self.string(v)
        return self.number(v)

    def sel(self, s, singular=False):
        k = s[0]
        if k == "name":
            if self.words and not self.canonical and is_short(s[1], True) and s[1] not in RESERVED and s[1] != "_" and self.r.p(0.4):
                return s[1]
            return self.string(s[1])
        if k == "idx":
            return str(s[1])
        if k == "slice":
            a, b, c = ("" if x is None else str(x) for x in s[1:])
            t = a + (self.b() if a else "") + ":" + self.b() + b
            if c or self.r.p(0.2):
                t += (self.b() if b else "") + ":" + ((self.b() + c) if c else "")
            return t
        if k == "wild":
            return "*"
        if k == "keys":
            return self.toks["keys"]
        return "?" + self.b() + self.expr(s[1])

    def seg(self, g, singular=False, first=False):
        desc, sels = g
        r = self.r
        if len(sels) == 1 and not self.canonical and r.p(0.6):
            s = sels[0]
            if s[0] == "wild":
                return "..*" if desc else ".*"
            if s[0] == "keys":
                return (".." if desc else ".") + self.toks["keys"]
            if s[0] == "name" and is_short(s[1]) and not (desc and (s[1] in RESERVED or s[1] == "_")):
                return (".." if desc else ".") + s[1]
        if singular:
            body = self.sel(sels[0], True)
            return "[" + body + "]"
        body = (self.b() + "," + self.b()).join(self.sel(s) for s in sels)
        return (".." if desc else "") + "[" + self.b() + body + self.b() + "]"

    def query(self, q, singular=False, top=False):
        _, root, segs = q
        out = [self.toks[root]]
        for g in segs:
            out.append(self.b() + self.seg(g, singular))
        t = "".join(out)
        if top and self.rootless and root == "root" and segs and not self.starts_reserved(segs[0]):
            t = t[len(self.toks[root]):].lstrip()
            if t.startswith(".") and not t.startswith(".."):
                t = t[1:]
        return t

    def starts_reserved(self, seg):
        return seg[1][0][0] == "name" and (seg[1][0][1] in RESERVED or seg[1][0][1] == "_")

    def kw(self, word, sym):
        if self.words and self.r.p(0.5):
            return " " + word + " "
        return self.b() + sym + self.b()

    def expr(self, x):
        k = x[0]
        if k == "or":
            return self.expr(x[1]) + self.kw("or", "||") + self.expr(x[2])
        if k == "and":
            return self.expr(x[1]) + self.kw("and", "&&") + self.expr(x[2])
        if k == "not":
            if self.words and self.r.p(0.5):
                return "not" + self.b1() + self.expr(x[1])
            return "!" + self.b() + self.expr(x[1])
        if k == "par":
            return "(" + self.b() + self.expr(x[1]) + self.b() + ")"
        if k == "cmp":
            op = x[1]
            if op in ("in", "contains"):
                return self.operand(x[2]) + self.b1() + op + self.b1() + self.operand(x[3])
            return self.operand(x[2]) + self.b() + op + self.b() + self.operand(x[3])
        if k == "q":
            return self.query(x)
        return self.operand(x)

    def operand(self, x):
        k = x[0]
        if k == "lit":
            return self.lit(x[1])
        if k == "q":
            return self.query(x, singular=True)
        if k == "fn":
            return x[1] + "(" + self.b() + (self.b() + "," + self.b()).join(self.arg(a) for a in x[2]) + self.b() + ")"
        if k == "key":
            return self.toks["key"]
        if k == "undef":
            return self.r.pick(["undefined", "missing"])
        if k == "list":
            return "[" + self.b() + (self.b() + "," + self.b()).join(self.operand(a) for a in x[1]) + self.b() + "]"
        if k == "re":
            return "/" + x[1] + "/" + x[2]
        return self.expr(x)

    def arg(self, a):
        if a[0] == "q":
            return self.query(a)
        return self.operand(a)
