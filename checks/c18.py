"""C18: the command line tool."""
import concurrent.futures
import io
import json
import subprocess
import sys

from vh import ptr, soup

from checks.common import *  # noqa: F403

DOC = {"a": [1, {"b": 2.5, "é": None}, "x\u2028\"\\/\x7f"], "b": {"a": [], "c": {}}, "\\u0061": 0, "%61": [-0.0, 1e100, 12345678901234567890], "\U0001F600": "\ud83d", "n": True, "": False}
DT = json.dumps(DOC)
RAW = json.dumps(DOC, ensure_ascii=False).replace("\ud83d", "\U0001F601")
TEXTS = [DT, RAW, json.dumps(DOC, indent=1)]
BAD_DOCS = ["", "{", '{"a": 1}}', "[1,]", "\ufeff[1", "nul", '"a', b'["\xff"]', b"\xff\xfe[", b'{"a": "\xc3("}', "'a'", "[" * 3000]
P = {
    "path": {
        "good": ["$.a", "$..*", "a", "", "$[?@.n == 1e999999]", "$['\U0001F600', 'n']", "$.a[?@.b > 1]", "$", "$.b.*", "^[?@.a]", "$.a | $.b", "$..[?@ == null]", "$.a[0]", "$['%61'].*", "$[?count(@.*) > 1]"],
        "nothing": ["$.nosuch", "$..[9]", "$[?@ == 'q']"],
        "syntax": ["$[", "$[?", "$.a[", "$[?@.a ==]", "$]", "$['a", "$ $", "$[?@ =~ /(/]", "-1", "--x", "$\n\n[", "$[?(\n\n@.a]"],
        "type": ["$[?length(@.*) > 1]", "$[?count(1) == 1]", "$[?match(@.a, 'a') == true]", "$[?value(@.a)]"],
        "nested type": ["$.a[?count(@[?length(@.*) == 0]) > 0]", "$ | $[?length(@)]"],
        "index": ["$[9007199254740992]", "$[:-9007199254740992]", "$.a[?@[9007199254740992]]"],
        "name": ["$[?nosuch(@.a)]", "$[?nosuch()]", "$[?length(nosuch(@)) == 1]"],
        "escape": ["$['\\u0061']", "$[?@ == '\\u0061']", '$["\\u0062"].*'],
        "text": [b"\xff", b"$.a\xc3", "$['\udcff']"],
    },
    "pointer": {
        "good": ["/a", "/a/-1", "/\\\\u0061", "/a/1", "/b/c", "/\U0001F600", "/n", "/a/1/é", "/", "/b"],
        "whole": [""],
        "syntax": ["a", "a/b", "$.a", "1", "#/a"],
        "missing": ["/nosuch", "/b/q", "/a/1/c", "/a/x", "/a/-"],
        "index": ["/a/3", "/a/99999999999", "/a/01", "/a/-4"],
        "scalar": ["/a/0/x", "/n/0", "/a/2/0"],
        "escape": ["/\\u0062/c", "/a/1/\\u00e9", "/\\ud83d\\ude00"],
        "encoded": ["/%62", "/%62/c", "/a%2f1", "/a/1/%C3%A9"],
        "text": [b"\xff", b"/\xc3("],
    },
}


def op(o, path, **k):
    return {"op": o, "path": path, **k}


P["patch"] = {
    "good": [[op("add", "/new", value={"x": "é"})], [op("remove", "/a/0"), op("replace", "/n", value=None)], [{"op": "move", "from": "/b", "path": "/a/0"}],
             [{"op": "copy", "from": "/a", "path": "/b/c/d"}], [op("test", "/n", value=True)], [op("add", "", value=[1.5])], [op("add", "/a/-", value=0)],
             [op("add", "/z", value=[1e-12, 0.1, 5e-324, 2**53 + 1, 1e300, 0.30000000000000004, -1e-7, 123456789.123456789, 10**30])],
             [op("replace", "/n", value=1.0000000000000002), op("test", "/n", value=1.0000000000000002)]],
    "empty": [[]],
    "operation": [[op("nosuch", "/a")], [{"path": "/a"}], [1], [[]], ["x"], [None], [op(1, "/a")], [{}]],
    "member": [[{"op": "add", "path": "/a"}], [{"op": "add", "value": 1}], [{"op": "move", "path": "/a"}], [{"op": "remove"}], [{"op": "copy", "from": "/a"}]],
    "syntax": [[op("add", "a", value=1)], [op("remove", 1)], [{"op": "move", "from": "b", "path": "/a"}], [op("remove", None)]],
    "missing": [[op("remove", "/q")], [op("replace", "/a/9", value=1)], [op("add", "/q/r", value=1)], [{"op": "copy", "from": "/q", "path": "/r"}], [op("add", "/a/7", value=1)]],
    "test": [[op("test", "/n", value=1)], [op("test", "/a", value=[])], [op("add", "/z", value=1), op("test", "/z", value="1")]],
    "encoded": [[op("remove", "/%62")], [op("replace", "/a/1/%C3%A9", value=1)]],
    "escape": [[op("remove", "/\\u0062")], [{"op": "move", "from": "/\\u0062", "path": "/z"}]],
    "text": ["", "[", b'["\xff"]', "nul", "[{]", "[" * 3000, b"\xfe\xff"],
    "not a list": [{}, {"op": "add", "path": "/a", "value": 1}, 1, "x", None],
}


def odd_doc(r):
    """The text of a document, and expressions that select from it."""
    kind = r.pick(["wide", "deep", "numbers"])
    if kind == "deep":
        n = r.pick([20, 60, 110])
        t = ("[" * n + "1" + "]" * n) if r.p(0.5) else ('{"a": ' * n + "[]" + "}" * n)
        tok = "0" if t[0] == "[" else "a"
        return '{"a": ' + t + "}", {"path": r.pick(["$.a", "$.a.*", f"$.a['{tok}']" if tok == "a" else "$.a[0]"]), "pointer": r.pick(["", "/a", "/a/" + tok]), "patch": [op("add", "/b", value=1), {"op": "copy", "from": "/a", "path": "/c"}]}
    if kind == "wide":
        n = r.pick([300, 3000])
        return json.dumps({"a": list(range(n)), "b": {f"k{i}": i for i in range(n)}}), {"path": r.pick(["$.a[::7]", "$.b.*", "$.a[?@ > 250]"]), "pointer": r.pick(["/a", f"/a/{n - 1}", f"/b/k{n - 1}"]), "patch": [op("remove", f"/a/{n // 2}"), op("add", f"/a/{n - 1}", value="x")]}
    nums = ["9007199254740993", "-9007199254740993", "123456789012345678901234567890", "1e16", "1E400", "-1e400", "1e-400", "-0", "-0.0", "0.1", "1.0", "100e-2", "5e-324", "1.7976931348623157e308"]
    r.shuffle(nums)
    return '{"a": [' + ", ".join(nums) + '], "b": ' + nums[0] + "}", {"path": r.pick(["$.a", "$..*", "$.b", "$.a[?@ < 2]"]), "pointer": r.pick(["/a", "/b", "/a/3"]), "patch": '[{"op": "copy", "from": "/a", "path": "/c"}, {"op": "remove", "path": "/b"}, {"op": "add", "path": "/d", "value": [' + ", ".join(nums[::2]) + "]}]"}


def lit(v):
    """A value with its numbers as JSON text."""
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return E.enc(v)
    if isinstance(v, (int, float)):
        return {"t": "lit", "x": E.codes(json.dumps(v))}
    if isinstance(v, dict):
        return {"t": "obj", "k": [E.codes(k) for k in v], "v": [lit(x) for x in v.values()]}
    return {"t": "arr", "a": [lit(x) for x in v]}


def as_bytes(t):
    return t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape")


class Tool:
    def __init__(self, c, jp):
        self.c, self.jp = c, jp
        self.cli = __import__("jsonpath.cli", fromlist=["main"])
        self.n = 0
        self.dir = os.path.join(c.work, "cli")
        os.makedirs(self.dir, exist_ok=True)

    def write(self, data):
        self.n += 1
        path = os.path.join(self.dir, f"f{self.n}")
        with open(path, "wb") as f:
            f.write(as_bytes(data))
        return path

    def library(self, cfg, expr, doc):
        """What the corresponding library call returns: (kind, value)."""
        jp = self.jp
        raw = as_bytes(doc)

        def target():
            if cfg["doc"] == "file":
                return io.BytesIO(raw)
            return io.TextIOWrapper(io.BytesIO(raw), encoding="utf-8")

        def go():
            if cfg["sub"] == "path":
                env = jp.JSONPathEnvironment(unicode_escape=not cfg["noesc"], well_typed=not cfg["notype"])
                return env.compile(expr).findall(target())
            if cfg["sub"] == "pointer":
                return jp.pointer.resolve(expr, target(), unicode_escape=not cfg["noesc"], uri_decode=cfg["uri"])
            return jp.patch.apply(expr, target(), unicode_escape=not cfg["noesc"], uri_decode=cfg["uri"])
        if cfg["sub"] != "patch" and isinstance(expr, bytes):
            return "other", None       # not a text
        if cfg["sub"] == "patch" and isinstance(expr, (str, bytes)):
            try:
                expr = json.loads(as_bytes(expr))
            except (ValueError, RecursionError):
                return "rejected", None
        if cfg["sub"] == "patch" and not isinstance(expr, list):
            return "rejected", None
        o, v = core.call(go)
        if o == "ok":
            try:
                json.dumps(v)
            except ValueError:
                return "other", None
            return "ok", lit(v)
        families = (jp.JSONPathError, jp.JSONPointerError, jp.JSONPatchError)
        try:
            json.loads(raw)
        except (ValueError, RecursionError):
            return "rejected", None
        return ("rejected" if isinstance(v, families) else "other"), None

    def argv(self, cfg, r, expr, doc):
        a = []
        for k, o in (("debug", "--debug"), ("pretty", "--pretty"), ("noesc", "--no-unicode-escape")):
            if cfg[k]:
                a.append(o)
        r.shuffle(a)
        a.append(cfg["sub"])
        parts = []
        if cfg["sub"] == "patch":
            parts.append([self.write(expr if isinstance(expr, (str, bytes)) else json.dumps(expr, ensure_ascii=r.p(0.5) or "\\ud" in json.dumps(expr)))])
        elif cfg["src"] == "inline":
            short, long = ("-q", "--query") if cfg["sub"] == "path" else ("-p", "--pointer")
            parts.append([long + "=" + expr] if r.p(0.3) or expr.startswith("-") else [r.pick([short, long]), expr])
        else:
            end = r.pick([b"", b"\n", b"\n"]) if not as_bytes(expr).endswith(b"\n") else b""
            parts.append([r.pick(["-r", "--path-file" if cfg["sub"] == "path" else "--pointer-file"]), self.write(as_bytes(expr) + end)])
        if cfg["doc"] == "file":
            parts.append([r.pick(["-f", "--file"]), self.write(doc)])
        out = None
        if cfg["out"] == "file":
            # there may be such a file already, and what it holds goes away
            out = self.write(r.pick(["", "[1]\n", "x" * 5000]))
            if r.p(0.5):
                os.remove(out)
            parts.append([r.pick(["-o", "--output"]), out])
        if cfg["uri"]:
            parts.append([r.pick(["-u", "--uri-decode"])])
        if cfg["notype"]:
            parts.append(["--no-type-checks"])
        r.shuffle(parts)
        return a + [x for p in parts for x in p], out

    def here(self, argv, doc):
        old = sys.argv, sys.stdin, sys.stdout, sys.stderr
        exc, name = False, ""
        sys.argv = ["json", *argv]
        sys.stdin = io.TextIOWrapper(io.BytesIO(as_bytes(doc)), encoding="utf-8")
        sys.stdout, sys.stderr = out, err = io.StringIO(), io.StringIO()
        try:
            o, v = core.call(self.cli.main)
        except SystemExit as e:
            o, v = "ok", e
        finally:
            sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        rc = 0
        if isinstance(v, SystemExit):
            rc = v.code if isinstance(v.code, int) else 0 if v.code is None else 1
        elif o != "ok":
            exc, name = True, core.ename(v)
        return rc, exc, name, out.getvalue(), err.getvalue()

    def there(self, argv, doc, module):
        env = {**os.environ, "PYTHONPATH": core.REPO, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONIOENCODING": "utf-8", "PYTHONUTF8": "1"}
        p = subprocess.run([sys.executable, "-m", module, *argv], input=as_bytes(doc), capture_output=True, timeout=60, env=env, cwd=self.dir, check=False)
        err = p.stderr.decode("utf-8", "backslashreplace")
        exc = "Traceback (most recent call last)" in err
        return p.returncode, exc, err.strip().splitlines()[-1][:80] if exc else "", p.stdout.decode("utf-8", "backslashreplace"), err

    def event(self, cfg, lib, ran, out):
        rc, exc, name, so, se = ran
        text = ""
        if out and os.path.exists(out):
            with open(out, encoding="utf-8") as f:
                text = f.read()
        return {"k": "cli", "cfg": cfg, "lib": lib[0], "val": lib[1] or {"t": "null"}, "rc": rc, "exc": exc, "ename": name, "out": E.codes(so), "err": E.codes(se),
                "file": E.codes(text)}


def run(c):
    jp = core.load_repo()
    r = c.explore("MC_Cli", "INIT Init\nNEXT Next\nINVARIANT ExitIffRefused\nINVARIANT OnlyWritesAtTheEnd\n")
    tool = Tool(c, jp)
    rec = Recorder(c)
    rr = c.rng("cli")
    other = 0
    later = []

    def one(cfg, expr, doc, sub=False, predicted=None):
        nonlocal other
        lib = tool.library(cfg, expr, doc)
        if predicted is not None and (lib[0] == "other" or (lib[0] == "rejected") != predicted):
            other += 1
        argv, out = tool.argv(cfg, rr, expr, doc)
        info = {"argv": argv, "expression": repr(expr), "document": repr(doc)[:300], "library": lib[0]}
        if sub:
            later.append((cfg, lib, argv, doc, out, info, rr.pick(["jsonpath", "jsonpath", "jsonpath.cli"])))
            return
        ran = tool.here(argv, doc)
        rec.add(tool.event(cfg, lib, ran, out), **info, exit=ran[0], stderr=ran[4][:200], stdout=ran[3][:200])

    for case in sorted(r.prints, key=json.dumps):
        cfg, k = case["cfg"], case["class"]
        if k == "document":
            pairs = [(rr.pick(P[cfg["sub"]]["good"]), d) for d in BAD_DOCS]
            if cfg["doc"] == "stdin":
                pairs = [(e, d) for e, d in pairs if not (isinstance(d, str) and d.startswith("\ufeff"))]
        else:
            pairs = [(e, rr.pick(TEXTS)) for e in P[cfg["sub"]][k]]
        if not c.thorough:
            rr.shuffle(pairs)
            pairs = pairs[:2]
        for i, (expr, doc) in enumerate(pairs):
            if cfg["src"] == "inline" and isinstance(expr, bytes):
                continue
            if k == "text" and cfg["sub"] != "patch":
                continue
            if cfg["src"] == "file" and cfg["sub"] != "patch" and isinstance(expr, str) and (expr != expr.strip() or "\n" in expr):
                continue
            one(cfg, expr, doc, sub=i == 0 and rr.p(0.05 if not c.thorough else 0.2), predicted=case["exit"] == 1)
    c.count("inputs the library puts in another class", other)
    # random ones
    for _ in range(c.n(500, 6000)):
        doc = gen.gen_doc(rr, odd=0.5) if rr.p(0.6) else ptr.ptr_doc(rr)
        sub = rr.pick(["path", "path", "pointer", "patch"])
        cfg = {"sub": sub, "src": "file" if sub == "patch" else rr.pick(["inline", "file"]), "doc": rr.pick(["stdin", "file"]), "out": rr.pick(["stdout", "file"]),
               "pretty": rr.p(0.5), "noesc": rr.p(0.4), "uri": sub != "path" and rr.p(0.4), "notype": sub == "path" and rr.p(0.4), "debug": rr.p(0.2)}
        if sub == "path":
            expr = gen.Spell(rr, words=rr.p(0.5), rootless=rr.p(0.3)).query(gen.QGen(rr, doc, ext=rr.p(0.5)).any(), top=True)
            if rr.p(0.4):
                expr = soup.disturb(rr, expr) if rr.p(0.7) else soup.soup(rr)
            if "\x00" in expr or any(0xD800 <= ord(x) <= 0xDFFF for x in expr) or (cfg["src"] == "file" and (expr != expr.strip() or "\r" in expr)):
                continue
        elif sub == "pointer":
            expr = ptr.text(ptr.rand_toks(rr, doc))
            if rr.p(0.1):
                expr = expr[1:]
            if "\x00" in expr or any(0xD800 <= ord(x) <= 0xDFFF for x in expr) or (cfg["src"] == "file" and any(x in expr for x in "\n\r")):
                continue
        else:
            expr = ptr.rand_patch(rr, doc)
        one(cfg, expr, json.dumps(doc, ensure_ascii=rr.p(0.8) or "\\ud" in json.dumps(doc), indent=rr.pick([None, 1])), sub=rr.p(0.05))
    # big and deep documents
    for n in range(c.n(40, 400)):
        doc, expr = odd_doc(rr)
        sub = rr.pick(["path", "pointer", "patch"])
        cfg = {"sub": sub, "src": "file" if sub == "patch" else rr.pick(["inline", "file"]), "doc": rr.pick(["stdin", "file"]), "out": rr.pick(["stdout", "file"]),
               "pretty": rr.p(0.5), "noesc": rr.p(0.4), "uri": sub != "path" and rr.p(0.4), "notype": sub == "path" and rr.p(0.4), "debug": rr.p(0.2)}
        one(cfg, expr[sub], doc, sub=n % 4 == 0)
    # in a process of their own
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 1) as pool:
        for (cfg, lib, _, _, out, info, _), ran in zip(later, pool.map(lambda x: tool.there(x[2], x[3], x[6]), later)):
            rec.add(tool.event(cfg, lib, ran, out), **info, exit=ran[0], stderr=ran[4][:200], stdout=ran[3][:200], process=True)
    c.count("processes run", len(later))
    rec.judge()
