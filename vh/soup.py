"""Texts that may or may not be queries: well-formed ones with their tokens disturbed, and token soup."""
from __future__ import annotations

import re

_TOK = re.compile(r"'(?:\\.|[^'\\])*'|\"(?:\\.|[^\"\\])*\"|/[^/\s]+/[aims]*|-?[0-9]+(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?|[A-Za-z_\u0080-\U0010ffff][\w\u0080-\U0010ffff-]*"
                  r"|\.\.|&&|\|\||==|!=|<>|<=|>=|=~|\s+|.", re.S)

POOL = ["$", "@", "^", "#", "_", "~", "*", ".", "..", "[", "]", "(", ")", "?", "!", ",", ":", "&", "|", "&&", "||", "==", "!=", "<>", "<", ">", "<=",
        ">=", "=~", "in", "contains", "and", "or", "not", "true", "false", "null", "nil", "None", "undefined", "missing", "'a'", '"b"', "'x*'", "''",
        "0", "1", "-1", "10", "1.5", "1e2", "-0", "9007199254740993", "1e400", "1E-400", "/a.*/i", "/(/", "/[/", "/x/", "[1, 'a']", "[]", "a", "b", "foo", "length", "count", "value",
        "match", "search", "typeof", "isinstance", "is", "type", "length(@)", "count(@.*)", "match(@, 'a')", "search(@.a, '(')", "value($..*)", "isinstance(@, 'number')",
        "@.a", "$.a", "_.a", "@.*", "$..*", "@[0]", "@['a']", "[?@.a]", "[?@ == 1]", "[0]", "['a']", "[*]", "[1:]", "[::-1]", "[~]", ".~", "..~", "[?", " ", "\n", "\\", "'", '"', "/",
        "~0", "\x00", "é", "😀", "\ud800", "'\\ud800'", "'\\u0000'", "'\\x'", "%", ";", "{", "}", "`", "\t", "-", "+", "+1", "01", ".5", "1.", "0x1", "¹", "٣", "[٣]", "$[¹]"]


def tokens(t):
    return _TOK.findall(t)


def disturb(r, t, n=None):
    """Delete, repeat, swap, replace or insert a few tokens."""
    ts = tokens(t)
    for _ in range(n or r.pick([1, 1, 1, 2, 3])):
        i = r.randrange(len(ts) + 1)
        k = r.randrange(7)
        if k == 0 and ts:
            del ts[i % len(ts)]
        elif k == 1 and ts:
            ts.insert(i, ts[i % len(ts)])
        elif k == 2 and len(ts) > 1:
            j = r.randrange(len(ts))
            ts[i % len(ts)], ts[j] = ts[j], ts[i % len(ts)]
        elif k <= 4 and ts:
            ts[i % len(ts)] = r.pick(POOL)
        else:
            ts.insert(i, r.pick(POOL))
    return "".join(ts)


def soup(r, n=None):
    ts = [r.pick(POOL) for _ in range(n or r.pick([1, 2, 3, 4, 5, 6, 8, 12]))]
    if r.p(0.6):
        ts.insert(0, "$")
    if r.p(0.4):
        ts = ["$", "[", "?"] + ts[1:] + ["]"]
    return r.pick(["", "", " "]).join(ts)


def regroup(r, t):
    """Parenthesise a stretch of a text, or compare something with something more."""
    ts = tokens(t)
    i, j = sorted((r.randrange(len(ts) + 1), r.randrange(len(ts) + 1)))
    k = r.randrange(4)
    if k == 0:
        ts[i:j] = ["(", *ts[i:j], ")"]
    elif k == 1:
        ts[i:j] = ["!", "(", *ts[i:j], ")"]
    elif k == 2:
        ts[i:j] = ["(", *ts[i:j], ")", r.pick(["==", "!=", "<", "&&", "||"]), r.pick(["true", "@.a", "(@.a == 1)", "1"])]
    else:
        ts[i:j] = [*ts[i:j], r.pick([" == true", " == (@.a == 1)", " && !(@.a || @.b)", " || not @.a", " != null", " in [1, 2]", " contains 'a'"])]
    return "".join(ts)
