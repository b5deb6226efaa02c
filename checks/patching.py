"""Pieces shared by the patch checks."""
import copy
import io
import json

from vh import ptr

from checks.common import *  # noqa: F403

DOCS = [
    {"a": [1, {"b": 2}], "b": {"b": None}},
    {"a": {"0": 1, "b": [], "-": True}, "0": {"1": 2}, "1": [1]},
    [[1, 2, 3], {"a": [True], "b": 1}],
    {"/~": 1, "#a": 2, "~a": 3, "": {"a": [[1], [1]]}, "a": ["x", "y", "z"]},
    ["p", "q"],
    "scalar" if False else {"a": "text", "b": 1.5},
    [],
    {},
]


def decode_op(case):
    o = {"op": case["o"], "path": E.uncodes(case["p"])}
    if o["op"] in ("move", "copy"):
        o["from"] = E.uncodes(case["f"])
    elif o["op"] != "remove":
        o["value"] = E.dec(case["v"])
    return o


def outcome(jp, fn):
    o, v = core.call(fn)
    if o == "ok":
        return "ok", v, ""
    kind = "testerr" if isinstance(v, jp.JSONPatchTestFailure) else "patcherr" if isinstance(v, jp.JSONPatchError) else "other"
    return kind, v, core.ename(v)


def builder(jp, ops, ue=True, pointers=False):
    """The equivalent chain of builder calls."""
    p = jp.JSONPatch(unicode_escape=ue)

    def P(t):
        return jp.JSONPointer(t, unicode_escape=ue) if pointers else t
    for o in ops:
        a = (P(o["path"]),)
        if o["op"] in ("move", "copy"):
            a = (P(o["from"]), P(o["path"]))
        elif o["op"] != "remove":
            a = (P(o["path"]), o["value"])
        q = getattr(p, o["op"])(*a)
        if q is not p:
            raise AssertionError("builder method does not return the patch")
    return p


def event(ops, ue, di, o, v, err):
    ok = o == "ok"
    return {"k": "patch", "ops": ptr.enc_ops(ops), "ue": ue, "d": di, "o": o, "err": err,
            "val": E.enc(v) if ok else {"t": "null"}, "alias": ok and ptr.aliased(v)}


def why_ok(case, o):
    if case["why"] == "failed test":
        return o == "testerr"
    if case["why"] == "test of a missing target":
        return o in ("testerr", "patcherr")
    return o == "patcherr"


def judge_case(jp, case, bad, fn, info):
    """One predicted transition: fn applies it."""
    o, v, err = outcome(jp, fn)
    if case["ok"]:
        if o != "ok":
            bad("patch fails with " + err, {**info, "error": repr(v)})
        elif E.enc_cmp(E.enc(v)) != E.enc_cmp(case["r"]):
            bad("patched document differs", {**info, "got": v, "want": E.dec(case["r"])})
        elif ptr.aliased(v):
            bad("patched document shares containers", {**info, "got": v})
    elif not why_ok(case, o):
        bad(f"patch that violates the RFC ({case['why']}): {o} {err}", {**info, "got": repr(v)})
    return o, v


def explore(c, maxops, rich, docs, key):
    inv = "INVARIANT AddThenTest\nINVARIANT CopyThenEqual\n"
    return c.explore("MC_Patch", f"INIT Init\nNEXT Next\n{inv}CONSTANTS MaxOps={maxops} Rich={'TRUE' if rich else 'FALSE'}\n",
                     key=key, env=docs_env(c, docs))
