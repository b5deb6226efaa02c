"""Encoding of Python values as the tagged records of spec/JValue.tla."""
from __future__ import annotations

from decimal import Decimal


def codes(s: str) -> list:
    return [ord(c) for c in s]


def uncodes(cs) -> str:
    return "".join(map(chr, cs))


def num(v) -> dict:
    d = Decimal(repr(v)) if isinstance(v, float) else Decimal(v)
    sign, digits, exp = d.as_tuple()
    if not isinstance(exp, int):  # inf / nan
        return {"t": "weird", "r": codes(repr(v))}
    digits = list(digits)
    pt = len(digits) + exp
    while digits and digits[0] == 0:
        digits.pop(0)
        pt -= 1
    while digits and digits[-1] == 0:
        digits.pop()
    if not digits:
        return {"t": "num", "s": 0, "g": [], "x": 0}
    return {"t": "num", "s": -1 if sign else 1, "g": digits, "x": pt}


def enc(v) -> dict:
    if v is None:
        return {"t": "null"}
    if v is True or v is False:
        return {"t": "bool", "b": v}
    if isinstance(v, (int, float, Decimal)):
        return num(v)
    if isinstance(v, str):
        return {"t": "str", "s": codes(v)}
    if isinstance(v, dict):
        ks = list(v.keys())
        if not all(isinstance(k, str) for k in ks):
            return {"t": "weird", "r": codes(repr(v))}
        return {"t": "obj", "k": [codes(k) for k in ks], "v": [enc(v[k]) for k in ks]}
    if isinstance(v, (list, tuple)):
        return {"t": "arr", "a": [enc(x) for x in v]}
    # another Mapping / Sequence implementation (item-getter documents)
    if hasattr(v, "__plain__"):
        return enc(v.__plain__())
    return {"t": "weird", "r": codes(type(v).__name__)}


def dec(e):
    """The Python value of a tagged record (inverse of enc, up to number spelling)."""
    t = e["t"]
    if t == "null":
        return None
    if t == "bool":
        return e["b"]
    if t == "str":
        return uncodes(e["s"])
    if t == "arr":
        return [dec(x) for x in e["a"]]
    if t == "obj":
        return {uncodes(k): dec(v) for k, v in zip(e["k"], e["v"])}
    d = Decimal((1 if e["s"] < 0 else 0, tuple(e["g"]) or (0,), e["x"] - len(e["g"])))
    return int(d) if d == d.to_integral_value() else float(d)


def enc_loc(parts) -> list:
    out = []
    for p in parts:
        if isinstance(p, bool) or not isinstance(p, (int, str)):
            out.append({"k": "w", "r": codes(repr(p))})
        elif isinstance(p, int):
            out.append({"k": "i", "i": max(-(10**8), min(10**8, p))})
        else:
            out.append({"k": "n", "n": codes(p)})
    return out


def same(a, b) -> bool:
    """Strict JSON equality used only for 'equal to a recorded value' facts."""
    return enc_cmp(enc(a)) == enc_cmp(enc(b))


def enc_cmp(e):
    if e["t"] == "obj":
        return ("obj", tuple(sorted((tuple(k), enc_cmp(v)) for k, v in zip(e["k"], e["v"]))))
    if e["t"] == "arr":
        return ("arr", tuple(enc_cmp(x) for x in e["a"]))
    if e["t"] == "str":
        return ("str", tuple(e["s"]))
    if e["t"] == "num":
        return ("num", e["s"], tuple(e["g"]), e["x"])
    if e["t"] == "bool":
        return ("bool", e["b"])
    if e["t"] == "weird":
        return ("weird", tuple(e["r"]))
    return (e["t"],)
