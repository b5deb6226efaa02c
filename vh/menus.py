"""Small document pools for exhaustive exploration."""
from . import enc as E

SMALL = [
    {"a": [0, {"b": 1}, [2, 3]], "b": {"a": {"b": None}, "0": "x"}},
    [[1, 2, 3], {"a": [4], "b": {"a": 5}}, "ab", [], {}],
    {"b": [[[1], 2], {"a": False, "-1": 0, "0": {"a": 1}}], "a": "a", "'\\\"\n": {"": [1]}},
    [0, 1, 2, 3, 4, 5],
    {"": {"": 1, "a": [None, True]}, "é": [{"😀": 1}], "😀": {"a": "b"}, "0": [9, 8]},
    [{"a": 1, "b": 1}, {"b": 1, "a": 2}, [{"a": [{"a": 1}]}]],
    [],
    {},
]
SCALAR = ["", "ab", 1, None, True]


def follow(doc, loc):
    for st in loc:
        doc = doc[E.uncodes(st) if isinstance(st, list) else st]
    return doc
