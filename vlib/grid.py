"""Finite grids of Recap types: every leaf, with every attribute, in every position."""
from __future__ import annotations

import copy
import os

from . import model as M

FALSY = [None, False, 0, "", [], {}, 0.0]
VALUES = FALSY + [True, 1, -1, "x", [1], {"a": None}]


def leaves():
    """A leaf is a list of one or more nodes: the definition, then references to it."""
    out = [[M.N("null")], [M.N("bool")]]
    out += [[M.I(b, s)] for b in (8, 16, 32, 64) for s in (True, False)]
    out += [[M.F(b)] for b in (16, 32, 64)]
    out += [[M.N(k, bytes=b, variable=v)] for k in ("string", "bytes") for b in (1, 16, M.MAX32, M.MAX64) for v in (True, False)]
    out += [[M.N("proxy", to=b)] for b in sorted(M.BUILTINS)]
    out += [
        [M.I(32, logical="build.recap.Date", unit="day")],
        [M.I(32, logical="build.recap.Time", unit="millisecond")],
        [M.I(64, logical="build.recap.Time", unit="microsecond")],
        [M.I(64, logical="build.recap.Timestamp", unit="millisecond")],
        [M.I(64, logical="build.recap.Timestamp", unit="microsecond")],
        [M.B(12, False, logical="build.recap.Interval", unit="millisecond")],
        [M.B(16, False, logical="build.recap.Decimal", precision=5, scale=2)],
        [M.B(M.MAX64, logical="build.recap.Decimal", precision=5, scale=0)],
        [M.S(36, False, logical="build.recap.UUID")],
        [M.S(40, logical="org.iso.8601.Date")],
        [M.S(40, logical="org.iso.8601.DateTime")],
        [M.S(40, logical="org.iso.8601.Time")],
    ]
    out += [
        [M.N("enum", symbols=["A", "B"], alias="p.E"), M.N("proxy", to="p.E")],
        [M.N("struct", fields=[M.I(32, name="x")], alias="p.S"), M.N("proxy", to="p.S")],
        [M.N("struct", fields=[M.N("union", types=[M.N("null"), M.N("proxy", to="p.S")], default=None, name="next")], alias="p.S"), M.N("proxy", to="p.S")],
        [M.I(32, alias="p.I"), M.N("proxy", to="p.I")],
        [M.B(4, False, alias="p.F"), M.N("proxy", to="p.F")],
        [M.N("list", values=M.I(8), alias="p.L"), M.N("proxy", to="p.L")],
        [M.N("map", keys=M.S(9), values=M.I(8), alias="p.M"), M.N("proxy", to="p.M")],
        [M.N("list", values=M.N("bool"))],
        [M.N("map", keys=M.S(9), values=M.N("bool"))],
        [M.N("struct", fields=[])],
        [M.N("enum", symbols=["A"])],
    ]
    return out


def marks():
    yield {}
    yield {"doc": "about"}
    yield {"doc": ""}
    yield {"doc": "about", "default": 1}
    for v in VALUES:
        yield {"default": v}


def mark(node, m):
    n = copy.deepcopy(node)
    if "doc" in m:
        n["doc"] = m["doc"]
    if "default" in m:
        n["extra"]["default"] = copy.deepcopy(m["default"])
    return n


def named(n, name):
    n["extra"]["name"] = name
    return n


POSITIONS = {
    "field": lambda x: x,
    "list": lambda x: M.N("list", values=x),
    "list of lists": lambda x: M.N("list", values=M.N("list", values=x)),
    "map": lambda x: M.N("map", keys=M.S(9), values=x),
    "map of lists": lambda x: M.N("map", keys=M.S(9), values=M.N("list", values=x)),
    "null or": lambda x: M.N("union", types=[M.N("null"), x], default=None),
    "null or, doc": lambda x: M.N("union", types=[M.N("null"), x], default=None, doc="outer"),
    "null or, no default": lambda x: M.N("union", types=[M.N("null"), x]),
    "or null": lambda x: M.N("union", types=[x, M.N("null")]),
    "null or, falsy": lambda x: M.N("union", types=[M.N("null"), x], default=0),
    "list of null or": lambda x: M.N("list", values=M.N("union", types=[M.N("null"), x], default=None)),
    "null or list": lambda x: M.N("union", types=[M.N("null"), M.N("list", values=x)], default=None),
}


def grid(root="p.Root", positions=POSITIONS, keep=lambda leaf, kind: True):
    """Structs holding one marked leaf in one position, then references to it."""
    thin = 1 if os.environ.get("VERIF_TIER") == "thorough" else 3
    for i, leaf in enumerate(leaves()):
        for j, m in enumerate(marks()):
            for k, (kind, place) in enumerate(positions.items()):
                if m and (i + j + k) % thin:
                    continue
                if leaf[0]["t"] == "null" and "null" in kind or not keep(leaf[0], kind):
                    continue
                fields = [named(place(mark(x, m)), f"f{i}") for i, x in enumerate(leaf)]
                yield kind, M.N("struct", fields=[*fields, M.N("bool", name="last")], alias=root)
    for kind, fields in large():
        if kind in positions and all(keep(f, kind) for f in fields):
            yield kind, M.N("struct", fields=[*fields, M.N("bool", name="last")], alias=root)


def large():
    """Deeper and wider than what is drawn at random: (position, fields)"""
    def nest(wrap, inner, n=10):
        for k in range(n):
            inner = wrap(inner, k)
        return inner

    struct = lambda x, k: M.N("struct", alias=f"p.D{k}", fields=[M.I(32, name="a"), named(x, "x"), M.S(9, name="z")])  # noqa: E731
    optional = lambda x, k: M.N("union", types=[M.N("null"), struct(x, k)], default=None)  # noqa: E731
    yield "list of lists", [named(nest(lambda x, k: M.N("list", values=x), M.I(16)), "deep")]
    yield "map", [named(nest(lambda x, k: M.N("map", keys=M.S(9), values=x), M.I(16)), "deep")]
    yield "map of lists", [named(nest(lambda x, k: M.N("list", values=x) if k % 2 else M.N("map", keys=M.S(9), values=x), M.F(32)), "deep")]
    yield "field", [named(nest(struct, M.N("enum", symbols=["A", "B"], alias="p.E")), "deep"), M.N("proxy", to="p.E", name="again"), M.N("proxy", to="p.D0", name="inner")]
    yield "null or", [named(nest(optional, M.N("bool")), "deep"), M.N("proxy", to="p.D3", name="again")]
    yield "list of null or", [named(nest(lambda x, k: M.N("list", values=optional(x, k)), M.N("bool"), 6), "deep")]
    yield "field", [M.I(32, name=f"c{k}", doc=f"number {k}") for k in range(150)]
    yield "null or", [M.N("union", types=[M.N("null"), M.S(9)], default=f"d{k}", name=f"c{k}") for k in range(60)]
    yield "field", [M.N("enum", symbols=[f"S{k}" for k in range(150)], alias="p.E", name="wide"), M.N("proxy", to="p.E", name="again")]
    # many definitions, each referred to by all that follow
    yield "field", [M.N("struct", alias=f"p.S{k}", name=f"s{k}", fields=[M.N("proxy", to=f"p.S{j}", name=f"r{j}") for j in range(k)] or [M.I(32, name="x")])
                    for k in range(12)]


def near_builtins():
    """Every builtin, and every type that differs from one in a single attribute."""
    for b in M.BUILTINS.values():
        yield copy.deepcopy(b)
        for m in list(marks())[1:]:
            yield mark(b, m)
        for k in M.OWN[b["t"]]:
            for v in ([True, False] if k in ("signed", "variable") else [1, b[k] - 1, b[k] + 1, b[k] * 2, M.MAX32]):
                top = M.MAX32 if k == "bits" else M.MAX64
                if not isinstance(v, bool) and v > top:
                    continue
                yield {**copy.deepcopy(b), k: v}
        for k in [*b["extra"], "name", "unit", "precision", "scale", "timezone", "other"]:
            for v in ["millisecond", "second", "day", "UTC", 28, 14, 0, None, "x", False]:
                n = copy.deepcopy(b)
                n["extra"][k] = v
                yield n
            if k in b["extra"]:
                n = copy.deepcopy(b)
                del n["extra"][k]
                yield n
        for lg in (None, "build.recap.Date", "build.recap.Time", "build.recap.UUID", "build.recap.Decimal", "x"):
            yield {**copy.deepcopy(b), "logical": lg}
        yield {**copy.deepcopy(b), "alias": "p.Mine"}
