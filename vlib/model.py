"""The reference model of a Recap schema, independent of the code under test.

A node is a plain dict:
  {"t": kind, "logical": str|None, "alias": str|None, "doc": str|None,
   "extra": {attr: json}, ...kind specific attributes...}
kinds: null bool int(bits, signed) float(bits) string/bytes(bytes, variable)
list(values, length, variable) map(keys, values) struct(fields) enum(symbols)
union(types) proxy(to)
"""
from __future__ import annotations

import copy
import json
from typing import Any

MAX32 = 2_147_483_647
MAX64 = 9_223_372_036_854_775_807

DEFAULTS = {
    "int": {"signed": True},
    "string": {"bytes": None, "variable": True},
    "bytes": {"bytes": None, "variable": True},
    "list": {"length": None, "variable": True},
}


def N(t: str, **kw) -> dict:
    """Make a node, filling in defaults; unknown keywords are extra attributes."""
    node: dict[str, Any] = {"t": t, "logical": None, "alias": None, "doc": None, "extra": {}}
    node.update(copy.deepcopy(DEFAULTS.get(t, {})))
    own = OWN[t]
    for k, v in kw.items():
        if k in ("logical", "alias", "doc") or k in own:
            node[k] = v
        elif k == "extra":
            node["extra"].update(v)
        else:
            node["extra"][k] = v
    for k in own:
        assert k in node, (t, k)
    return node


OWN = {
    "null": (),
    "bool": (),
    "int": ("bits", "signed"),
    "float": ("bits",),
    "string": ("bytes", "variable"),
    "bytes": ("bytes", "variable"),
    "list": ("values", "length", "variable"),
    "map": ("keys", "values"),
    "struct": ("fields",),
    "enum": ("symbols",),
    "union": ("types",),
    "proxy": ("to",),
}


def I(bits, signed=True, **kw):
    return N("int", bits=bits, signed=signed, **kw)


def F(bits, **kw):
    return N("float", bits=bits, **kw)


def S(b=None, variable=True, **kw):
    return N("string", bytes=b, variable=variable, **kw)


def B(b=None, variable=True, **kw):
    return N("bytes", bytes=b, variable=variable, **kw)


BUILTINS: dict[str, dict] = {
    "int8": I(8),
    "uint8": I(8, False),
    "int16": I(16),
    "uint16": I(16, False),
    "int32": I(32),
    "uint32": I(32, False),
    "int64": I(64),
    "uint64": I(64, False),
    "float16": F(16),
    "float32": F(32),
    "float64": F(64),
    "string32": S(2_147_483_648),
    "string64": S(MAX64),
    "bytes32": B(2_147_483_648),
    "bytes64": B(MAX64),
    "uuid": S(36, False, logical="build.recap.UUID"),
    "decimal128": B(16, False, logical="build.recap.Decimal", precision=28, scale=14),
    "decimal256": B(32, False, logical="build.recap.Decimal", precision=56, scale=28),
    "duration64": I(64, logical="build.recap.Duration", unit="millisecond"),
    "interval128": B(16, False, logical="build.recap.Interval", unit="millisecond"),
    "time32": I(32, logical="build.recap.Time", unit="second"),
    "time64": I(64, logical="build.recap.Time", unit="second"),
    "timestamp64": I(64, logical="build.recap.Timestamp", unit="millisecond", timezone="UTC"),
    "date32": I(32, logical="build.recap.Date", unit="day"),
    "date64": I(64, logical="build.recap.Date", unit="day"),
}


# ---------------------------------------------------------------- SUT <-> model


def _T():
    import recap.types as T

    return T


def build(node: dict, registry=None):
    """Construct the Recap type with the public constructors."""
    T = _T()
    if registry is None:
        registry = T.RecapTypeRegistry()
    kw = copy.deepcopy(node["extra"])
    for k in ("logical", "alias", "doc"):
        if node[k] is not None:
            kw[k] = node[k]
    t = node["t"]
    if t == "null":
        return T.NullType(**kw)
    if t == "bool":
        return T.BoolType(**kw)
    if t == "int":
        return T.IntType(bits=node["bits"], signed=node["signed"], **kw)
    if t == "float":
        return T.FloatType(bits=node["bits"], **kw)
    if t == "string":
        return T.StringType(bytes_=node["bytes"], variable=node["variable"], **kw)
    if t == "bytes":
        return T.BytesType(bytes_=node["bytes"], variable=node["variable"], **kw)
    if t == "list":
        return T.ListType(
            values=build(node["values"], registry),
            length=node["length"],
            variable=node["variable"],
            **kw,
        )
    if t == "map":
        return T.MapType(
            keys=build(node["keys"], registry), values=build(node["values"], registry), **kw
        )
    if t == "struct":
        return T.StructType(fields=[build(f, registry) for f in node["fields"]], **kw)
    if t == "enum":
        return T.EnumType(symbols=list(node["symbols"]), **kw)
    if t == "union":
        return T.UnionType(types=[build(f, registry) for f in node["types"]], **kw)
    if t == "proxy":
        kw.pop("alias", None)
        return T.ProxyType(node["to"], registry, **kw)
    raise AssertionError(t)


class NotAType(Exception):
    pass


def observe(rt) -> dict:
    """Read a Recap type back into the model through its public attributes."""
    T = _T()
    kinds = [
        (T.NullType, "null"),
        (T.BoolType, "bool"),
        (T.IntType, "int"),
        (T.FloatType, "float"),
        (T.StringType, "string"),
        (T.BytesType, "bytes"),
        (T.ListType, "list"),
        (T.MapType, "map"),
        (T.StructType, "struct"),
        (T.EnumType, "enum"),
        (T.UnionType, "union"),
        (T.ProxyType, "proxy"),
    ]
    for cls, t in kinds:
        if isinstance(rt, cls):
            break
    else:
        raise NotAType(f"{rt!r} is not a Recap type")
    node: dict[str, Any] = {
        "t": t,
        "logical": rt.logical,
        "alias": rt.alias,
        "doc": rt.doc,
        "extra": copy.deepcopy(rt.extra_attrs),
    }
    if t == "int":
        node.update(bits=rt.bits, signed=rt.signed)
    elif t == "float":
        node.update(bits=rt.bits)
    elif t in ("string", "bytes"):
        node.update(bytes=rt.bytes_, variable=rt.variable)
    elif t == "list":
        node.update(values=observe(rt.values), length=rt.length, variable=rt.variable)
    elif t == "map":
        node.update(keys=observe(rt.keys), values=observe(rt.values))
    elif t == "struct":
        node.update(fields=[observe(f) for f in rt.fields])
    elif t == "enum":
        node.update(symbols=list(rt.symbols))
    elif t == "union":
        node.update(types=[observe(f) for f in rt.types])
    elif t == "proxy":
        node.update(to=rt.alias, alias=None)
    return node


# ---------------------------------------------------------------- walking


CHILD_KEYS = ("keys", "values", "fields", "types")


def children(node: dict):
    for k in CHILD_KEYS:
        if k in node and k in OWN[node["t"]]:
            v = node[k]
            if isinstance(v, list):
                for i, c in enumerate(v):
                    yield (k, i), c
            else:
                yield (k, None), v


def walk(node: dict):
    yield node
    for _, c in children(node):
        yield from walk(c)


def depth(node: dict) -> int:
    return 1 + max((depth(c) for _, c in children(node)), default=0)


def size(node: dict) -> int:
    return sum(1 for _ in walk(node))


def kinds(node: dict) -> set[str]:
    return {n["t"] for n in walk(node)}


def definitions(node: dict) -> dict[str, dict]:
    """alias -> definition as a reference to it means: no alias, doc, default."""
    out = {}
    for n in walk(node):
        if n["t"] != "proxy" and n["alias"] is not None:
            out[n["alias"]] = registered(n)
    return out


def registered(n: dict) -> dict:
    d = copy.deepcopy(n)
    d["alias"] = None
    d["doc"] = None
    d["extra"].pop("default", None)
    return d


def apply_overrides(definition: dict, proxy: dict) -> dict:
    """What a proxy stands for, one level deep."""
    d = copy.deepcopy(definition)
    if proxy["doc"] is not None:
        d["doc"] = proxy["doc"]
    if proxy["logical"] is not None:
        d["logical"] = proxy["logical"]
    for k, v in proxy["extra"].items():
        if k in OWN[d["t"]]:
            d[k] = copy.deepcopy(v)
        else:
            d["extra"][k] = copy.deepcopy(v)
    return d


def resolve_builtins(node: dict) -> dict:
    """Replace every reference to a builtin by what it stands for."""
    node = dict(node)
    if node["t"] == "proxy" and node["to"] in BUILTINS:
        return apply_overrides(BUILTINS[node["to"]], node)
    for k in CHILD_KEYS:
        if k in node:
            v = node[k]
            node[k] = (
                [resolve_builtins(c) for c in v] if isinstance(v, list) else resolve_builtins(v)
            )
    return node


def diff(got: dict, want: dict, defs: dict[str, dict] | None = None, path="$") -> str | None:
    """First difference, or None. Builtin references equal what they stand for;
    with `defs`, a reference to a user alias equals an identical definition."""
    if got["t"] == "proxy" and got["to"] in BUILTINS:
        got = apply_overrides(BUILTINS[got["to"]], got)
    if want["t"] == "proxy" and want["to"] in BUILTINS:
        want = apply_overrides(BUILTINS[want["to"]], want)
    if defs and got["t"] == "proxy" and want["t"] != "proxy" and got["to"] in defs:
        got = apply_overrides(defs[got["to"]], got)
    if got["t"] != want["t"]:
        return f"{path}: type {got['t']!r} instead of {want['t']!r}"
    for k in ("logical", "alias", "doc"):
        if got[k] != want[k]:
            return f"{path}: {k} {got[k]!r} instead of {want[k]!r}"
    if not same_json(got["extra"], want["extra"]):
        return f"{path}: attributes {got['extra']!r} instead of {want['extra']!r}"
    for k in OWN[got["t"]]:
        g, w = got[k], want[k]
        if k in CHILD_KEYS:
            if isinstance(w, list):
                if len(g) != len(w):
                    return f"{path}.{k}: {len(g)} elements instead of {len(w)}"
                for i, (a, b) in enumerate(zip(g, w)):
                    d = diff(a, b, defs, f"{path}.{k}[{i}]")
                    if d:
                        return d
            else:
                d = diff(g, w, defs, f"{path}.{k}")
                if d:
                    return d
        elif not same_json(g, w):
            return f"{path}: {k} {g!r} instead of {w!r}"
    return None


def same_json(a, b) -> bool:
    """Equality that tells True from 1 (but not 1 from 1.0)."""
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    return a == b


def show(node: dict) -> str:
    return json.dumps(explicit_doc(node), default=repr)


def explicit_doc(node: dict) -> dict:
    """The fully explicit schema document of a node (no sugar at all)."""
    if node["t"] == "proxy":
        d: dict[str, Any] = {"type": node["to"]}
    else:
        d = {"type": node["t"]}
        if node["alias"] is not None:
            d["alias"] = node["alias"]
    for k in ("logical", "doc"):
        if node[k] is not None:
            d[k] = node[k]
    d.update(copy.deepcopy(node["extra"]))
    for k in OWN[node["t"]]:
        if k == "to":
            continue
        v = node[k]
        if k in CHILD_KEYS:
            d[k] = [explicit_doc(c) for c in v] if isinstance(v, list) else explicit_doc(v)
        elif v is not None:
            d[k] = copy.deepcopy(v)
    return d
