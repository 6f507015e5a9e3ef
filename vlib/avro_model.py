"""An independent reading of Avro schemas, and a generator of them."""
from __future__ import annotations

import decimal
import copy

from hypothesis import strategies as st

from . import gen, model as M

MAX64 = M.MAX64

PRIMITIVES = {
    "null": lambda **k: M.N("null", **k),
    "boolean": lambda **k: M.N("bool", **k),
    "int": lambda **k: M.I(32, **k),
    "long": lambda **k: M.I(64, **k),
    "float": lambda **k: M.F(32, **k),
    "double": lambda **k: M.F(64, **k),
    "bytes": lambda **k: M.B(MAX64, **k),
    "string": lambda **k: M.S(MAX64, **k),
}

LOGICAL = {
    "date": lambda **k: M.I(32, logical="build.recap.Date", unit="day", **k),
    "time-millis": lambda **k: M.I(32, logical="build.recap.Time", unit="millisecond", **k),
    "time-micros": lambda **k: M.I(64, logical="build.recap.Time", unit="microsecond", **k),
    "timestamp-millis": lambda **k: M.I(64, logical="build.recap.Timestamp", unit="millisecond", **k),
    "timestamp-micros": lambda **k: M.I(64, logical="build.recap.Timestamp", unit="microsecond", **k),
    "uuid": lambda **k: M.S(36, False, logical="build.recap.UUID", **k),
}
LOGICAL_BASE = {
    "date": "int", "time-millis": "int", "time-micros": "long",
    "timestamp-millis": "long", "timestamp-micros": "long", "uuid": "string",
}


def fullname(schema, ns):
    """(full name, namespace for what is inside) by the Avro specification."""
    name = schema["name"]
    if "." in name:
        return name, name.rsplit(".", 1)[0]
    ns = schema.get("namespace", ns)
    return (f"{ns}.{name}" if ns else f"_root.{name}"), ns


def interpret(schema, ns=None, defs=None):
    """The model node an Avro schema means. `defs` collects definitions."""
    if defs is None:
        defs = {}
    if isinstance(schema, str):
        schema = {"type": schema}
    elif isinstance(schema, list):
        schema = {"type": schema}
    t = schema["type"]
    attrs = {}
    if schema.get("doc") is not None:
        attrs["doc"] = schema["doc"]
    if "default" in schema:
        attrs["default"] = copy.deepcopy(schema["default"])
    if "name" in schema:
        attrs["name"] = schema["name"].rsplit(".", 1)[-1]
    full = None
    if t in ("record", "enum", "fixed") and "name" in schema:
        full, ns = fullname(schema, ns)

    if "logicalType" in schema and not isinstance(t, (dict, list)):
        lt = schema["logicalType"]
        if lt == "decimal":
            # Recap's documented (and tested) convention: see DESIGN.md
            node = M.B(
                schema.get("size", MAX64), t == "fixed", logical="build.recap.Decimal",
                precision=schema["precision"], scale=schema.get("scale", 0), **attrs)
        elif lt == "duration":
            node = M.B(12, logical="build.recap.Interval", unit="millisecond", **attrs)
        else:
            node = LOGICAL[lt](**attrs)
    elif isinstance(t, list):
        node = M.N("union", types=[interpret(x, ns, defs) for x in t], **attrs)
    elif isinstance(t, dict):
        node = interpret(t, ns, defs)
        if "doc" in attrs:
            node["doc"] = attrs["doc"]
        for k in ("name", "default"):
            if k in attrs:
                node["extra"][k] = attrs[k]
        return node
    elif t in PRIMITIVES:
        node = PRIMITIVES[t](**attrs)
    elif t == "fixed":
        node = M.B(schema["size"], **attrs)
    elif t == "enum":
        node = M.N("enum", symbols=list(schema["symbols"]), **attrs)
    elif t == "array":
        node = M.N("list", values=interpret(schema["items"], ns, defs), **attrs)
    elif t == "map":
        node = M.N("map", keys=M.S(MAX64), values=interpret(schema["values"], ns, defs), **attrs)
    elif t == "record":
        node = M.N("struct", fields=[interpret(f, ns, defs) for f in schema["fields"]], **attrs)
    else:
        to = t if "." in t else (f"{ns}.{t}" if ns else f"_root.{t}")
        return M.N("proxy", to=to, **attrs)
    if full is not None:
        node["alias"] = full
        defs[full] = M.registered(node)
    for a in schema.get("aliases", ()):
        defs[a] = M.registered(node)
    return node


# ------------------------------------------------------------------ generator

names = st.sampled_from(["id", "name", "a", "b", "R", "Node", "value", "E", "x_1", "next"])
type_names = st.sampled_from(["R", "Node", "E", "Point", "id", "a", "F", "Item"])
namespaces = st.sampled_from(["com.acme", "x", "com.acme.sub", "_p.q_1"])


LOG10_2 = decimal.Decimal("0.30102999566398119521373889472449302676818988146210854131")


class _S:
    def __init__(self, fixed=True):
        self.defined = []  # (fullname, namespace)
        self.open = []
        self.budget = 16
        self.fixed = fixed


@st.composite
def schemas(draw, fixed=True):
    s = _S(fixed)
    return _named(draw, s, None, 4, "record")


def _attrs(draw, d):
    if draw(st.integers(0, 3)) == 0:
        d["doc"] = draw(gen.docs)
    return d


def _named(draw, s, ns, depth, kind):
    s.budget -= 1
    d = {"type": kind}
    for _ in range(8):
        name = draw(type_names)
        form = draw(st.integers(0, 4))
        cand = {"name": name}
        if form == 0:
            cand = {"name": draw(namespaces) + "." + name}
        elif form == 1:
            # an empty namespace is the null namespace, whatever surrounds it
            cand = {"name": name, "namespace": draw(namespaces) if draw(st.integers(0, 3)) else ""}
        full, inner = fullname(cand, ns)
        if full not in s.defined:
            break
    else:
        cand = {"name": f"T{len(s.defined)}"}
        full, inner = fullname(cand, ns)
    s.defined.append(full)
    d.update(cand)
    _attrs(draw, d)
    if kind == "record":
        fields, used = [], set()
        for i in range(draw(st.integers(0 if s.budget < 0 else 1, 4)) if draw(st.integers(0, 15)) else draw(st.integers(8, 14))):
            fname = draw(names)
            if fname in used:
                fname = f"f{i}"
            used.add(fname)
            f = {"name": fname, "type": _type(draw, s, inner, depth - 1)}
            _attrs(draw, f)
            if draw(st.integers(0, 3)) == 0:
                f["default"] = draw(gen.json_values)
            fields.append(f)
        d["fields"] = fields
    elif kind == "enum":
        d["symbols"] = list(dict.fromkeys(draw(gen.symbols(gen.ident(4))) or ["A"]))
    else:
        d["size"] = draw(st.sampled_from([1, 4, 16, 255]))
        k = draw(st.integers(0, 3))
        if k == 0:
            d["logicalType"] = "decimal"
            d["precision"] = draw(st.integers(1, 9))
            if draw(st.booleans()):
                d["scale"] = draw(st.integers(0, d["precision"]))
        elif k == 1:
            d["logicalType"] = "duration"
            d["size"] = 12
    return d


def _type(draw, s, ns, depth, union=True):
    s.budget -= 1
    # what can be referred to from here
    refs = []
    for full in s.defined:
        if full.startswith("_root."):
            if not ns:
                refs.append(full[6:])
        else:
            refs.append(full)
            if ns and full.rsplit(".", 1)[0] == ns:
                refs.append(full.rsplit(".", 1)[1])
    kinds = ["prim", "prim", "logical", "primdict"]
    if refs:
        kinds += ["ref", "ref"]
    if depth > 0 and s.budget > 0:
        kinds += ["array", "map", "record", "enum", "record"] + (["fixed"] if s.fixed else [])
        if union:
            kinds += ["union", "union"]
    k = draw(st.sampled_from(kinds))
    if k == "prim":
        return draw(st.sampled_from(sorted(PRIMITIVES)))
    if k == "primdict":
        return {"type": draw(st.sampled_from(sorted(PRIMITIVES)))}
    if k == "logical":
        lt = draw(st.sampled_from(sorted(LOGICAL) + ["decimal"]))
        if lt == "decimal":
            d = {"type": "bytes", "logicalType": "decimal", "precision": draw(st.integers(1, 40))}
            if draw(st.booleans()):
                d["scale"] = draw(st.integers(0, d["precision"]))
            return d
        return {"type": LOGICAL_BASE[lt], "logicalType": lt}
    if k == "ref":
        return draw(st.sampled_from(refs))
    if k == "array":
        return {"type": "array", "items": _type(draw, s, ns, depth - 1)}
    if k == "map":
        return {"type": "map", "values": _type(draw, s, ns, depth - 1)}
    if k == "union":
        n = draw(st.integers(1, 3)) if draw(st.integers(0, 9)) else draw(st.integers(4, 7))
        members = [_type(draw, s, ns, depth - 1, union=False) for _ in range(n)]
        if draw(st.booleans()):
            members.insert(draw(st.integers(0, len(members))), "null")
        return members
    return _named(draw, s, ns, depth, k)


# --------------------------------------------------------------- the mapping

REJECT = "reject"
EITHER = "either"


class Reject(Exception):
    pass


class Unsure(Exception):
    pass


def to_avro_meaning(node, defs):
    """The node an Avro schema written from `node` has to mean.

    Raises Reject if Avro cannot express it, Unsure if both are fine."""
    n = node
    if n["t"] == "proxy" and n["to"] in M.BUILTINS:
        n = M.apply_overrides(M.BUILTINS[n["to"]], n)
    attrs = {}
    if n["doc"]:
        attrs["doc"] = n["doc"]
    if n["extra"].get("name"):
        attrs["name"] = n["extra"]["name"]
    if "default" in n["extra"]:
        attrs["default"] = n["extra"]["default"]
    if n["t"] == "proxy":
        return M.N("proxy", to=n["to"], **attrs)
    t, lg, ex = n["t"], n["logical"], n["extra"]
    if lg is not None:
        unit = ex.get("unit")
        if t == "bytes" and lg == "build.recap.Decimal" and isinstance(ex.get("precision"), int) \
                and not isinstance(ex.get("precision"), bool):
            if n["bytes"] is None:
                raise Unsure
            return M.B(MAX64, False, logical=lg, precision=ex["precision"], scale=ex.get("scale", 0), **attrs)
        if t == "int" and n["signed"]:
            bits = n["bits"]
            if lg == "build.recap.Date" and bits <= 32:
                if unit != "day":
                    raise Unsure
                return LOGICAL["date"](**attrs)
            if lg == "build.recap.Time" and unit == "millisecond" and bits <= 32:
                return LOGICAL["time-millis"](**attrs)
            if lg == "build.recap.Time" and unit == "microsecond" and bits <= 64:
                return LOGICAL["time-micros"](**attrs)
            if lg == "build.recap.Timestamp" and unit == "millisecond" and bits <= 64:
                return LOGICAL["timestamp-millis"](**attrs)
            if lg == "build.recap.Timestamp" and unit == "microsecond" and bits <= 64:
                return LOGICAL["timestamp-micros"](**attrs)
        if t == "bytes" and lg == "build.recap.Interval" and n["bytes"] == 12 and not n["variable"] \
                and unit == "millisecond":
            return M.B(12, logical=lg, unit="millisecond", **attrs)
        if t == "string" and lg == "build.recap.UUID":
            if n["bytes"] is None:
                raise Unsure
            return LOGICAL["uuid"](**attrs)
        raise Reject(f"logical type {lg}")
    if t in ("null", "bool"):
        return M.N(t, **attrs)
    if t == "int":
        if n["bits"] <= 32 and n["signed"]:
            return M.I(32, **attrs)
        if (n["bits"] <= 32) or (n["bits"] <= 64 and n["signed"]):
            return M.I(64, **attrs)
        digits = decimal.Decimal(n["bits"] - (1 if n["signed"] else 0)) * LOG10_2
        return M.B(MAX64, False, logical="build.recap.Decimal", precision=int(digits), scale=0, **attrs)
    if t == "float":
        if n["bits"] > 64:
            raise Reject("wide float")
        return M.F(32 if n["bits"] <= 32 else 64, **attrs)
    if t == "string":
        if n["bytes"] is None:
            raise Unsure
        return M.S(MAX64, **attrs)
    if t == "bytes":
        if n["bytes"] is None:
            raise Unsure
        return M.B(MAX64, **attrs) if n["variable"] else M.B(n["bytes"], **attrs)
    if t == "enum":
        return M.N("enum", symbols=n["symbols"], **attrs)
    if t == "list":
        return M.N("list", values=to_avro_meaning(n["values"], defs), **attrs)
    if t == "map":
        k = n["keys"]
        if k["t"] == "proxy":
            if k["to"] in M.BUILTINS:
                k = M.BUILTINS[k["to"]]
            elif k["to"] in defs:
                k = defs[k["to"]]
            else:
                raise Unsure
        if k["t"] == "proxy":
            raise Unsure
        v = to_avro_meaning(n["values"], defs)
        if k["t"] != "string":
            raise Reject("map keys")
        return M.N("map", keys=M.S(MAX64), values=v, **attrs)
    if t == "struct":
        return M.N("struct", fields=[to_avro_meaning(f, defs) for f in n["fields"]], **attrs)
    if t == "union":
        return M.N("union", types=[to_avro_meaning(f, defs) for f in n["types"]], **attrs)
    raise AssertionError(t)
