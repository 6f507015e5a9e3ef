"""C06: reading an Avro schema keeps its meaning."""
import copy
import json

from hypothesis import strategies as st

from vlib import avro_model as A, model as M
from vlib.harness import Facet, Property, call
from vlib.unroll import unroll

import recap.types as T
from recap.converters.avro import AvroConverter

FIXED = "avro-fixed"


def normalise(node, ctx=None):
    """Avro's fixed: the declared length is what counts (see known findings)."""
    for n in M.walk(node):
        if n["t"] == "bytes":
            n["extra"].pop("signed", None)
            if n["bytes"] is not None and n["bytes"] < M.MAX64:
                if ctx is not None and n["variable"] and n["logical"] is None:
                    ctx.known(FIXED)
                n["variable"] = True
    return node


def read(schema, ctx):
    defs = {}
    want = normalise(A.interpret(schema, None, defs))
    ctx.label(*("kind:" + k for k in M.kinds(want)))
    ctx.interesting(len(defs) > 1 or "union" in M.kinds(want) or "proxy" in M.kinds(want))
    text = json.dumps(schema)
    conv = AvroConverter()
    rt, err = call(conv.to_recap, text)
    ctx.require(err is None, lambda: f"a valid schema is rejected: {err!r}\n{text}")
    got = normalise(M.observe(rt), ctx)
    d = M.diff(got, want)
    ctx.require(d is None, lambda: f"{text}\n{d}")
    # every reference resolves to the definition it names
    check_refs(rt, want, {k: normalise(v) for k, v in defs.items()}, ctx)
    # and the whole is a valid document of its own
    doc = T.to_dict(rt)
    back, err = call(T.from_dict, doc)
    ctx.require(err is None, lambda: f"the document of the type read is invalid: {err!r}\n{json.dumps(doc)}")
    again = AvroConverter().to_recap(text)
    ctx.require(again == rt, "reading the schema again gives another type")


def check_refs(rt, node, defs, ctx):
    def go(rt, node):
        if node["t"] == "proxy":
            res, err = call(rt.resolve)
            ctx.require(err is None, lambda: f"the reference to {node['to']} does not resolve: {err!r}")
            want = M.apply_overrides(defs[node["to"]], node)
            d = M.diff(normalise(M.observe(res)), want)
            ctx.require(d is None, lambda: f"the reference to {node['to']} resolves wrongly: {d}")
            ctx.label("reference followed")
            # once more, through the resolved type
            for ((k, i), c), s in zip(M.children(want), sut_children(res)):
                if c["t"] == "proxy":
                    r2, err = call(s.resolve)
                    ctx.require(err is None, lambda: f"a reference inside {node['to']} does not resolve: {err!r}")
                    d = M.diff(normalise(M.observe(r2)), M.apply_overrides(defs[c["to"]], c))
                    ctx.require(d is None, lambda: f"a reference inside {node['to']} resolves wrongly: {d}")
            return
        for ((k, i), c), s in zip(M.children(node), sut_children(rt)):
            go(s, c)

    go(rt, node)


def sut_children(rt):
    out = []
    for k in ("keys", "values", "fields", "types"):
        v = getattr(rt, k, None)
        if v is not None:
            out += v if isinstance(v, list) else [v]
    return out


def grid():
    """Every kind of type, in every position, under every kind of namespace, with every attribute."""
    leaves = [[p] for p in sorted(A.PRIMITIVES)] + [[{"type": p}] for p in sorted(A.PRIMITIVES)]
    leaves += [[{"type": A.LOGICAL_BASE[x], "logicalType": x}] for x in sorted(A.LOGICAL)]
    leaves += [[{"type": "bytes", "logicalType": "decimal", "precision": 9, **s}] for s in ({}, {"scale": 0}, {"scale": 4})]
    leaves += [[{"type": "array", "items": "int"}], [{"type": "map", "values": "int"}]]
    named = [
        {"type": "enum", "symbols": ["X", "Y"]},
        {"type": "enum", "symbols": ["X"], "doc": "of the type", "default": "X"},
        {"type": "fixed", "size": 4},
        {"type": "fixed", "size": 12, "logicalType": "duration"},
        {"type": "fixed", "size": 8, "logicalType": "decimal", "precision": 9, "scale": 4},
        {"type": "fixed", "size": 8, "logicalType": "decimal", "precision": 9},
        {"type": "record", "fields": []},
        {"type": "record", "doc": "of the type", "fields": [{"name": "n", "type": "int", "doc": "inner", "default": 0}]},
    ]
    marks = [{}, {"doc": "of the field"}, {"doc": ""}, {"doc": "of the field", "default": 1}]
    marks += [{"default": d} for d in (None, False, 0, "", [], {}, "x", [1], {"a": None}, 1.5)]
    places = {
        "plain": lambda x: x,
        "array": lambda x: {"type": "array", "items": x},
        "map": lambda x: {"type": "map", "values": x},
        "nullable": lambda x: ["null", x],
        "nullable, last": lambda x: [x, "null"],
        "array of nullable": lambda x: {"type": "array", "items": ["null", x]},
        "map of arrays": lambda x: {"type": "map", "values": {"type": "array", "items": x}},
        "union of arrays": lambda x: ["null", {"type": "array", "items": x}, "string"],
    }
    roots = [{"name": "Root"}, {"name": "Root", "namespace": "com.acme"}, {"name": "org.x.Root"}, {"name": "org.x.Root", "namespace": "no.effect"}, {"name": "Root", "namespace": ""}]
    for k, root in enumerate(roots):
        ns = A.fullname(root, None)[1]
        every = [(x, [None]) for x in leaves]
        for x in named:
            every.append(([{**x, "name": "T"}], ["T"] + ([f"{ns}.T"] if ns else [])))
            every.append(([{**x, "name": "T", "namespace": "other.ns"}], ["other.ns.T"]))
            every.append(([{**x, "name": "other.T"}], ["other.T"]))
            every.append(([{**x, "name": "T", "namespace": ""}], [None] if ns else ["T"]))
        for i, (leaf, refs) in enumerate(every):
            for j, m in enumerate(marks):
                for n, place in enumerate(places.values()):
                    if place(leaf[0])[:1] == ["null"] and leaf[0] == "null" if isinstance(place(leaf[0]), list) else False:
                        continue
                    if m and (i + j + n + k) % 4:
                        continue
                    ref = refs[(i + j + n) % len(refs)]
                    fields = [{"name": "f", "type": place(leaf[0]), **m}]
                    if ref is not None:
                        fields += [{"name": "g", "type": place(ref), **m}, {"name": "h", "type": {"type": ref}}]
                    s = {"type": "record", **root, "fields": [*fields, {"name": "last", "type": "string"}]}
                    yield json.loads(json.dumps(s))
                    if j == 0:
                        # below another record, with and without a namespace of its own
                        for inner in ({"name": "In"}, {"name": "In", "namespace": ns} if ns else {"name": "In"}):
                            yield json.loads(json.dumps({"type": "record", **root, "fields": [{"name": "in", "type": {"type": "record", **inner, "fields": s["fields"]}}]}))


def large():
    """Deep nesting, many fields, many definitions each referred to."""
    def record(name, fields, **kw):
        return {"type": "record", "name": name, **kw, "fields": fields}

    for depth in (6, 12):
        for how in range(4):
            s, n = record("L0", [{"name": "x", "type": "long"}]), 0
            for i in range(1, depth):
                wrapped = [s, {"type": "array", "items": s}, {"type": "map", "values": ["null", s]}, ["null", s, "string"]][how if how < 3 else i % 4]
                kw = {"namespace": f"ns{i}"} if i % 3 == 0 else {}
                s = record(f"L{i}", [{"name": "down", "type": wrapped}, {"name": "y", "type": "int"}], **kw)
            yield s
    s = "int"
    for i in range(14):
        s = {"type": "array", "items": s} if i % 2 else {"type": "map", "values": s}
    yield record("R", [{"name": "f", "type": s}, {"name": "g", "type": "string"}])
    prims = sorted(A.PRIMITIVES)
    yield record("R", [{"name": f"f{i}", "type": prims[i % len(prims)], "doc": f"d{i}"} for i in range(300)])
    yield record("R", [{"name": "e", "type": {"type": "enum", "name": "E", "symbols": [f"S{i}" for i in range(300)]}}, {"name": "e2", "type": ["null", "E"]}])
    for ns in ({}, {"namespace": "com.acme"}):
        fields = []
        for i in range(60):
            kind = [record(f"D{i}", [{"name": "v", "type": "int"}]), {"type": "enum", "name": f"D{i}", "symbols": [f"A{i}"]},
                    {"type": "fixed", "name": f"D{i}", "size": i + 1}][i % 3]
            fields.append({"name": f"f{i}", "type": kind})
        fields += [{"name": f"r{i}", "type": [f"D{i}", {"type": "array", "items": f"D{i}"}, ["null", f"D{i}"]][i % 3]} for i in reversed(range(60))]
        yield record("R", fields, **ns)
        yield record("R", [{"name": "u", "type": ["null"] + [record(f"B{i}", [{"name": "v", "type": "int"}]) for i in range(20)]},
                           {"name": "v", "type": ["null"] + [f"B{i}" for i in reversed(range(20))]}], **ns)


@st.composite
def not_records(draw):
    s = draw(A.schemas())
    fields = [f for f in s["fields"]]
    return draw(st.sampled_from([f["type"] for f in fields] + ["int", ["null", "int"]]))


def toplevel(schema, ctx):
    """Only records can be read as a schema: everything else is refused."""
    t = schema if isinstance(schema, (str, list)) else schema["type"]
    ctx.interesting()
    rt, err = call(AvroConverter().to_recap, json.dumps(schema))
    if t != "record":
        ctx.require(err is not None, f"{schema} was read as {rt!r}")
    else:
        ctx.require(err is None and isinstance(rt, T.StructType), f"{schema}: {err!r}")


def flat(schema, ctx):
    """Field attributes written next to the type (also accepted) mean the same."""
    ctx.interesting()
    defs = {}
    want = normalise(A.interpret(schema, None, defs))
    rt, err = call(AvroConverter().to_recap, json.dumps(schema))
    ctx.require(err is None, lambda: f"rejected: {err!r} {schema}")
    d = M.diff(normalise(M.observe(rt)), want)
    ctx.require(d is None, lambda: f"{json.dumps(schema)}\n{d}")


@st.composite
def flattened(draw):
    s = draw(A.schemas())

    def go(r):
        for f in r["fields"]:
            t = f["type"]
            if isinstance(t, dict) and t["type"] == "record":
                go(t)
            elif isinstance(t, dict) and t["type"] in ("array", "map") or (
                isinstance(t, dict) and "name" not in t and isinstance(t["type"], str)
            ):
                if draw(st.booleans()):
                    f.pop("type")
                    for k, v in t.items():
                        f.setdefault(k, v)
        return r

    return go(s)


PROPERTY = Property(
    "C06",
    [
        Facet("read", lambda: A.schemas(), read, quick=700, thorough=12000,
              rule="random Avro record schemas; non-trivial: several named types, a union or a reference",
              examples=[
                  {"type": "record", "name": "R", "fields": [
                      {"name": "id", "type": "int"},
                      {"name": "sub", "doc": "field doc", "type": {"type": "record", "name": "S", "doc": "type doc", "fields": [{"name": "id", "type": "int"}]}},
                      {"name": "l", "type": {"type": "array", "items": ["null", "S"]}},
                      {"name": "m", "type": {"type": "map", "values": ["null", "R"]}},
                      {"name": "d", "type": {"type": "fixed", "name": "D", "size": 12, "logicalType": "duration"}},
                      {"name": "d2", "type": "D"},
                      {"name": "R", "type": "string"}]},
              ]),
        Facet("grid", None, read, enumerate_all=lambda: list(grid()) + list(large()),
              rule="every kind of type in every position, namespace and with every attribute; non-trivial: several named types, a union or a reference"),
        Facet("flat", flattened, flat, quick=150, thorough=2000,
              rule="random record schemas with array/map/logical types written into the field; all non-trivial"),
        Facet("toplevel", not_records, toplevel, quick=100, thorough=1000,
              rule="random non-record schemas; all non-trivial"),
    ],
    assumptions=["Recap's documented mapping of Avro types is taken from its tests"],
)
