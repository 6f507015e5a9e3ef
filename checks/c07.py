"""C07: an Avro schema written from a Recap type describes that type."""
import copy
import json

from hypothesis import strategies as st

from vlib import avro_model as A, gen, grid as G, model as M
from vlib.harness import Facet, Property, call

from recap.converters.avro import AvroConverter
from checks.c06 import normalise


def strip(node):
    for n in M.walk(node):
        n["alias"] = None
        if not n["doc"]:
            n["doc"] = None
        if n["extra"].get("name") == "":
            del n["extra"]["name"]
    return node


def write(node, ctx):
    defs = M.definitions(node)
    rt = M.build(node)
    # definitions are known to the registry, as they are after parsing a document
    import recap.types as T

    rt2, err = call(T.from_dict, M.explicit_doc(node))
    if err is None:
        rt = rt2
    before = M.observe(rt)
    try:
        want = strip(normalise(A.to_avro_meaning(node, defs)))
    except A.Reject as r:
        ctx.label("inexpressible")
        ctx.interesting()
        out, err = call(AvroConverter().from_recap, rt)
        ctx.require(err is not None, lambda: f"{r} is written as {json.dumps(out)}: {M.show(node)}")
        return
    except A.Unsure:
        ctx.label("unsure")
        out, err = call(AvroConverter().from_recap, rt)
        return
    ctx.interesting(M.size(node) > 2)
    ctx.label(*("kind:" + k for k in M.kinds(node)))
    out, err = call(AvroConverter().from_recap, rt)
    ctx.require(err is None, lambda: f"an expressible type is rejected: {err!r} {M.show(node)}")
    d = M.diff(M.observe(rt), before)
    ctx.require(d is None, lambda: f"writing changed the type: {d}")
    ctx.require(isinstance(out, dict), "the result is not a dictionary")
    wire = json.loads(json.dumps(out))
    wdefs = {}
    got = strip(normalise(A.interpret(wire, None, wdefs)))
    d = M.diff(got, want)
    ctx.require(d is None, lambda: f"{M.show(node)}\nwritten as {json.dumps(wire)}\n{d}")
    in_keys = {x["alias"] for n in M.walk(node) if n["t"] == "map" for x in M.walk(n["keys"])}
    for alias in defs:
        if alias in in_keys:
            continue  # Avro's map keys are just strings
        ctx.require(alias in wdefs, lambda: f"no definition of {alias} in {json.dumps(wire)}")
        want_def = strip(normalise(A.to_avro_meaning(defs[alias], defs)))
        got_def = strip(copy.deepcopy(wdefs[alias]))
        # the name of a definition may be its own or that of the field it is in
        for x in (want_def, got_def):
            x["extra"].pop("name", None)
            x["extra"].pop("default", None)
            x["doc"] = None
        d = M.diff(normalise(got_def), want_def)
        ctx.require(d is None, lambda: f"the definition of {alias} in {json.dumps(wire)}: {d}")


@st.composite
def avro_nodes(draw, wild=False):
    node = draw(gen.nodes(names=gen.ident(), attrs=False))
    return _tame(draw, node, wild)


def _tame(draw, node, wild):
    """Make a random type expressible (mostly)."""
    for n in M.walk(node):
        if wild and draw(st.integers(0, 9)) == 0:
            continue
        if n["t"] == "int" and n["logical"] is None and draw(st.integers(0, 3)) == 0:
            lg, bits, unit = draw(st.sampled_from([
                ("build.recap.Date", 32, "day"), ("build.recap.Time", 32, "millisecond"),
                ("build.recap.Time", 64, "microsecond"), ("build.recap.Timestamp", 64, "millisecond"),
                ("build.recap.Timestamp", 64, "microsecond"), ("build.recap.Time", 64, "millisecond"),
                ("build.recap.Timestamp", 64, "second"), ("build.recap.Time", 32, "second"),
                ("build.recap.Time", 31, "millisecond"), ("build.recap.Time", 33, "millisecond"),
                ("build.recap.Timestamp", 65, "microsecond"), ("build.recap.Date", 64, "day"),
            ] if wild else [
                ("build.recap.Date", 32, "day"), ("build.recap.Time", 32, "millisecond"),
                ("build.recap.Time", 64, "microsecond"), ("build.recap.Timestamp", 64, "millisecond"),
                ("build.recap.Timestamp", 64, "microsecond"), ("build.recap.Time", 31, "millisecond"),
                ("build.recap.Time", 33, "microsecond"),
            ]))
            n.update(logical=lg, bits=bits, signed=True)
            n["extra"]["unit"] = unit
        elif n["t"] == "int" and n["logical"] is None:
            n["bits"] = draw(st.sampled_from([1, 8, 16, 31, 32, 33, 63, 64, 65, 128, 256, 4096, 99999]))
        elif n["t"] == "float":
            n["bits"] = draw(st.sampled_from([8, 16, 32, 33, 64] + ([65, 128] if wild else [])))
        elif n["t"] == "string" and n["bytes"] is None:
            n["bytes"] = draw(st.sampled_from([1, 36, M.MAX32, M.MAX64]))
            if draw(st.integers(0, 4)) == 0:
                n["logical"] = "build.recap.UUID"
        elif n["t"] == "bytes":
            if n["bytes"] is None:
                n["bytes"] = draw(st.sampled_from([1, 16, M.MAX64]))
            if n["logical"] is None and draw(st.integers(0, 3)) == 0:
                n["logical"] = "build.recap.Decimal"
                n["extra"]["precision"] = draw(st.integers(1, 38))
                if draw(st.booleans()):
                    n["extra"]["scale"] = draw(st.integers(0, 9))
            elif n["logical"] is None and draw(st.integers(0, 9)) == 0:
                n.update(logical="build.recap.Interval", bytes=12, variable=False)
                n["extra"]["unit"] = "millisecond"
        elif n["t"] == "proxy" and n["to"] in M.BUILTINS:
            if not wild:
                n["to"] = draw(st.sampled_from(
                    ["int8", "uint8", "int16", "int32", "uint32", "int64", "uint64", "float16", "float32", "float64",
                     "string32", "string64", "bytes32", "bytes64", "uuid", "decimal128", "decimal256", "timestamp64", "date32"]))
        if n["t"] == "map" and not (wild and draw(st.booleans())):
            n["keys"] = draw(st.sampled_from([M.S(M.MAX64), M.S(8), M.N("proxy", to="string32"), M.N("proxy", to="string64")]))
        if draw(st.integers(0, 4)) == 0:
            n["doc"] = draw(gen.docs)
        if draw(st.integers(0, 5)) == 0:
            n["extra"].setdefault("default", draw(gen.json_values))
    return node


def builtins():
    return [M.N("proxy", to=b) for b in M.BUILTINS] + [
        wrap(M.N("proxy", to=b)) for b in M.BUILTINS for wrap in (
            lambda x: M.N("list", values=x),
            lambda x: M.N("union", types=[M.N("null"), x]),
            lambda x: M.N("map", keys=M.N("proxy", to="string64"), values=x),
            lambda x: M.N("struct", fields=[dict(x, extra={"name": "f"})]),
        )
    ] + [M.I(b, s) for b in list(range(1, 130)) + [255, 256, 257, 4096, 14284, 14285, 14286, 100_000, 2**31 - 1] for s in (True, False)] \
      + [M.F(b) for b in range(1, 130)]


LOGICALS = ["Date", "Time", "Timestamp", "Duration", "Interval", "Decimal", "UUID", "Other"]
UNITS = [None, "day", "second", "millisecond", "microsecond", "nanosecond", "month", "millisecond "]


def logicals():
    """Every logical type on every kind, at the widths where it matters, with every unit."""
    out = []
    for name in LOGICALS:
        lg = "build.recap." + name
        for unit in UNITS:
            u = {} if unit is None else {"unit": unit}
            for bits in (1, 16, 31, 32, 33, 63, 64, 65, 128):
                out.append(M.I(bits, True, logical=lg, **u))
            for bits in (32, 64):
                out.append(M.I(bits, False, logical=lg, **u))
            for size in (1, 11, 12, 13, 16):
                for variable in (True, False):
                    out.append(M.N("bytes", bytes=size, variable=variable, logical=lg, extra=dict(u)))
            out.append(M.F(64, logical=lg, **u))
        for size in (1, 35, 36, 37, M.MAX64):
            for variable in (True, False):
                out.append(M.N("string", bytes=size, variable=variable, logical=lg))
        for size in (1, 16, 32, M.MAX64):
            for variable in (True, False):
                for extra in ({"precision": 5}, {"precision": 5, "scale": 0}, {"precision": 5, "scale": 3}, {"scale": 3},
                              {"precision": "5"}, {"precision": 1, "scale": 1}):
                    out.append(M.N("bytes", bytes=size, variable=variable, logical=lg, extra=dict(extra)))
        for t in ("null", "bool"):
            out.append(M.N(t, logical=lg))
        out.append(M.N("struct", fields=[], logical=lg))
        out.append(M.N("list", values=M.I(32, True), logical=lg))
        out.append(M.N("union", types=[M.N("null"), M.I(32, True)], logical=lg))
    return out


PROPERTY = Property(
    "C07",
    [
        Facet("write", lambda: avro_nodes(), write, quick=600, thorough=10000, enumerate_all=lambda: builtins() + logicals() + [n for _, n in G.grid()],
              rule="random expressible types, and every builtin in every position, every logical type on every kind, width and unit, and a grid of kinds, attributes and positions; non-trivial: more than two nodes"),
        Facet("wild", lambda: avro_nodes(wild=True), write, quick=400, thorough=8000,
              rule="random types with parts Avro may not express; non-trivial: more than two nodes or inexpressible"),
    ],
)
