"""C12: writing what was read and reading it again changes nothing."""
import json

from hypothesis import strategies as st
from proto_schema_parser.generator import Generator

from vlib import avro_model as A, json_model as J, model as M, proto_model as P
from vlib.harness import Facet, Property, call

from recap.converters.avro import AvroConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter

FORMATS = {
    "avro": (lambda s: AvroConverter().to_recap(s), lambda t: json.dumps(AvroConverter().from_recap(t))),
    "json": (lambda s: JSONSchemaConverter().to_recap(s), lambda t: json.dumps(JSONSchemaConverter().from_recap(t))),
    "proto": (lambda s: ProtobufConverter().to_recap(s), lambda t: Generator().generate(ProtobufConverter().from_recap(t))),
}


def seen(rt):
    """The type; an empty doc counts as none."""
    node = M.observe(rt)
    for n in M.walk(node):
        n["doc"] = n["doc"] or None
    return node


def cycle(fmt, text, ctx):
    read, write = FORMATS[fmt]
    first, err = call(read, text)
    ctx.require(err is None, lambda: f"a schema is rejected: {err!r}\n{text}")
    node = seen(first)
    ctx.interesting(M.size(node) > 4)
    ctx.label(*("kind:" + k for k in M.kinds(node)))
    current, last = first, None
    for _ in range(3):
        written, err = call(write, current)
        ctx.require(err is None, lambda: f"what was read cannot be written: {err!r}\n{text}")
        ctx.require(last is None or written == last, lambda: f"written differently the next time:\n{last}\n{written}")
        last = written
        current, err = call(read, written)
        ctx.require(err is None, lambda: f"what was written cannot be read: {err!r}\n{text}\n{written}")
        d = M.diff(seen(current), node)
        ctx.require(d is None, lambda: f"{text}\nwritten as\n{written}\n{d}")


def avro(schema, ctx):
    cycle("avro", json.dumps(schema), ctx)


def json_schema(case, ctx):
    cycle("json", json.dumps(case["root"]), ctx)


@st.composite
def json_cases(draw):
    case = draw(J.networks(refs=False))
    for s in J.subschemas(case["root"]):
        if isinstance(s.get("type"), list):
            s["type"] = s["type"][0]
    return case


@st.composite
def proto_cases(draw):
    f = draw(P.files(syntax="proto3", well_known=False))
    for e in f["elements"]:
        for m in P.types_of(e):
            for x in m.get("elements", ()):
                if x["k"] == "oneof" and len(x["elements"]) == 1:
                    x["elements"].append(dict(x["elements"][0], name=x["name"] + "_other", number=500 + x["elements"][0]["number"]))
    return f


def proto(f, ctx):
    cycle("proto", P.render(f), ctx)


PROPERTY = Property(
    "C12",
    [
        Facet("avro", lambda: A.schemas(fixed=False), avro, quick=500, thorough=9000, rule="random Avro schemas; non-trivial: more than four nodes"),
        Facet("json", lambda: json_cases(), json_schema, quick=400, thorough=6000, rule="random JSON Schemas; non-trivial: more than four nodes"),
        Facet("protobuf", lambda: proto_cases(), proto, quick=250, thorough=4000, rule="random proto3 files; non-trivial: more than four nodes"),
    ],
    assumptions=["not covered, because the writers have no form for it: Avro fixed, JSON Schema ids and type lists, Protobuf well-known types, proto2"],
)
