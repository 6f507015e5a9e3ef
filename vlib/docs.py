"""Schema documents of the three file formats with what they mean."""
from __future__ import annotations

import json

from hypothesis import strategies as st

from . import avro_model as A, json_model as J, model as M, proto_model as P
from .unroll import unroll

FORMATS = ("avro", "json", "proto")


@st.composite
def documents(draw, formats=FORMATS):
    fmt = draw(st.sampled_from(formats))
    if fmt == "avro":
        doc = draw(A.schemas())
    elif fmt == "json":
        doc = draw(J.networks(refs=False))["root"]
        if draw(st.booleans()):
            doc = {"$id": draw(st.sampled_from(sorted(J.IDS)[:2])), **doc}
    else:
        doc = draw(P.files())
    return {"format": fmt, "doc": doc, "ascii": draw(st.booleans())}


# Each begins like a good one, so that it fails with the work half done.
BROKEN = {
    "avro": [
        "", "{", "null", "[]",
        '{"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": {"type": "record", "name": "S", "fields": []}}, {"name": "c", "type": "nowhere"}]}',
        '{"type": "record", "name": "R", "fields": [{"name": "a", "type": {"type": "enum", "name": "E", "symbols": ["x"]}}, {"name": "b", "type": {"type": "wrong"}}]}',
    ],
    "json": [
        "", "{", '{"type": "string"}',
        '{"$id": "https://example.com/schemas/address.json", "type": "object", "properties": {"a": {"type": "string"}, "b": {"type": "wrong"}}}',
        '{"$id": "https://example.com/schemas/customer", "type": "object", "properties": {"a": {"type": "integer"}, "b": {}}}',
    ],
    "proto": [
        'syntax = "proto3";',
        'syntax = "proto3"; message A { int32 a = 1; Nowhere b = 2; } message B { string c = 1; }',
    ],
}


def text(d):
    if "text" in d:
        return d["text"]
    if d["format"] == "proto":
        return P.render(d["doc"])
    return json.dumps(d["doc"], ensure_ascii=d["ascii"])


def normalise(node):
    """As for C06: the length of an Avro fixed is what counts."""
    for n in M.walk(node):
        if n["t"] == "bytes":
            n["extra"].pop("signed", None)
            if n["bytes"] is not None and n["bytes"] < M.MAX64:
                n["variable"] = True
    return node


def want(d):
    """(node, definitions by alias)"""
    if d["format"] == "avro":
        defs = {}
        return normalise(A.interpret(d["doc"], None, defs)), {k: normalise(v) for k, v in defs.items()}
    if d["format"] == "json":
        r = J.Reading({}, J.IDS.__getitem__)
        return r.read(d["doc"]), r.defs
    r = P.Reading("_root")
    node = r.expand(r.add(d["doc"]))
    return node, r.defs


def check(ctx, d, rt, what):
    """The type read from a document is the one it describes."""
    node, defs = want(d)
    got = M.observe(rt)
    if d["format"] == "avro":
        got = normalise(got)
    diff = M.diff(got, node)
    ctx.require(diff is None, lambda: f"{what}: {text(d)}\n{diff}")
    if d["format"] != "avro":
        unroll(rt, node, defs, 5)
