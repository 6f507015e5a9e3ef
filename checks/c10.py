"""C10: reading a Protobuf schema keeps its meaning."""
import copy
import json

from hypothesis import strategies as st

from vlib import model as M, proto_model as P
from vlib.harness import Facet, Property, call
from vlib.unroll import unroll
from checks.c06 import check_refs

import recap.types as T
from recap.converters.protobuf import ProtobufConverter

NESTED = "proto-nested-name"
SAME = "proto-same-name"


@st.composite
def cases(draw):
    earlier = []
    external = []
    if draw(st.integers(0, 3)) == 0:
        f = draw(P.files(prefix="Q", package="other.pkg", max_top=2))
        earlier.append(f)
        external = ["other.pkg." + n for n in P.top_names(f)]
    return {
        "namespace": draw(st.sampled_from([None, None, "ns", "my.name.space"])),
        "earlier": earlier,
        "file": draw(P.files(external=external)),
    }


def converter(case):
    return ProtobufConverter(case["namespace"]) if case["namespace"] else ProtobufConverter()


def read_all(case):
    conv = converter(case)
    for f in case["earlier"]:
        conv.to_recap(P.render(f))
    return conv.to_recap(P.render(case["file"]))


def check(case, ctx):
    model = P.Reading(case["namespace"] or "_root")
    for f in case["earlier"]:
        model.add(f)
    first = model.add(case["file"])
    want = model.expand(first)
    text = P.render(case["file"])
    ctx.label(*("kind:" + k for k in M.kinds(want)), "syntax:" + case["file"]["syntax"])
    ctx.interesting(len(model.defs) > 1)
    rt, err = call(read_all, case)
    ctx.require(err is None, lambda: f"a valid file is rejected: {err!r}\n{text}")
    d = M.diff(M.observe(rt), want)
    ctx.require(d is None, lambda: f"{text}\n{d}")
    check_refs(rt, want, model.defs, ctx)
    n = unroll(rt, want, model.defs, 7)
    if n > 1:
        ctx.label("chained references")
    doc, err = call(T.to_dict, rt)
    ctx.require(err is None, lambda: f"the type has no document: {err!r}\n{text}")
    back, err = call(T.from_dict, doc)
    ctx.require(err is None, lambda: f"the document of the type read is invalid: {err!r}\n{json.dumps(doc)}")


@st.composite
def broken(draw):
    case = draw(cases())
    how = draw(st.sampled_from(["unknown", "unknown", "no message"]))
    if how == "no message":
        case["file"]["elements"] = [e for e in case["file"]["elements"] if e["k"] == "enum"]
        case["earlier"] = []
        return case
    first = next(e for e in case["file"]["elements"] if e["k"] == "message")
    name = draw(st.sampled_from(["Nowhere", "foo.Nowhere", ".nowhere.At", "String", "google.protobuf.Nothing", "integer"]))
    n = 700
    el = draw(st.sampled_from([
        {"k": "field", "label": "", "type": name, "name": "broken", "number": n},
        {"k": "field", "label": "repeated", "type": name, "name": "broken", "number": n},
        {"k": "map", "key": "string", "value": name, "name": "broken", "number": n},
        {"k": "oneof", "name": "broken", "elements": [{"k": "field", "label": "", "type": name, "name": "b", "number": n}]},
    ]))
    first["elements"].insert(draw(st.integers(0, len(first["elements"]))), el)
    return case


def rejected(case, ctx):
    ctx.interesting()
    rt, err = call(read_all, case)
    ctx.require(err is not None, lambda: f"invalid, but read as {M.show(M.observe(rt))}\n{P.render(case['file'])}")


def every_scalar():
    out = []
    for t in sorted(P.SCALARS) + sorted(P.WELL_KNOWN) + ["." + w for w in sorted(P.WELL_KNOWN)]:
        for label in ("", "optional", "repeated"):
            out.append({"k": "field", "label": label, "type": t, "name": "f", "number": 1})
        out.append({"k": "map", "key": "string", "value": t, "name": "f", "number": 1})
        out.append({"k": "oneof", "name": "o", "elements": [{"k": "field", "label": "", "type": t, "name": "f", "number": 1}]})
    out += [{"k": "map", "key": k, "value": "int32", "name": "f", "number": 1} for k in P.KEYS]
    cases = []
    for i in range(0, len(out), 6):
        els = copy.deepcopy(out[i:i + 6])
        for j, e in enumerate(els):
            e["name"] = f"f{j}"
            for s in e.get("elements", ()):
                s["name"] = f"g{j}"
        cases.append({"namespace": None, "earlier": [], "file": {"syntax": "proto3", "package": None,
                      "elements": [{"k": "message", "name": "T", "elements": els}]}})
    return cases


def every_reference():
    """References to messages and enums, defined before, after, around or inside, in every position."""
    for package in (None, "foo", "com.acme.v1"):
        for namespace in (None, "my.ns"):
            for target in ("message", "enum", "empty", "self", "nested", "nested enum", "later nested", "uncle"):
                for qualified in ("", "full", "dotted"):
                    if qualified and (not package or target in ("nested", "nested enum", "later nested", "uncle")):
                        continue
                    name = "T" if target == "self" else "X"
                    ref = name if not qualified else f"{package}.{name}" if qualified == "full" else f".{package}.{name}"
                    for syntax, labels in (("proto3", ("", "optional", "repeated")), ("proto2", ("optional", "required", "repeated"))):
                        if target == "self" and syntax == "proto2":
                            labels = ("optional", "repeated")
                        els = [{"k": "field", "label": x, "type": ref, "name": f"f{i}", "number": i + 1} for i, x in enumerate(labels)]
                        els.append({"k": "map", "key": "int32", "value": ref, "name": "m", "number": 11})
                        els.append({"k": "oneof", "name": "o", "elements": [
                            {"k": "field", "label": "", "type": t, "name": f"g{i}", "number": 20 + i} for i, t in enumerate((ref, "string", ref))]})
                        for order in (els, els[::-1], els[3:] + els[:3]):
                            x = {"k": "enum", "name": "X", "values": [["A", 0], ["B", 5]]} if "enum" in target else \
                                {"k": "message", "name": "X", "elements": [] if target == "empty" else [
                                    {"k": "field", "label": labels[0], "type": "T", "name": "back", "number": 1},
                                    {"k": "field", "label": labels[0], "type": "X", "name": "me", "number": 2}]}
                            if target == "self":
                                tops = [{"k": "message", "name": "T", "elements": order}]
                            elif target == "nested" or target == "nested enum":
                                tops = [{"k": "message", "name": "T", "elements": [x, *order]}]
                            elif target == "later nested":
                                tops = [{"k": "message", "name": "T", "elements": [*order, x]}]
                            elif target == "uncle":
                                tops = [{"k": "message", "name": "T", "elements": [{"k": "message", "name": "In", "elements": order}, x,
                                        {"k": "field", "label": labels[0], "type": "In", "name": "in", "number": 99}]}]
                            else:
                                tops = [{"k": "message", "name": "T", "elements": order}, x]
                            for flip in ((tops, tops[::-1]) if len(tops) > 1 and "enum" in target else (tops,)):
                                yield {"namespace": namespace, "earlier": [], "file": copy.deepcopy({"syntax": syntax, "package": package, "elements": flip})}


def large():
    """Deep nesting, many fields, many definitions each referred to."""
    def field(type, name, number, label=""):
        return {"k": "field", "label": label, "type": type, "name": name, "number": number}

    def case(*tops, package=None):
        return {"namespace": None, "earlier": [], "file": {"syntax": "proto3", "package": package, "elements": copy.deepcopy(list(tops))}}

    for package in (None, "com.acme.v1"):
        for depth in (5, 10):
            m = {"k": "message", "name": "L0", "elements": [field("int32", "x", 1)]}
            for i in range(1, depth):
                use = [field(f"L{i-1}", "down", 1), field(f"L{i-1}", "down", 1, "repeated"), {"k": "map", "key": "string", "value": f"L{i-1}", "name": "down", "number": 1}][i % 3]
                m = {"k": "message", "name": f"L{i}", "elements": [m, use, field("string", "y", 2)] if i % 2 else [field("string", "y", 2), m, use]}
            yield case(m, package=package)
        scalars = sorted(P.SCALARS)
        yield case({"k": "message", "name": "T", "elements": [field(scalars[i % len(scalars)], f"f{i}", i + 1, ["", "repeated", "optional"][i % 3]) for i in range(300)]}, package=package)
        yield case({"k": "message", "name": "T", "elements": [field("E", "e", 1)]}, {"k": "enum", "name": "E", "values": [[f"V{i}", i] for i in range(300)]}, package=package)
        yield case({"k": "message", "name": "T", "elements": [{"k": "oneof", "name": "o", "elements": [field(scalars[i % len(scalars)], f"f{i}", i + 1) for i in range(40)]}]}, package=package)
        tops = [{"k": "message", "name": "T", "elements": [field(f"D{i}", f"f{i}", i + 1, ["", "repeated", "optional"][i % 3]) for i in range(60)]}]
        for i in range(60):
            tops.append({"k": "enum", "name": f"D{i}", "values": [[f"A{i}", 0]]} if i % 3 == 1 else
                        {"k": "message", "name": f"D{i}", "elements": [field(f"D{(i * 7 + 1) % 60}", "next", 1), field("bytes", "b", 2)]})
        yield case(*tops, package=package)


def listed(case, ctx):
    rt, err = call(ProtobufConverter().to_recap, case["text"])
    if err is not None:
        ctx.known(case["finding"])


PROPERTY = Property(
    "C10",
    [
        Facet("read", lambda: cases(), check, quick=600, thorough=12000, enumerate_all=lambda: every_scalar() + list(every_reference()) + list(large()),
              rule="random files (messages nested up to 3 deep, references among them and to an earlier file); non-trivial: more than one message or enum"),
        Facet("rejected", lambda: broken(), rejected, quick=120, thorough=2000,
              rule="files without a message or with an undefined type; all non-trivial"),
        Facet("listed", None, listed, rule="the listed findings, replayed", examples=[
            {"finding": NESTED, "text": "syntax = \"proto3\";\nmessage A { Outer.Inner x = 1; }\nmessage Outer { message Inner { int32 v = 1; } }\n"},
            {"finding": SAME, "text": "syntax = \"proto3\";\nmessage A { message I { int32 v = 1; } I x = 1; }\nmessage B { message I { string w = 1; } I x = 1; }\n"},
        ]),
    ],
    assumptions=["messages and enums, nested or not, have distinct names within a file (see the listed findings)"],
)
