"""C02: the parser accepts exactly the valid documents, and sugar is only sugar."""
import copy
import json

from hypothesis import strategies as st

from vlib import gen, model as M
from vlib.harness import Facet, Property, call

import recap.types as T


def sugar(case, ctx):
    node, doc = case["node"], case["doc"]
    ctx.interesting(M.size(node) > 2)
    if doc != M.explicit_doc(node):
        ctx.label("uses sugar")
    before = copy.deepcopy(doc)
    rt, err = call(T.from_dict, doc)
    ctx.require(err is None, lambda: f"a valid document is rejected: {err!r}\n{json.dumps(doc)}")
    ctx.require(
        M.same_json(doc, before), lambda: f"parsing changed the document from {before} to {doc}"
    )
    d = M.diff(M.observe(rt), node)
    ctx.require(d is None, lambda: f"{json.dumps(doc)} was read as another type: {d}")
    # Spelled out, it is the same type.
    plain = T.from_dict(M.explicit_doc(node))
    d = M.diff(M.observe(plain), node)
    ctx.require(d is None, lambda: f"{json.dumps(M.explicit_doc(node))} was read as another type: {d}")
    # The same document again, and into a registry of its own, is the same type.
    again = T.from_dict(copy.deepcopy(before), T.RecapTypeRegistry())
    ctx.require(again == rt, "the same document was read as two different types")


# ------------------------------------------------------------------ validity

BAD = {
    "int": [
        lambda d: d.pop("bits"),
        lambda d: d.update(bits=0),
        lambda d: d.update(bits=-1),
        lambda d: d.update(bits=M.MAX32 + 1),
        lambda d: d.update(bits=2**63),
    ],
    "float": [
        lambda d: d.pop("bits"),
        lambda d: d.update(bits=0),
        lambda d: d.update(bits=-32),
        lambda d: d.update(bits=M.MAX32 + 1),
    ],
    "string": [
        lambda d: d.update(bytes=0),
        lambda d: d.update(bytes=-1),
        lambda d: d.update(bytes=M.MAX64 + 1),
        lambda d: (d.pop("bytes", None), d.update(variable=False)),
        lambda d: d.update(bytes=None, variable=False),
    ],
    "list": [
        lambda d: d.pop("values"),
        lambda d: d.update(length=0),
        lambda d: d.update(length=-5),
        lambda d: d.update(length=M.MAX64 + 1),
        lambda d: (d.pop("length", None), d.update(variable=False)),
    ],
    "map": [lambda d: d.pop("keys"), lambda d: d.pop("values")],
    "enum": [lambda d: d.pop("symbols")],
    "union": [lambda d: d.pop("types")],
    "*": [lambda d: d.pop("type"), lambda d: d.update(type=None), lambda d: d.update(type=5)],
}
BAD["bytes"] = BAD["string"]


@st.composite
def invalid_docs(draw):
    node = draw(gen.nodes(proxies=True))
    doc = M.explicit_doc(node)
    places = []

    def collect(d, path):
        t = d["type"]
        for key in (t, "*"):
            for i in range(len(BAD.get(key, ()))):
                places.append((path, key, i))
        # alias rules
        if t in M.OWN:
            places.append((path, "alias", "plain"))
            places.append((path, "alias", "1a.b"))
            places.append((path, "alias", "a."))
            places.append((path, "alias", "a b.c"))
            places.append((path, "alias", "int32"))
            places.append((path, "alias", ""))
        for k in {"list": ("values",), "map": ("keys", "values"), "struct": ("fields",), "union": ("types",)}.get(t, ()):
            v = d[k]
            if isinstance(v, list):
                for i, c in enumerate(v):
                    collect(c, path + [k, i])
            else:
                collect(v, path + [k])

    collect(doc, [])
    # prefer deep places
    deep = max(len(p) for p, _, _ in places)
    if draw(st.booleans()):
        places = [p for p in places if len(p[0]) == deep] or places
    path, key, i = draw(st.sampled_from(places))
    at = doc
    for p in path:
        at = at[p]
    if key == "alias":
        at["alias"] = i
    else:
        BAD[key][i](at)
    return {"doc": doc, "at": path, "what": f"{key}/{i}"}


def invalid(case, ctx):
    ctx.interesting(len(case["at"]) > 0)
    ctx.label("bad:" + case["what"].split("/")[0])
    rt, err = call(T.from_dict, copy.deepcopy(case["doc"]))
    ctx.require(
        err is not None,
        lambda: f"an invalid document ({case['what']} at {case['at']}) is accepted: {json.dumps(case['doc'])}",
    )


WRAPS = [
    lambda x: x,
    lambda x: [x],
    lambda x: ["null", x],
    lambda x: {"type": ["null", x], "default": None},
    lambda x: {"type": "struct", "fields": ["bool", x]},
    lambda x: {"type": "struct", "fields": [{"type": "struct", "fields": [x], "alias": "in.Ner"}]},
    lambda x: {"type": "struct", "fields": [{**x, "optional": True}]},
    lambda x: {"type": "struct", "fields": [{**x, "optional": True, "default": 1, "name": "f"}]},
    lambda x: {"type": "list", "values": x},
    lambda x: {"type": "list", "values": [x, "null"]},
    lambda x: {"type": "list", "values": x, "length": 3, "variable": False},
    lambda x: {"type": "map", "keys": "string", "values": x},
    lambda x: {"type": "map", "keys": x, "values": "bool"},
    lambda x: {"type": "union", "types": [x, {"type": "union", "types": ["bool", x]}]},
    lambda x: {"type": "union", "types": ["null", {"type": "list", "values": x}], "default": None},
]
GOOD = {
    "null": {}, "bool": {}, "int": {"bits": 12}, "float": {"bits": 12}, "string": {"bytes": 3}, "bytes": {"bytes": 3},
    "list": {"values": "bool"}, "map": {"keys": "string", "values": "bool"}, "struct": {"fields": ["bool"]},
    "enum": {"symbols": ["A"]}, "union": {"types": ["bool", "int8"]},
}
ALIASES = {
    False: ["plain", "1a.b", "a.", "a b.c", "int32", "", ".a", "a..b", "a.b.", "a-b.c", "a.b-c", "a.1b", ".", "a.b c", "a.b/c", "a.b\n"],
    True: ["a.b", "a.b.c", "A.B", "_a._b", "a1.b2", "com.acme.My_Type1", "a.b.c.d.e", "_._", "a.int32", "int.int"],
}


def everywhere():
    """Every mistake in every position, and every good and bad alias on every kind."""
    for t, attrs in GOOD.items():
        good = {"type": t, **attrs}
        docs = [(copy.deepcopy(good), True)]
        for key in (t, "*"):
            for breaks in BAD.get(key, ()):
                d = copy.deepcopy(good)
                breaks(d)
                docs.append((d, False))
        for ok, aliases in ALIASES.items():
            docs += [({**good, "alias": a}, ok) for a in aliases]
        for d, ok in docs:
            for i, wrap in enumerate(WRAPS):
                if "alias" in d and i == 13:
                    continue  # the same alias twice
                yield {"doc": copy.deepcopy(wrap(d)), "ok": ok}


@st.composite
def duplicates(draw):
    """One alias is defined twice in a document."""
    node = draw(gen.nodes(top=["struct", "union", "map"]))
    nodes = [n for n in M.walk(node) if n["t"] != "proxy"]
    if len(nodes) < 2:
        extra = [M.I(32, name="p"), M.S(8, name="q")]
        node = M.N("struct", fields=extra)
        nodes = extra
    i = draw(st.integers(0, len(nodes) - 1))
    j = draw(st.integers(0, len(nodes) - 2))
    j = j + 1 if j >= i else j
    nodes[i]["alias"] = nodes[j]["alias"] = "dup.Alias"
    return M.explicit_doc(node)


def duplicate(doc, ctx):
    ctx.interesting()
    rt, err = call(T.from_dict, doc)
    ctx.require(err is not None, lambda: f"an alias may be defined twice: {json.dumps(doc)}")


def boundaries():
    out = []
    for t, attr, top in (("int", "bits", M.MAX32), ("float", "bits", M.MAX32), ("string", "bytes", M.MAX64),
                         ("bytes", "bytes", M.MAX64), ("list", "length", M.MAX64)):
        for v, ok in ((1, True), (2, True), (top - 1, True), (top, True), (0, False), (-1, False), (top + 1, False)):
            for variable in (True, False):
                d = {"type": t, attr: v}
                if t == "list":
                    d["values"] = "bool"
                if t in ("string", "bytes", "list"):
                    d["variable"] = variable
                for wrap in (lambda x: x, lambda x: [x], lambda x: {"type": "struct", "fields": [x]},
                             lambda x: {"type": "map", "keys": "string", "values": x},
                             lambda x: {"type": "map", "keys": x, "values": "bool"},
                             lambda x: {"type": "list", "values": {"type": "union", "types": ["null", x]}},
                             lambda x: dict(x, optional=True)):
                    out.append({"doc": wrap(d), "ok": ok})
    return out


def boundary(case, ctx):
    ctx.interesting()
    rt, err = call(T.from_dict, copy.deepcopy(case["doc"]))
    ctx.equal(err is None, case["ok"], f"accepting {json.dumps(case['doc'])} ({err!r})")


PROPERTY = Property(
    "C02",
    [
        Facet("sugar", lambda: gen.sugared(gen.nodes()), sugar, quick=800, thorough=12000,
              rule="random nested schemas written with random sugar; non-trivial: more than two nodes",
              examples=[
                  {"node": M.N("union", types=[M.I(8), M.N("union", types=[M.N("null"), M.S()])]),
                   "doc": {"type": ["int8", ["null", "string"]]}},
                  {"node": M.N("union", types=[M.N("null"), M.I(8)], default=None, doc="d", name="f"),
                   "doc": {"type": "int8", "doc": "d", "name": "f", "optional": True}},
              ]),
        Facet("invalid", invalid_docs, invalid, quick=600, thorough=8000,
              rule="a random valid document with one rule broken somewhere; non-trivial: below the top level"),
        Facet("everywhere", None, boundary, enumerate_all=lambda: list(everywhere()),
              rule="every mistake, every good and every bad alias, on every kind in every position; all non-trivial"),
        Facet("duplicate", duplicates, duplicate, quick=200, thorough=2000,
              rule="a random document in which one alias is defined twice; all non-trivial"),
        Facet("boundary", None, boundary, enumerate_all=boundaries,
              rule="every limit of every attribute, in every kind of position; all non-trivial"),
    ],
)
