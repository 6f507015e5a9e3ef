"""C01: a schema document written from a type means that type."""
import copy
import json

from vlib import gen, grid as G, model as M
from vlib.harness import Facet, Property, call

import recap.types as T


def roundtrip(node, ctx):
    defs = M.definitions(node)
    ctx.interesting(M.size(node) > 2)
    ctx.label(*("kind:" + k for k in M.kinds(node)))
    if defs:
        ctx.label("has user alias")
    if any(n["t"] == "union" and "default" in n["extra"] for n in M.walk(node)):
        ctx.label("has union with default")
    if M.depth(node) >= 4:
        ctx.label("depth>=4")
    rt = M.build(node)
    for clean in (False, True):
        for alias in (False, True):
            what = f"to_dict(clean={clean}, alias={alias})"
            doc = T.to_dict(rt, clean=clean, alias=alias)
            d = M.diff(M.observe(rt), node)
            ctx.require(d is None, f"{what} changed the type it was given: {d}")
            wire = json.loads(json.dumps(doc))
            back, err = call(T.from_dict, copy.deepcopy(wire))
            ctx.require(err is None, lambda: f"from_dict rejects what {what} wrote: {err!r}\n{wire}")
            d = M.diff(M.observe(back), node, defs)
            ctx.require(d is None, lambda: f"{what} wrote {json.dumps(wire)}, which means another type: {d}")
            if not alias:
                # without aliasing nothing may turn into a reference
                d = refs_differ(M.observe(back), node)
                ctx.require(d is None, lambda: f"{what}: {d}")
            if not alias and not clean:
                ctx.require(
                    isinstance(doc, dict) and "type" in doc, "an unclean document is a dictionary"
                )


def refs_differ(got, want):
    a = sorted(n["to"] for n in M.walk(got) if n["t"] == "proxy")
    b = sorted(n["to"] for n in M.walk(want) if n["t"] == "proxy")
    return None if a == b else f"references {a} instead of {b}"


def shorthand(case, ctx):
    """clean_dict / alias_dict on any valid document keep what it means."""
    node, doc = case["node"], case["doc"]
    defs = M.definitions(node)
    ctx.interesting(M.size(node) > 2)
    cleaned = T.clean_dict(copy.deepcopy(doc))
    back, err = call(T.from_dict, cleaned)
    ctx.require(err is None, lambda: f"from_dict rejects cleaned {cleaned}: {err!r}")
    d = M.diff(M.observe(back), node, defs)
    ctx.require(d is None, lambda: f"clean_dict turned {json.dumps(doc)} into {json.dumps(cleaned)}: {d}")
    again = T.clean_dict(copy.deepcopy(cleaned))
    d = M.diff(M.observe(T.from_dict(again)), node, defs)
    ctx.require(d is None, lambda: f"cleaning twice: {d}")
    if isinstance(doc, dict):
        aliased = T.alias_dict(copy.deepcopy(doc))
        d = M.diff(M.observe(T.from_dict(aliased)), node, defs)
        ctx.require(d is None, lambda: f"alias_dict turned {json.dumps(doc)} into {json.dumps(aliased)}: {d}")


def compact(node, ctx):
    """The clean document states nothing that is a default, and a type that is
    exactly a builtin is written as that builtin's name."""
    rt = M.build(node)
    doc = T.to_dict(rt, clean=True, alias=True)
    plain = next((k for k, b in M.BUILTINS.items() if M.diff(node, b) is None), None)
    ctx.interesting()
    if plain is not None:
        ctx.label("exact builtin")
        ctx.equal(doc, plain, "a type equal to a builtin is written as its name")
    problem = no_defaults(doc)
    ctx.require(problem is None, lambda: f"{json.dumps(doc)}: {problem}")


def no_defaults(doc, path="$"):
    if isinstance(doc, str):
        return None
    if isinstance(doc, list):
        for i, x in enumerate(doc):
            p = no_defaults(x, f"{path}[{i}]")
            if p:
                return p
        return None
    t = doc["type"]
    for k in ("alias", "logical", "doc"):
        if k in doc and doc[k] is None:
            return f"{path}: default {k} is spelled out"
    for k, v in M.DEFAULTS.get(t, {}).items() if isinstance(t, str) else ():
        if k in doc and M.same_json(doc[k], v):
            return f"{path}: default {k} is spelled out"
    if set(doc) == {"type"} and isinstance(t, str) and t != "union":
        return f"{path}: {doc} is not shortened to its name"
    for k in {"list": ("values",), "map": ("keys", "values"), "struct": ("fields",), "union": ("types",)}.get(t, ()):
        if k in doc:
            for i, x in enumerate(doc[k] if k in ("fields", "types") else [doc[k]]):
                p = no_defaults(x, f"{path}.{k}[{i}]")
                if p:
                    return p
    return None


N = M.N
null = N("null")
EXAMPLES = [
    # null is not the first type of the union
    N("union", types=[M.I(32), null], default=3),
    # attributes on the type below an optional union
    N("union", types=[null, M.I(32, doc="inner", name="g", default=1)], default=None, doc="outer", name="f"),
    # further attributes on an optional union
    N("union", types=[null, M.I(32)], default=1, doc="d", name="f", alias="a.U", logical="x", custom=1),
    # unions below unions
    N("union", types=[null, N("union", types=[M.I(32), S])], default=None) if (S := M.S(5)) else None,
    N("union", types=[null, N("union", types=[null, M.I(32)], default=1)], default=None),
    N("union", types=[null, null], default=None),
    N("union", types=[null], default=None),
    # an alias defined three levels down
    N("struct", fields=[N("list", values=N("struct", fields=[N("struct", fields=[M.I(7)], alias="a.B", name="x")]), name="l"),
                        N("proxy", to="a.B", name="again")]),
]

PROPERTY = Property(
    "C01",
    [
        Facet("roundtrip", lambda: gen.nodes(), roundtrip, examples=EXAMPLES, quick=900, thorough=12000,
              enumerate_all=lambda: [*G.near_builtins(), *(n for _, n in G.grid())],
              rule="random nested schemas, everything that differs from a builtin in one attribute, and a grid of kinds, attributes and positions; non-trivial: more than two nodes"),
        Facet("shorthand", lambda: gen.sugared(gen.nodes()), shorthand, quick=600, thorough=8000,
              rule="random documents written with random syntactic sugar; non-trivial: more than two nodes",
              examples=[{"node": N("union", types=[null, M.I(8)], name="f"), "doc": {"type": ["null", "int8"], "name": "f"}}]),
        Facet("compact", lambda: gen.nodes(), compact, quick=400, thorough=6000,
              rule="random nested schemas; all non-trivial",
              enumerate_all=lambda: [*G.near_builtins(), *(n for _, n in G.grid())]),
    ],
    assumptions=["attribute names that collide with the document format's own keys are not generated"],
)
