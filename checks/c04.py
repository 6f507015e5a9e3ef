"""C04: making a type nullable adds null and changes nothing else."""
import copy

from hypothesis import strategies as st

from vlib import gen, grid as G, model as M
from vlib.harness import Facet, Property

import recap.types as T


def expected(node):
    """What the nullable version of a node is."""
    n = copy.deepcopy(node)
    default = n["extra"].pop("default", None)
    doc, n["doc"] = n["doc"], None
    name = n["extra"].pop("name", None) if "name" in n["extra"] else Ellipsis
    if n["t"] == "union":
        u = n
    else:
        u = M.N("union", types=[n])
    if not any(x["t"] == "null" for x in u["types"]):
        u["types"].insert(0, M.N("null"))
    u["doc"] = doc
    u["extra"]["default"] = default
    if name is not Ellipsis:
        u["extra"]["name"] = name
    return u


def check(node, ctx):
    ctx.interesting(bool(node["extra"]) or node["doc"] is not None or node["t"] in ("union", "struct", "list", "map"))
    ctx.label("kind:" + node["t"])
    rt = M.build(node)
    twin = M.build(node)
    was = rt.is_nullable()
    ctx.equal(was, is_nullable(node), f"is_nullable of {M.show(node)}")
    if node["t"] == "union" and not any(x["t"] == "null" and x != M.N("null") for x in node["types"]):
        others = [x for x in node["types"] if x["t"] != "null"]
        ctx.equal(rt.is_optional, len(others) == 1 < len(node["types"]) and "default" in node["extra"], f"is_optional of {M.show(node)}")
    n = rt.make_nullable()
    d = M.diff(M.observe(rt), node)
    ctx.require(d is None, lambda: f"make_nullable changed the type it was called on: {d}")
    ctx.require(rt == twin, "make_nullable changed the type it was called on")
    want = expected(node)
    ctx.require(n.is_nullable(), "the result is not nullable")
    d = M.diff(M.observe(n), want)
    ctx.require(d is None, lambda: f"nullable {M.show(node)}: {d}")
    # Once more changes nothing; and every call gives the same answer.
    d = M.diff(M.observe(n.make_nullable()), expected(want))
    ctx.require(d is None, lambda: f"made nullable twice: {d}")
    d = M.diff(M.observe(n), want)
    ctx.require(d is None, lambda: f"the second call changed the first result: {d}")
    d = M.diff(M.observe(rt.make_nullable()), want)
    ctx.require(d is None, lambda: f"the second call gives another answer: {d}")


def is_nullable(node):
    if node["t"] == "union":
        return any(x["t"] == "null" for x in node["types"])
    return node["t"] == "null"


@st.composite
def nullish(draw):
    """Unions whose null carries attributes, sits anywhere, or occurs twice."""
    n = draw(gen.nodes(max_depth=3, top=["union"]))
    null = M.N("null")
    if draw(st.booleans()):
        null["doc"] = draw(gen.docs)
    if draw(st.booleans()):
        null["extra"][draw(gen.extra_names)] = draw(gen.json_values)
    n["types"].insert(draw(st.integers(0, len(n["types"]))), null)
    return n


PROPERTY = Property(
    "C04",
    [
        Facet("nullable", lambda: st.one_of(gen.nodes(max_depth=3), gen.nodes(max_depth=1), nullish()), check,
              quick=900, thorough=12000, enumerate_all=lambda: [f for _, n in G.grid() for f in n["fields"][:-1]] + list(G.near_builtins()),
              rule="random schemas; non-trivial: carries attributes or is a composite type",
              examples=[M.I(32, name="f", default=1, doc="d"), M.N("union", types=[M.I(8), M.S()], default=3, name="u")]),
    ],
)
