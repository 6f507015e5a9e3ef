"""C03: aliases — a reference stands for its definition, at any depth."""
import copy
import json

from hypothesis import strategies as st

from vlib import gen, model as M
from vlib.harness import Facet, Property, call
from vlib.unroll import unroll

import recap.types as T

# ------------------------------------------------------------- histories

ALIASES = ["a.B", "a.C", "com.acme.T", "x.y_1"]
BAD_ALIASES = ["", "B", "a.", ".a", "1.a", "a b.c", "int32", "a..b", "a.b\n", "uuid"]

overrides = st.fixed_dictionaries(
    {},
    optional={
        "doc": gen.docs,
        "logical": gen.logicals,
        "name": gen.field_names,
        "default": gen.json_values,
        "bits": st.sampled_from([8, 24, 64]),
        "bytes": st.sampled_from([1, 36, 1000]),
        "variable": st.booleans(),
        "signed": st.booleans(),
        "unit": st.sampled_from(["second", "day"]),
        "precision": st.integers(1, 9),
        "length": st.integers(1, 9),
        "custom": gen.json_values,
    },
)


def op():
    small = gen.nodes(max_depth=3, aliases=False)
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("register"), "reg": st.integers(0, 1),
                               "alias": st.one_of(st.sampled_from(ALIASES), st.sampled_from(ALIASES), st.sampled_from(BAD_ALIASES)),
                               "node": small}),
        st.fixed_dictionaries({"op": st.just("parse"), "reg": st.integers(0, 1),
                               "alias": st.sampled_from(ALIASES), "node": small}),
        st.fixed_dictionaries({"op": st.just("resolve"), "reg": st.integers(0, 1),
                               "to": st.one_of(st.sampled_from(ALIASES), st.sampled_from(sorted(M.BUILTINS))),
                               "over": overrides, "damage": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("from_alias"), "reg": st.integers(0, 1),
                               "to": st.one_of(st.sampled_from(ALIASES), st.sampled_from(["no.Such", "B", "int32"]))}),
    )


def history(ops, ctx):
    regs = [T.RecapTypeRegistry(), T.RecapTypeRegistry()]
    tables = [dict(M.BUILTINS), dict(M.BUILTINS)]
    originals = []
    ctx.interesting(sum(o["op"] in ("register", "parse") for o in ops) >= 1
                    and sum(o["op"] in ("resolve", "from_alias") for o in ops) >= 1)
    for i, o in enumerate(ops):
        reg, table = regs[o["reg"]], tables[o["reg"]]
        where = f"step {i} ({o['op']})"
        if o["op"] in ("register", "parse"):
            node = copy.deepcopy(o["node"])
            if node["t"] == "proxy":
                node = M.N("struct", fields=[node])
            node["alias"] = o["alias"]
            ok = o["alias"] in ALIASES and o["alias"] not in table
            if o["op"] == "register":
                rt = M.build(node, reg)
                _, err = call(reg.register_alias, rt)
            else:
                rt, err = call(T.from_dict, M.explicit_doc(node), reg)
            ctx.equal(err is None, ok, f"{where}: whether alias {o['alias']!r} may be defined ({err!r})")
            if ok:
                table[o["alias"]] = M.registered(node)
                d = M.diff(M.observe(rt), node)
                ctx.require(d is None, f"{where}: registering changed the type: {d}")
                # What happens to the registered object later is nobody's business.
                rt.doc = "changed afterwards"
                rt.extra_attrs["changed"] = True
                if isinstance(rt, T.StructType):
                    rt.fields.append(T.NullType())
        elif o["op"] == "from_alias":
            rt, err = call(reg.from_alias, o["to"])
            if o["to"] not in table:
                ctx.require(err is not None, f"{where}: unknown alias {o['to']!r} was found")
            else:
                ctx.require(err is None, f"{where}: {o['to']!r} not found: {err!r}")
                d = M.diff(M.observe(rt), table[o["to"]])
                ctx.require(d is None, f"{where}: {o['to']}: {d}")
        else:
            over = dict(o["over"])
            proxy = M.N("proxy", to=o["to"], **{k: v for k, v in over.items() if k in ("doc", "logical")},
                        extra={k: v for k, v in over.items() if k not in ("doc", "logical")})
            for how in ("constructor", "document"):
                p = M.build(proxy, reg) if how == "constructor" else T.from_dict(M.explicit_doc(proxy), reg)
                rt, err = call(p.resolve)
                if o["to"] not in table:
                    ctx.require(err is not None, f"{where}: unknown alias {o['to']!r} was resolved")
                    continue
                ctx.require(err is None, lambda: f"{where}: {o['to']!r} does not resolve: {err!r}")
                want = M.apply_overrides(table[o["to"]], proxy)
                d = M.diff(M.observe(rt), want)
                ctx.require(d is None, lambda: f"{where}: reference {M.show(proxy)} ({how}) resolved wrongly: {d}")
                d = M.diff(M.observe(p.resolve()), want)
                ctx.require(d is None, lambda: f"{where}: resolving again: {d}")
                ctx.label("resolved", *(("overrides",) if over else ()))
                if o["damage"]:
                    rt.doc = "damage"
                    rt.extra_attrs["damage"] = 1
                    if isinstance(rt, T.StructType):
                        rt.fields.clear()
                    if isinstance(rt, T.UnionType):
                        rt.types.append(T.BoolType())
    for k in (0, 1):
        for alias, want in tables[k].items():
            d = M.diff(M.observe(regs[k].from_alias(alias)), want)
            ctx.require(d is None, f"at the end, registry {k}, {alias}: {d}")


# ------------------------------------------------------------- documents


@st.composite
def recursive_docs(draw):
    """A document with definitions that refer to each other (and themselves)."""
    n = draw(st.integers(1, 3))
    names = ["r.N0", "r.N1", "r.N2"][:n]

    def member(depth=0):
        k = draw(st.integers(0, 5))
        ref = M.N("proxy", to=draw(st.sampled_from(names)))
        if draw(st.integers(0, 3)) == 0:
            ref["doc"] = draw(gen.docs)
        if k == 0:
            return M.I(draw(st.sampled_from([7, 8, 32])))
        if k == 1 or depth > 1:
            return ref
        if k == 2:
            return M.N("list", values=member(depth + 1))
        if k == 3:
            return M.N("map", keys=M.S(8), values=member(depth + 1))
        if k == 4:
            return M.N("union", types=[M.N("null"), member(depth + 1)], default=None)
        return M.N("struct", fields=[member(depth + 1)])

    defs = []
    for i, nm in enumerate(names):
        fields = [member() for _ in range(draw(st.integers(1, 3)))]
        for j, f in enumerate(fields):
            f["extra"]["name"] = f"f{j}"
        defs.append(M.N("struct", fields=fields, alias=nm, name=f"d{i}"))
    # Definitions sit side by side, or inside one another.
    if n >= 2 and draw(st.booleans()):
        defs[0]["fields"].insert(draw(st.integers(0, len(defs[0]["fields"]))), defs.pop(1))
    if draw(st.booleans()) and len(defs) == 1:
        root = defs[0]
    else:
        root = M.N("struct", fields=defs + [M.N("proxy", to=draw(st.sampled_from(names)), name="ref")])
    return root


def recursion(node, ctx):
    defs = M.definitions(node)
    doc = M.explicit_doc(node)
    rt, err = call(T.from_dict, doc)
    ctx.require(err is None, lambda: f"rejected: {err!r} {json.dumps(doc)}")
    d = unroll(rt, node, defs, 9)
    ctx.interesting(d >= 2)
    if d >= 3:
        ctx.label("three references deep")
    # Written out and read back, the references still work.
    for clean in (True, False):
        back = T.from_dict(T.to_dict(T.from_dict(doc), clean=clean))
        unroll(back, node, defs, 7)


PROPERTY = Property(
    "C03",
    [
        Facet("history", lambda: st.lists(op(), min_size=1, max_size=10), history, quick=500, thorough=8000,
              rule="random histories of definitions and references on two registries; non-trivial: at least one of each"),
        Facet("recursion", recursive_docs, recursion, quick=500, thorough=8000,
              rule="documents whose definitions refer to each other; non-trivial: a chain of two references is followed",
              examples=[M.N("struct", alias="r.N0", fields=[M.I(32, name="v"), M.N("union", types=[M.N("null"), M.N("proxy", to="r.N0")], default=None, name="next")])]),
    ],
)
