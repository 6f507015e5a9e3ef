"""C09: a JSON Schema written from a Recap type accepts its values, and only those."""
import copy
import json

import jsonschema
from hypothesis import strategies as st

from vlib import gen, grid as G, model as M
from vlib.harness import Facet, Property, call, short

import recap.types as T
from recap.converters.json_schema import JSONSchemaConverter

ONEOF = "json-oneof"


class Unsure(Exception):
    pass


def target(node, defs):
    """Follow references (the generated types have no circular ones)."""
    seen = 0
    while node["t"] == "proxy":
        d = M.BUILTINS.get(node["to"]) or defs[node["to"]]
        node = M.apply_overrides(d, node)
        seen += 1
        if seen > 20:
            raise Unsure("circular")
    return node


def classes(node, defs, depth=0):
    """The JSON kinds a type has values of."""
    if depth > 20:
        raise Unsure("circular")
    if node["t"] == "proxy":
        d = M.BUILTINS.get(node["to"]) or defs[node["to"]]
        return classes(d, defs, depth + 1)
    if node["t"] == "union":
        return set().union(*[classes(x, defs, depth + 1) for x in node["types"]], set())
    return {{"null": "null", "bool": "bool", "int": "number", "float": "number", "string": "string",
             "bytes": "string", "enum": "string", "list": "array", "map": "object", "struct": "object"}[node["t"]]}


def optional_field(f):
    """May a struct leave this field out?"""
    return (
        f["t"] == "union" and "default" in f["extra"] and len(f["types"]) == 2
        and [x["t"] for x in f["types"]].count("null") == 1
    )


def accepts(node, v, defs):
    node = target(node, defs)
    t = node["t"]
    if t == "null":
        return v is None
    if t == "bool":
        return isinstance(v, bool)
    if t == "int":
        return isinstance(v, int) and not isinstance(v, bool)
    if t == "float":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if t in ("string", "bytes"):
        return isinstance(v, str)
    if t == "enum":
        return isinstance(v, str) and v in node["symbols"]
    if t == "list":
        return isinstance(v, list) and all([accepts(node["values"], x, defs) for x in v])
    if t == "map":
        return isinstance(v, dict) and all([accepts(node["values"], x, defs) for x in v.values()])
    if t == "union":
        return any([accepts(x, v, defs) for x in node["types"]])
    assert t == "struct"
    if not isinstance(v, dict):
        return False
    ok = True
    names = set()
    for f in node["fields"]:
        name = f["extra"]["name"]
        names.add(name)
        if optional_field(f):
            inner = [x for x in f["types"] if x["t"] != "null"][0]
            if name in v:
                # left out or a value; a null of its own is the inner type's business
                ok = accepts(inner, v[name], defs) and ok
        elif name not in v:
            ok = False
        else:
            ok = accepts(f, v[name], defs) and ok
    if set(v) - names:
        raise Unsure("unknown fields")
    return ok


def some_value(draw, node, defs, fuel):
    if fuel <= 0:
        return None
    node = target(node, defs)
    t = node["t"]
    if t == "null":
        return None
    if t == "bool":
        return draw(st.booleans())
    if t == "int":
        return draw(st.sampled_from([0, 1, -7, 2**40]))
    if t == "float":
        return draw(st.sampled_from([0.5, -1.25, 3]))
    if t in ("string", "bytes"):
        return draw(st.sampled_from(["", "x", "2020-01-01", "QUJD", "a longer text"]))
    if t == "enum":
        return draw(st.sampled_from(node["symbols"])) if node["symbols"] else "?"
    if t == "list":
        return [some_value(draw, node["values"], defs, fuel - 1) for _ in range(draw(st.integers(0, 2)) if fuel > 2 else 0)]
    if t == "map":
        return {k: some_value(draw, node["values"], defs, fuel - 1)
                for k in draw(st.lists(st.sampled_from(["", "k", "type", "ö"]), unique=True, max_size=2 if fuel > 2 else 0))}
    if t == "union":
        return some_value(draw, draw(st.sampled_from(node["types"])), defs, fuel - 1)
    out = {}
    for f in node["fields"]:
        g = f
        if optional_field(f):
            if draw(st.booleans()) or fuel <= 2:
                continue
            g = [x for x in f["types"] if x["t"] != "null"][0]
        out[f["extra"]["name"]] = some_value(draw, g, defs, fuel - 1)
    return out


ATOMS = [None, True, False, 0, 5, -1.5, "", "zz", [], {}, [None], "A"]


def mutate(draw, v):
    """Change one place of a value."""
    places = []

    def go(x, path):
        places.append(path)
        if isinstance(x, list):
            for i, y in enumerate(x):
                go(y, path + [i])
        elif isinstance(x, dict):
            for k, y in x.items():
                go(y, path + [k])

    go(v, [])
    path = draw(st.sampled_from(places))
    v = copy.deepcopy(v)
    if not path:
        return draw(st.sampled_from(ATOMS))
    x = v
    for p in path[:-1]:
        x = x[p]
    if isinstance(x, dict) and draw(st.booleans()):
        del x[path[-1]]
    else:
        x[path[-1]] = copy.deepcopy(draw(st.sampled_from(ATOMS)))
    return v


def tame(draw, node):
    """Unique named fields, string map keys, unions with distinct JSON kinds."""
    for n in M.walk(node):
        if n["t"] == "map":
            n["keys"] = draw(st.sampled_from([M.S(8), M.N("proxy", to="string32")]))
        if n["t"] == "struct":
            seen = set()
            for i, f in enumerate(n["fields"]):
                name = f["extra"].get("name")
                if not name or name in seen:
                    name = f"f{i}"
                seen.add(name)
                f["extra"]["name"] = name
                # a definition is optional or not, as a field it may be both
                if f["t"] == "union" and "default" in f["extra"]:
                    f["alias"] = None
        if n["t"] == "string" and n["logical"] is None and draw(st.integers(0, 3)) == 0:
            n["logical"] = draw(st.sampled_from(["org.iso.8601.Date", "org.iso.8601.DateTime", "org.iso.8601.Time"]))
        if draw(st.integers(0, 3)) == 0:
            n["doc"] = draw(gen.docs)
        if draw(st.integers(0, 5)) == 0 and not (n["t"] == "union" and n["alias"] and "name" in n["extra"]):
            n["extra"].setdefault("default", draw(gen.json_values))
    for n in M.walk(node):
        if n["t"] == "union":
            # no attributes on a plain null
            n["types"] = [M.N("null") if x["t"] == "null" else x for x in n["types"]]
    for _ in range(6):
        changed = False
        defs = M.definitions(node)
        for n in M.walk(node):
            if n["t"] == "proxy" and n["to"] not in M.BUILTINS and n["to"] not in defs:
                n["to"], changed = "int32", True
        for n in M.walk(node):
            if n["t"] != "union":
                continue
            keep, have = [], set()
            for x in n["types"]:
                try:
                    c = classes(x, defs)
                except (Unsure, KeyError):
                    c = have or {"?"}
                if c & have or "?" in c or not c:
                    changed = True
                    continue
                have |= c
                keep.append(x)
            if not keep:
                keep = [M.N("null"), M.N("bool")]
            n["types"] = keep
        if not changed:
            return node
    return M.N("bool")


@st.composite
def cases(draw):
    node = tame(draw, draw(gen.nodes(attrs=False)))
    defs = M.definitions(node)
    values = []
    for _ in range(3):
        v = some_value(draw, node, defs, 7)
        values += [v, mutate(draw, v), mutate(draw, mutate(draw, v))]
    values.append(draw(st.sampled_from(ATOMS)))
    case = {"node": node, "values": values}
    inner = [(n, k, i, c) for n in M.walk(node) for (k, i), c in M.children(n) if c["alias"] and c["t"] != "proxy"]
    if inner and draw(st.integers(0, 2)) == 0:
        # defined elsewhere, as far as the type is concerned
        n, k, i, c = draw(st.sampled_from(inner))
        case["elsewhere"] = {**M.registered(c), "alias": c["alias"]}
        case["elsewhere"]["extra"].pop("name", None)
        ref = M.N("proxy", to=c["alias"], **{k: v for k, v in c["extra"].items() if k in ("name", "default")})
        ref["doc"] = c["doc"]
        if i is None:
            n[k] = ref
        else:
            n[k][i] = ref
    return case


def parse(node, elsewhere=None):
    reg = T.RecapTypeRegistry()
    if elsewhere is not None:
        T.from_dict(M.explicit_doc(elsewhere), reg)
    rt, err = call(T.from_dict, M.explicit_doc(node), reg)
    return M.build(node, reg) if err is not None else rt


def check(case, ctx):
    node, defs = case["node"], M.definitions(case["node"])
    if "elsewhere" in case:
        defs |= M.definitions(case["elsewhere"])
        ctx.label("defined elsewhere")
    ctx.label(*("kind:" + k for k in M.kinds(node)))
    rt = parse(node, case.get("elsewhere"))
    before = M.observe(rt)
    out, err = call(JSONSchemaConverter().from_recap, rt)
    ctx.require(err is None, lambda: f"{M.show(node)} is rejected: {err!r}")
    d = M.diff(M.observe(rt), before)
    ctx.require(d is None, lambda: f"writing changed the type: {d}")
    wire = json.loads(json.dumps(out))
    try:
        jsonschema.Draft202012Validator.check_schema(wire)
    except jsonschema.SchemaError as e:
        ctx.fail(f"not a valid JSON Schema: {e.message}\n{json.dumps(wire)}")
    val = jsonschema.Draft202012Validator(wire)
    yes = no = 0
    for v in case["values"]:
        try:
            want = accepts(node, v, defs)
        except Unsure:
            continue
        got, err = call(val.is_valid, v)
        ctx.require(err is None, lambda: f"the schema cannot be used: {err!r}\n{json.dumps(wire)}")
        yes, no = yes + want, no + (not want)
        ctx.require(
            got == want,
            lambda: f"{json.dumps(v)} is {'a' if want else 'no'} value of {M.show(node)}\nbut "
            f"{'rejected' if want else 'accepted'} by {json.dumps(wire)}",
        )
    ctx.label("accepted" if yes else "none accepted", "rejected" if no else "none rejected")
    ctx.interesting(yes and no and M.size(node) > 2)
    annotations(node, wire, wire, ctx, "$")


def annotations(node, s, root, ctx, path, field=False):
    """Docs, defaults, formats, names and their order are carried along."""
    def deref(s):
        merged = dict(s)
        if "$ref" in s and s["$ref"].startswith("#/$defs/"):
            key = s["$ref"][len("#/$defs/"):]
            ctx.require(key in root.get("$defs", {}), f"{path}: {s['$ref']} is not defined")
            merged = {**root["$defs"][key], **{k: v for k, v in s.items() if k != "$ref"}}
        return merged

    if node["t"] == "proxy" and node["to"] not in M.BUILTINS:
        if node["doc"]:
            ctx.equal(deref(s).get("description"), node["doc"], f"{path}: description in {short(s)}")
        if "default" in node["extra"]:
            ctx.require("default" in s and M.same_json(s["default"], node["extra"]["default"]),
                        lambda: f"{path}: default of {M.show(node)} in {json.dumps(s)}")
        return
    s = deref(s)
    if field and optional_field(node):
        inner = [x for x in node["types"] if x["t"] != "null"][0]
        docs = [x for x in (inner["doc"], node["doc"]) if x]
        if docs:
            ctx.require(s.get("description") in docs, lambda: f"{path}: description of {M.show(node)} in {json.dumps(s)}")
        want = [x["extra"]["default"] for x in (inner, node) if "default" in x["extra"]]
        ctx.require("default" in s and any(M.same_json(s["default"], w) for w in want),
                    lambda: f"{path}: default of {M.show(node)} in {json.dumps(s)}")
        if inner["t"] != "proxy":
            inner = dict(inner, doc=None, extra={k: v for k, v in inner["extra"].items() if k != "default"})
            annotations(inner, s, root, ctx, path)
        return
    if node["t"] == "proxy":
        node = M.apply_overrides(M.BUILTINS[node["to"]], node)
    if node["doc"]:
        ctx.equal(s.get("description"), node["doc"], f"{path}: description in {short(s)}")
    if "default" in node["extra"]:
        ctx.require("default" in s and M.same_json(s["default"], node["extra"]["default"]),
                    lambda: f"{path}: default of {M.show(node)} in {json.dumps(s)}")
    t = node["t"]
    if t == "string":
        fmt = {"org.iso.8601.Date": "date", "org.iso.8601.DateTime": "date-time", "org.iso.8601.Time": "time"}.get(node["logical"])
        ctx.equal(s.get("format"), fmt, f"{path}: format in {short(s)}")
    elif t == "bytes":
        ctx.equal(s.get("format"), "byte", f"{path}: format in {short(s)}")
    elif t == "struct":
        names = [f["extra"]["name"] for f in node["fields"]]
        ctx.equal(list(s["properties"]), names, f"{path}: properties")
        for f in node["fields"]:
            annotations(f, s["properties"][f["extra"]["name"]], root, ctx, f"{path}.{f['extra']['name']}", True)
    elif t == "list":
        annotations(node["values"], s["items"], root, ctx, path + "[]")
    elif t == "map":
        annotations(node["values"], s["additionalProperties"], root, ctx, path + "{}")
    elif t == "union":
        for i, (x, y) in enumerate(zip(node["types"], s["oneOf"])):
            annotations(x, y, root, ctx, f"{path}|{i}")


@st.composite
def nameless(draw):
    node = tame(draw, draw(gen.nodes(attrs=False, aliases=False, top=["struct"])))
    structs = [n for n in M.walk(node) if n["t"] == "struct"]
    s = draw(st.sampled_from(structs))
    s["fields"].insert(draw(st.integers(0, len(s["fields"]))), draw(st.sampled_from([M.N("bool"), M.S(), M.N("null")])))
    return node


def rejects(node, ctx):
    ctx.interesting()
    out, err = call(JSONSchemaConverter().from_recap, M.build(node))
    ctx.require(err is not None, lambda: f"a struct field without a name is written: {M.show(node)} as {json.dumps(out)}")


def overlap(case, ctx):
    out = JSONSchemaConverter().from_recap(M.build(case))
    if not jsonschema.Draft202012Validator(out).is_valid(1):
        ctx.known(ONEOF)


GRID_VALUES = {
    "list": lambda v: [v], "list of lists": lambda v: [[v]], "map": lambda v: {"k": v}, "map of lists": lambda v: {"k": [v]},
    "list of null or": lambda v: [v], "null or list": lambda v: [v],
}


def attribute_grid():
    for kind, node in G.grid():
        wrap = GRID_VALUES.get(kind, lambda v: v)
        fields = [f["extra"]["name"] for f in node["fields"][:-1]]
        full = [{**{f: wrap(copy.deepcopy(a)) for f in fields}, "last": True} for a in [*ATOMS, {"x": 1}, {"next": None}, {"next": {}}]]
        yield {"node": node, "values": [*full, {"last": False}, {f: None for f in fields}, {**{f: None for f in fields}, "last": 1}]}


def every_position():
    """Every kind and builtin in every position, with values that tell them apart."""
    leaves = [M.N("null"), M.N("bool"), M.I(8), M.F(32), M.S(), M.B(), M.N("enum", symbols=["A", "b"])] + [
        M.N("proxy", to=b) for b in sorted(M.BUILTINS)]
    wraps = [
        (lambda x: x, lambda v: v),
        (lambda x: M.N("list", values=x), lambda v: [v]),
        (lambda x: M.N("map", keys=M.S(), values=x), lambda v: {"k": v}),
        (lambda x: M.N("struct", fields=[dict(x, extra={"name": "f"})]), lambda v: {"f": v}),
        (lambda x: M.N("struct", fields=[M.N("union", types=[M.N("null"), x], name="f", default=None)]), lambda v: {"f": v}),
        (lambda x: M.N("struct", fields=[M.N("union", types=[M.N("null"), x], name="f")]), lambda v: {"f": v}),
        (lambda x: M.N("list", values=M.N("union", types=[M.N("null"), x], default=None)), lambda v: [v]),
        (lambda x: M.N("map", keys=M.S(), values=M.N("union", types=[x, M.N("null")], default=None)), lambda v: {"k": v}),
        # the same with names, defined here or referred to
        (lambda x: M.N("union", types=[M.N("null"), x], default=None, alias="a.U"), lambda v: v),
        (lambda x: M.N("list", values=M.N("union", types=[M.N("null"), x], default=None, alias="a.U")), lambda v: [v]),
        (lambda x: M.N("map", keys=M.S(), values=M.N("union", types=[M.N("null"), x], default=None, alias="a.U")), lambda v: {"k": v}),
        (lambda x: M.N("union", types=[M.N("null"), M.N("list", values=x, alias="a.L")]), lambda v: [v]),
        (lambda x: M.N("struct", fields=[M.N("list", values=M.N("union", types=[M.N("null"), x], default=None, alias="a.U"), name="g"),
                                         M.N("proxy", to="a.U", name="f")]), lambda v: {"f": v, "g": []}),
        (lambda x: M.N("struct", fields=[M.N("struct", fields=[dict(x, extra={"name": "f"})], alias="a.S", name="g"),
                                         M.N("list", values=M.N("proxy", to="a.S"), name="h")]), lambda v: {"g": {"f": v}, "h": [{"f": v}]}),
    ]
    out = []
    for leaf in leaves:
        for wi, (wn, wv) in enumerate(wraps):
            if wi > 3 and wi != 13 and leaf["t"] == "null":
                continue
            out.append({"node": wn(copy.deepcopy(leaf)), "values": [wv(a) for a in ATOMS] + [None, {}, [], {"k": 1} if wi == 2 else {}]})
    return out


PROPERTY = Property(
    "C09",
    [
        Facet("values", lambda: cases(), check, quick=700, thorough=12000, enumerate_all=lambda: every_position() + list(attribute_grid()),
              rule="random types with 10 values each, conforming or changed in one place; non-trivial: values of both sorts and more than two nodes"),
        Facet("nameless", lambda: nameless(), rejects, quick=100, thorough=1000, rule="a struct with an unnamed field; all non-trivial"),
        Facet("overlap", None, overlap, rule="the listed finding, replayed",
              examples=[M.N("union", types=[M.N("proxy", to="int32"), M.N("proxy", to="float64")])]),
    ],
    assumptions=["the installed jsonschema package decides what a JSON Schema accepts (formats are annotations)"],
)
