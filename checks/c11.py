"""C11: a Protobuf schema written from a Recap type describes that type."""
import copy
import json

from google.protobuf import descriptor_pb2, descriptor_pool, duration_pb2, struct_pb2, timestamp_pb2
from hypothesis import strategies as st
from proto_schema_parser import ast
from proto_schema_parser.generator import Generator
from proto_schema_parser.parser import Parser

from vlib import gen, grid as G, model as M
from vlib.harness import Facet, Property, call

import recap.types as T
from recap.converters.protobuf import ProtobufConverter

LIMIT = 2_147_483_648
F = descriptor_pb2.FieldDescriptorProto
SCALAR_TYPES = {
    "double": F.TYPE_DOUBLE, "float": F.TYPE_FLOAT, "int64": F.TYPE_INT64, "uint64": F.TYPE_UINT64, "int32": F.TYPE_INT32,
    "fixed64": F.TYPE_FIXED64, "fixed32": F.TYPE_FIXED32, "bool": F.TYPE_BOOL, "string": F.TYPE_STRING, "bytes": F.TYPE_BYTES,
    "uint32": F.TYPE_UINT32, "sfixed32": F.TYPE_SFIXED32, "sfixed64": F.TYPE_SFIXED64, "sint32": F.TYPE_SINT32, "sint64": F.TYPE_SINT64,
}
# kinds of values, as far as Recap tells them apart
GROUPS = {
    "int32": "i32", "sint32": "i32", "sfixed32": "i32", "int64": "i64", "sint64": "i64", "sfixed64": "i64",
    "uint32": "u32", "fixed32": "u32", "uint64": "u64", "fixed64": "u64", "double": "f64", "float": "f32",
    "bool": "bool", "string": "string", "bytes": "bytes",
}


class Reject(Exception):
    pass


class Unsure(Exception):
    pass


# ------------------------------------------------------------ what is expected


def resolve(n, defs):
    seen = 0
    while n["t"] == "proxy":
        if n["to"] in M.BUILTINS:
            n = M.apply_overrides(M.BUILTINS[n["to"]], n)
        else:
            d = defs[n["to"]]
            if d["t"] in ("struct", "enum"):
                return n
            n = M.apply_overrides(d, n)
        seen += 1
        if seen > 9:
            raise Unsure("circular")
    return n


def simple(n, defs):
    """The Protobuf type of a single value."""
    n = resolve(n, defs)
    t = n["t"]
    if t == "proxy":
        return n["to"]
    if t in ("struct", "enum"):
        if n["alias"] is None:
            raise Reject(f"{t} without an alias")
        return n["alias"]
    if t == "null":
        return "google.protobuf.NullValue"
    if t == "bool":
        return "bool"
    if t == "int":
        if n["bits"] > 64:
            raise Reject("an int of more than 64 bits")
        return ("i" if n["signed"] else "u") + ("32" if n["bits"] <= 32 else "64")
    if t == "float":
        if n["bits"] > 64:
            raise Reject("a float of more than 64 bits")
        return "f32" if n["bits"] <= 32 else "f64"
    if t in ("string", "bytes"):
        if n["bytes"] is None:
            raise Unsure("no size")
        if n["bytes"] > LIMIT:
            raise Reject("too long")
        return t
    raise Reject(f"a {t} where a single value has to be")


def entry(n, defs):
    name = n["extra"].get("name")
    n = resolve(n, defs)
    t = n["t"]
    if t == "list":
        if resolve(n["values"], defs)["t"] == "union":
            raise Unsure("nullable elements")
        return ("repeated", name, simple(n["values"], defs))
    if t == "map":
        if "union" in (resolve(n["keys"], defs)["t"], resolve(n["values"], defs)["t"]):
            raise Unsure("nullable elements")
        k = simple(n["keys"], defs)
        if k not in ("i32", "i64", "u32", "u64", "string", "bool"):
            raise Reject(f"{k} as a key")
        return ("map", name, k, simple(n["values"], defs))
    if t == "union":
        rest = [x for x in n["types"] if x["t"] != "null"]
        if not rest:
            raise Reject("nothing but null")
        if len(rest) == 1:
            if resolve(rest[0], defs)["t"] == "union":
                raise Unsure("nested unions")
            e = entry(rest[0], defs)
            if e[0] == "field":
                return ("optional", name, e[2])
            return (e[0], name, *e[2:])
        alts = []
        for x in rest:
            if resolve(x, defs)["t"] == "union":
                raise Unsure("nested unions")
            alts.append((x["extra"].get("name"), simple(x, defs)))
        return ("oneof", name, alts)
    return ("field", name, simple(n, defs))


def expected(root, defs):
    """full name -> entries of the message / symbols of the enum"""
    out = {}
    if root["alias"] is None or "." not in root["alias"]:
        raise Reject("no alias")
    unsure = None
    for n in M.walk(root):
        if n["t"] == "struct":
            if n["alias"] is None:
                raise Reject("struct without an alias")
            try:
                out[n["alias"]] = [entry(f, defs) for f in n["fields"]]
            except Unsure as u:
                unsure = u
        elif n["t"] == "enum":
            if n["alias"] is None:
                raise Reject("enum without an alias")
            if not n["symbols"]:
                raise Reject("enum without symbols")
            out[n["alias"]] = list(n["symbols"])
    if unsure:
        raise unsure
    package = root["alias"].rsplit(".", 1)[0]
    for full in out:
        parent = full.rsplit(".", 1)[0]
        while parent != package:
            if parent not in out or isinstance(out[parent], list) and out[parent] and isinstance(out[parent][0], str):
                raise Reject(f"{full} is in another package")
            parent = parent.rsplit(".", 1)[0] if "." in parent else ""
    return out


# ---------------------------------------------------------- what was written


def convert(file):
    """The parsed file as a FileDescriptorProto, and its view like `expected`."""
    fd = descriptor_pb2.FileDescriptorProto(
        name="t.proto", syntax="proto3",
        dependency=["google/protobuf/struct.proto", "google/protobuf/timestamp.proto", "google/protobuf/duration.proto"])
    view, order = {}, []
    package = ""
    for e in file.file_elements:
        if isinstance(e, ast.Package):
            package = fd.package = e.name

    def typ(name):
        return GROUPS.get(name, name.lstrip("."))

    def put(f, m, label, oneof=None):
        x = m.field.add(name=f.name, number=f.number, label=label)
        if oneof is not None:
            x.oneof_index = oneof
        if f.type in SCALAR_TYPES:
            x.type = SCALAR_TYPES[f.type]
        else:
            x.type_name = f.type if f.type.startswith(".") else "." + f.type
        return x

    def message(e, d, scope):
        d.name = e.name
        full = scope + "." + e.name if scope else e.name
        if full in view:
            raise ValueError(f"{full} is defined twice")
        entries = view[full] = []
        order.append(full)
        synthetic = []
        for x in e.elements:
            if isinstance(x, ast.Field):
                rep = x.cardinality == ast.FieldCardinality.REPEATED
                if x.cardinality == ast.FieldCardinality.REQUIRED:
                    raise ValueError("required is not allowed in proto3")
                pb = put(x, d, F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL)
                kind = "repeated" if rep else "optional" if x.cardinality else "field"
                if kind == "optional":
                    synthetic.append(pb)
                entries.append((kind, x.name, typ(x.type)))
            elif isinstance(x, ast.MapField):
                en = d.nested_type.add(name="".join(p[:1].upper() + p[1:] for p in x.name.split("_")) + "Entry")
                en.options.map_entry = True
                put(ast.Field("key", 1, x.key_type), en, F.LABEL_OPTIONAL)
                put(ast.Field("value", 2, x.value_type), en, F.LABEL_OPTIONAL)
                if x.key_type not in SCALAR_TYPES or x.key_type in ("double", "float", "bytes"):
                    raise ValueError(f"{x.key_type} cannot be a map key")
                d.field.add(name=x.name, number=x.number, label=F.LABEL_REPEATED, type_name=f".{full}.{en.name}")
                entries.append(("map", x.name, typ(x.key_type), typ(x.value_type)))
            elif isinstance(x, ast.OneOf):
                idx = len(d.oneof_decl)
                d.oneof_decl.add(name=x.name)
                alts = []
                for y in x.elements:
                    if not isinstance(y, ast.Field) or y.cardinality:
                        raise ValueError("only plain fields may be in a oneof")
                    put(y, d, F.LABEL_OPTIONAL, idx)
                    alts.append((y.name, typ(y.type)))
                if not alts:
                    raise ValueError("a oneof must have fields")
                entries.append(("oneof", x.name, alts))
            elif isinstance(x, ast.Message):
                message(x, d.nested_type.add(), full)
            elif isinstance(x, ast.Enum):
                enum(x, d.enum_type.add(), full)
        for pb in synthetic:
            pb.proto3_optional = True
            pb.oneof_index = len(d.oneof_decl)
            d.oneof_decl.add(name="_" + pb.name)

    def enum(e, d, scope):
        d.name = e.name
        full = scope + "." + e.name if scope else e.name
        if full in view:
            raise ValueError(f"{full} is defined twice")
        numbers = [v.number for v in e.elements]
        if not numbers or numbers[0] != 0 or len(set(numbers)) != len(numbers):
            raise ValueError(f"numbers {numbers} of an enum")
        view[full] = [v.name for v in e.elements]
        for v in e.elements:
            d.value.add(name=v.name, number=v.number)

    for e in file.file_elements:
        if isinstance(e, ast.Message):
            message(e, fd.message_type.add(), package)
        elif isinstance(e, ast.Enum):
            enum(e, fd.enum_type.add(), package)
    kinds = {"google.protobuf.Timestamp": F.TYPE_MESSAGE, "google.protobuf.Duration": F.TYPE_MESSAGE,
             "google.protobuf.NullValue": F.TYPE_ENUM}
    for full in view:
        kinds[full] = F.TYPE_MESSAGE if full in order else F.TYPE_ENUM

    def settle(d):
        for f in d.field:
            if f.type_name and not f.HasField("type"):
                full = f.type_name.lstrip(".")
                if full.endswith("Entry") and any(n.name == full.rsplit(".", 1)[1] for n in d.nested_type):
                    f.type = F.TYPE_MESSAGE
                elif full not in kinds:
                    raise ValueError(f"{full} is not defined")
                else:
                    f.type = kinds[full]
        for n in d.nested_type:
            settle(n)

    for m in fd.message_type:
        settle(m)
    return fd, view, order


_POOL_FILES = [struct_pb2, timestamp_pb2, duration_pb2]


def load(fd):
    pool = descriptor_pool.DescriptorPool()
    for m in _POOL_FILES:
        p = descriptor_pb2.FileDescriptorProto()
        m.DESCRIPTOR.CopyToProto(p)
        pool.Add(p)
    return pool.AddSerializedFile(fd.SerializeToString())


# ------------------------------------------------------------------- generator


MORE = [f"f_{i}" for i in range(10)]


@st.composite
def structs(draw, wild=False):
    package = draw(st.sampled_from(["p", "com.acme", "a.b.c"]))
    state = {"n": 0, "defs": [], "scalars": []}
    scope = []

    def fresh(prefix):
        state["n"] += 1
        where = package
        if scope and draw(st.integers(0, 3)) == 0:
            where = scope[-1]  # nested in the message it is used in
        if wild and draw(st.integers(0, 7)) == 0:
            where = draw(st.sampled_from([package + ".sub", package + "x", "zz.other", "a"]))
        return f"{where}.{prefix}{state['n']}"

    def scalar():
        k = draw(st.sampled_from(["int", "int", "float", "bool", "string", "bytes", "builtin", "null"]))
        if k == "int":
            n = M.I(draw(st.sampled_from([1, 8, 31, 32, 33, 63, 64] + ([65, 128] if wild else []))), draw(st.booleans()))
        elif k == "float":
            n = M.F(draw(st.sampled_from([8, 16, 32, 33, 64] + ([65, 128] if wild else []))))
        elif k == "bool":
            n = M.N("bool")
        elif k in ("string", "bytes"):
            n = M.N(k, bytes=draw(st.sampled_from([1, 36, 65535, LIMIT - 1, LIMIT] + ([LIMIT + 1, M.MAX64] if wild else []))))
        elif k == "null":
            n = M.N("null")
        else:
            n = M.N("proxy", to=draw(st.sampled_from(
                [b for b in sorted(M.BUILTINS) if wild or b not in ("string64", "bytes64")])))
        if n["t"] not in ("proxy", "null") and draw(st.integers(0, 7)) == 0:
            n["alias"] = fresh("S")
            state["scalars"].append(n["alias"])
        return n

    def single(depth):
        k = draw(st.sampled_from(["scalar", "scalar", "scalar", "struct", "enum", "ref", "scalar ref"]))
        if k == "ref" and state["defs"]:
            return M.N("proxy", to=draw(st.sampled_from(state["defs"])))
        if k == "scalar ref" and state["scalars"]:
            return M.N("proxy", to=draw(st.sampled_from(state["scalars"])))
        if k == "struct" and depth > 0:
            return struct(depth - 1)
        if k == "enum":
            alias = fresh("E")
            i = state["n"]
            state["defs"].append(alias)
            n = M.N("enum", symbols=[f"V{i}_{j}" for j in range(draw(st.integers(0 if wild else 1, draw(st.sampled_from([3, 3, 3, 20])))))], alias=alias)
            if wild and draw(st.integers(0, 9)) == 0:
                n["alias"] = None
                state["defs"].pop()
            return n
        return scalar()

    def field(depth):
        k = draw(st.sampled_from(["single", "single", "list", "map", "nullable", "nullable", "oneof"]))
        if k == "single":
            return single(depth)
        if k == "list":
            n = M.N("list", values=field(depth - 1) if wild and draw(st.integers(0, 2)) == 0 else single(depth))
        elif k == "map":
            keys = draw(st.sampled_from([M.S(8), M.I(32), M.I(64, False), M.N("bool"), M.N("proxy", to="string32"), M.N("proxy", to="int64")]))
            if wild and draw(st.integers(0, 2)) == 0:
                keys = field(0)
            n = M.N("map", keys=copy.deepcopy(keys), values=field(depth - 1) if wild and draw(st.integers(0, 2)) == 0 else single(depth))
        elif k == "nullable":
            inner = field(depth) if wild or draw(st.integers(0, 2)) == 0 else single(depth)
            if not wild:
                while inner["t"] in ("union", "null"):
                    inner = M.N("bool")
            n = M.N("union", types=draw(st.permutations([M.N("null"), inner])))
            if draw(st.booleans()):
                n["extra"]["default"] = None
        else:
            alts = [field(depth - 1) if wild and draw(st.integers(0, 3)) == 0 else single(depth) for _ in range(draw(st.integers(0 if wild else 2, draw(st.sampled_from([3, 3, 7])))))]
            if not wild:
                alts = [M.N("bool") if a["t"] == "null" else a for a in alts]
            for i, a in enumerate(alts):
                # the name of a single alternative would compete with the field's
                if len([x for x in alts if x["t"] != "null"]) > 1 and draw(st.integers(0, 3)):
                    state["n"] += 1
                    a["extra"]["name"] = f"alt{state['n']}"
            if draw(st.booleans()):
                alts.insert(draw(st.integers(0, len(alts))), M.N("null"))
            n = M.N("union", types=alts)
        return n

    def struct(depth):
        alias = fresh("M") if scope else f"{package}.Root"
        state["defs"].append(alias)
        scope.append(alias)
        fields = []
        names = draw(st.lists(st.sampled_from(["id", "name", "value", "foo_bar", "next", "X", "data", "kind", *MORE]), max_size=draw(st.sampled_from([4, 4, 4, 4, 14])), unique=True))
        for name in names:
            f = field(depth)
            f["extra"]["name"] = name
            fields.append(f)
        scope.pop()
        n = M.N("struct", fields=fields, alias=alias)
        if wild and draw(st.integers(0, 9)) == 0:
            n["alias"] = None
            state["defs"].remove(alias)
        return n

    root = struct(3)
    defs = M.definitions(root)
    for n in M.walk(root):
        if n["t"] == "proxy" and n["to"] not in M.BUILTINS and n["to"] not in defs:
            n["to"] = "int32"
    return root


def parse(node):
    rt, err = call(T.from_dict, M.explicit_doc(node))
    return M.build(node) if err is not None else rt


def check(node, ctx):
    defs = M.definitions(node)
    rt = parse(node)
    before = M.observe(rt)
    try:
        want = expected(node, defs)
    except Reject as r:
        ctx.label("inexpressible")
        ctx.interesting()
        out, err = call(ProtobufConverter().from_recap, rt)
        ctx.require(err is not None, lambda: f"{r} is written: {M.show(node)}\n{Generator().generate(out)}")
        return
    except Unsure:
        ctx.label("unsure")
        call(ProtobufConverter().from_recap, rt)
        return
    kinds = {e[0] for es in want.values() for e in es if isinstance(e, tuple)}
    ctx.label(*("entry:" + k for k in kinds))
    ctx.interesting(len(kinds) > 1 or len(want) > 1)
    out, err = call(ProtobufConverter().from_recap, rt)
    ctx.require(err is None, lambda: f"an expressible struct is rejected: {err!r} {M.show(node)}")
    d = M.diff(M.observe(rt), before)
    ctx.require(d is None, lambda: f"writing changed the type: {d}")
    text = Generator().generate(out)
    file = Parser().parse(text)
    ctx.equal(file.syntax, "proto3", "the declared syntax")
    try:
        fd, view, order = convert(file)
        load(fd)
    except Exception as e:
        ctx.fail(f"not a valid file: {e}\n{M.show(node)}\n{text}")
    ctx.equal(order[0] if order else None, node["alias"], f"the first message\n{text}")
    ctx.equal(sorted(view), sorted(want), f"messages and enums\n{text}")
    for full, entries in want.items():
        got = view[full]
        ctx.equal(len(got), len(entries), f"the number of elements of {full}\n{text}")
        for g, w in zip(got, entries):
            ctx.require(same(g, w, want), lambda: f"{full}: {g} instead of {w}\n{M.show(node)}\n{text}")


def same(g, w, want):
    if isinstance(w, str):
        return g == w
    kinds = {g[0], w[0]}
    if g[0] != w[0]:
        # a message has presence with and without the label
        if not (kinds == {"field", "optional"} and w[2] in want):
            return False
    if w[1] is not None and g[1] != w[1]:
        return False
    if w[0] == "oneof":
        return len(g[2]) == len(w[2]) and all(
            (y[0] is None or x[0] == y[0]) and x[1] == y[1] for x, y in zip(g[2], w[2]))
    return g[2:] == w[2:]


def boundaries():
    out = []
    leaves = [M.I(b, s) for b in (1, 31, 32, 33, 63, 64, 65) for s in (True, False)] + [M.F(b) for b in (1, 32, 33, 64, 65)]
    leaves += [M.N(k, bytes=b) for k in ("string", "bytes") for b in (1, LIMIT - 1, LIMIT, LIMIT + 1)]
    leaves += [M.N("proxy", to=b) for b in sorted(M.BUILTINS)] + [M.N("bool"), M.N("null")]
    for leaf in leaves:
        for wrap in (
            lambda x: x,
            lambda x: M.N("list", values=x),
            lambda x: M.N("map", keys=M.S(9), values=x),
            lambda x: M.N("map", keys=x, values=M.N("bool")),
            lambda x: M.N("union", types=[M.N("null"), x], default=None),
            lambda x: M.N("union", types=[M.N("null"), M.N("list", values=x)], default=None),
            lambda x: M.N("union", types=[x, M.N("enum", symbols=["A"], alias="p.E")]),
        ):
            f = wrap(copy.deepcopy(leaf))
            f["extra"]["name"] = "f"
            if f["t"] == "union" and len(f["types"]) == 2 and leaf["t"] == "null":
                continue
            out.append(M.N("struct", fields=[f, M.N("bool", name="last")], alias="p.T"))
    return out


PROPERTY = Property(
    "C11",
    [
        Facet("write", lambda: structs(), check, quick=400, thorough=9000, enumerate_all=lambda: boundaries() + [n for _, n in G.grid()],
              rule="random expressible structs; non-trivial: more than one message or more than one sort of field"),
        Facet("wild", lambda: structs(wild=True), check, quick=300, thorough=6000,
              rule="random structs with parts Protobuf cannot express; non-trivial: as above or inexpressible"),
    ],
    assumptions=["google.protobuf's well-known types are taken as imported; validity is decided by protobuf's DescriptorPool"],
)
