"""Generator of proto files as plain trees, their text, and what they mean."""
from __future__ import annotations

import copy

from .boot import boot

boot()
from hypothesis import strategies as st  # noqa: E402

from . import model as M  # noqa: E402

SCALARS = {
    "double": lambda: M.F(64),
    "float": lambda: M.F(32),
    "int32": lambda: M.I(32),
    "int64": lambda: M.I(64),
    "uint32": lambda: M.I(32, False),
    "uint64": lambda: M.I(64, False),
    "sint32": lambda: M.I(32),
    "sint64": lambda: M.I(64),
    "fixed32": lambda: M.I(32, False),
    "fixed64": lambda: M.I(64, False),
    "sfixed32": lambda: M.I(32),
    "sfixed64": lambda: M.I(64),
    "bool": lambda: M.N("bool"),
    "string": lambda: M.S(2_147_483_648),
    "bytes": lambda: M.B(2_147_483_648),
}
WELL_KNOWN = {
    "google.protobuf.Timestamp": lambda: M.I(64, logical="build.recap.Timestamp", unit="nanosecond", timezone="UTC"),
    "google.protobuf.Duration": lambda: M.I(64, logical="build.recap.Duration", unit="nanosecond"),
    "google.protobuf.NullValue": lambda: M.N("null"),
}
KEYS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string"]


# ------------------------------------------------------------------- rendering


def render(file) -> str:
    out = []
    if file["syntax"]:
        out.append(f'syntax = "{file["syntax"]}";')
    if file["package"] and file.get("package_first", True):
        out.append(f"package {file['package']};")
    for imp in file.get("imports", ()):
        out.append(f'import "{imp}";')
    if file.get("noise"):
        out.append("// a comment\noption java_package = \"com.acme\";\n/* message Hidden { string x = 1; } */")
    for e in file["elements"]:
        out += _render(e, 0)
    if file["package"] and not file.get("package_first", True):
        out.append(f"package {file['package']};")
    return "\n".join(out) + "\n"


def _render(e, d):
    pad = "  " * d
    k = e["k"]
    if k == "message":
        lines = [f"{pad}message {e['name']} {{"]
        for x in e["elements"]:
            lines += _render(x, d + 1)
        return lines + [pad + "}"]
    if k == "enum":
        return [f"{pad}enum {e['name']} {{"] + [pad + x for x in e.get("noise", ())] + [f"{pad}  {s} = {n}{e.get('options', '')};" for s, n in e["values"]] + [pad + "}"]
    if k == "field":
        label = e["label"] + " " if e["label"] else ""
        return [f"{pad}{label}{e['type']} {e['name']} = {e['number']}{e.get('options', '')};"]
    if k == "map":
        return [f"{pad}map<{e['key']}, {e['value']}> {e['name']} = {e['number']}{e.get('options', '')};"]
    if k == "oneof":
        lines = [f"{pad}oneof {e['name']} {{"] + [pad + x for x in e.get("noise", ())]
        for x in e["elements"]:
            lines += _render(x, d + 1)
        return lines + [pad + "}"]
    if k == "noise":
        return [pad + e["text"]]
    raise AssertionError(k)


# --------------------------------------------------------------------- meaning


class Reading:
    """Definitions by alias, with references kept as references."""

    def __init__(self, namespace):
        self.namespace = namespace
        self.defs = {}

    def add(self, file):
        self.ns = file["package"] or self.namespace
        first = None
        for e in file["elements"]:
            if e["k"] == "message":
                alias = self.message(e)
                first = first or alias
            elif e["k"] == "enum":
                self.enum(e)
        return first

    def message(self, e):
        fields = []
        for x in e["elements"]:
            if x["k"] == "field":
                fields.append(self.field(x))
            elif x["k"] == "map":
                fields.append(M.N("union", types=[
                    M.N("null"), M.N("map", keys=self.type(x["key"]), values=self.type(x["value"]))],
                    default=None, name=x["name"]))
            elif x["k"] == "oneof":
                alts = []
                for y in x["elements"]:
                    if y["k"] == "field":
                        n = self.type(y["type"])
                        n["extra"]["name"] = y["name"]
                        alts.append(n)
                fields.append(M.N("union", types=[M.N("null")] + alts, default=None, name=x["name"]))
            elif x["k"] == "message":
                self.message(x)
            elif x["k"] == "enum":
                self.enum(x)
        alias = f"{self.ns}.{e['name']}"
        self.defs[alias] = M.N("struct", fields=fields)
        return alias

    def enum(self, e):
        self.defs[f"{self.ns}.{e['name']}"] = M.N("enum", symbols=[s for s, _ in e["values"]])

    def field(self, x):
        n = self.type(x["type"])
        if x["label"] == "repeated":
            n = M.N("list", values=n)
        if x["label"] != "required":
            if n["t"] != "null":
                n = M.N("union", types=[M.N("null"), n])
            n["extra"]["default"] = None
        n["extra"]["name"] = x["name"]
        return n

    def type(self, t):
        t = t[1:] if t.startswith(".") else t
        if t in SCALARS:
            return SCALARS[t]()
        if t in WELL_KNOWN:
            return WELL_KNOWN[t]()
        return M.N("proxy", to=t if "." in t else f"{self.ns}.{t}")

    def expand(self, alias):
        """The type with each definition in the first place it is used."""
        done = {alias}
        root = copy.deepcopy(self.defs[alias])
        root["alias"] = alias

        def go(n):
            if n["t"] == "proxy" and n["to"] not in done:
                done.add(n["to"])
                d = M.apply_overrides(self.defs[n["to"]], n)
                d["alias"] = n["to"]
                n = d
            n = dict(n)
            for k in ("keys", "values", "fields", "types"):
                if k in M.OWN[n["t"]]:
                    v = n[k]
                    n[k] = [go(c) for c in v] if isinstance(v, list) else go(v)
            return n

        return go(root)


# ------------------------------------------------------------------- generator

FIELD_NAMES = ["id", "name", "value", "next", "fooBar", "list_of_x", "x1", "type_name", "data", "ts", "flag", "ref", "count", "kind", "message", "package", "optional", "string"]


@st.composite
def files(draw, syntax=None, package=..., external=(), prefix="", well_known=True, max_top=3):
    """One file; `external` are full names of types in other files."""
    syntax = syntax or draw(st.sampled_from(["proto3", "proto3", "proto3", "proto2"]))
    if package is ...:
        package = draw(st.sampled_from([None, "foo", "foo.bar", "com.acme.v1"]))
    counter = [0]

    def shape(depth):
        counter[0] += 1
        name = prefix + draw(st.sampled_from(["M", "Msg", "Node_", "item"])) + str(counter[0])
        kids = []
        if depth > 0:
            for _ in range(draw(st.integers(0, 2)) if counter[0] < 6 else 0):
                kids.append(shape(depth - 1) if draw(st.booleans()) else enum())
        return {"k": "message", "name": name, "kids": kids}

    def enum():
        counter[0] += 1
        i = counter[0]
        n = draw(st.integers(1, 3)) if draw(st.integers(0, 5)) else draw(st.integers(8, 30))
        numbers = [0] + draw(st.lists(st.integers(1, 50) | st.integers(-50, -1), min_size=n - 1, max_size=n - 1, unique=True))
        noise = draw(st.sampled_from([[]] * 5 + [["// X = 7;"], ["reserved 900 to 910, 920;", "reserved \"OLD\";"], ["option allow_alias = true;"]]))
        if "option allow_alias = true;" in noise:
            numbers[1:] = [draw(st.sampled_from(numbers)) for _ in numbers[1:]]
        return {"noise": noise, "options": draw(st.sampled_from(["", "", "", " [deprecated = true]"])), "k": "enum", "name": f"{prefix}E{i}", "values": [[f"{prefix}V{i}_{j}", x] for j, x in enumerate(numbers)]}

    tops = [shape(2)]
    for _ in range(draw(st.integers(0, max_top - 1))):
        tops.append(shape(1) if draw(st.integers(0, 2)) else enum())
    if draw(st.integers(0, 5)) == 0:
        tops = [enum()] + tops
    top_names = [t["name"] for t in tops]

    def pick_type(scope, message_ok=True):
        options = ["scalar", "scalar", "local", "local"]
        if well_known:
            options.append("wkt")
        if external:
            options.append("external")
        o = draw(st.sampled_from(options))
        if o == "scalar":
            return draw(st.sampled_from(sorted(SCALARS)))
        if o == "wkt":
            return draw(st.sampled_from(["", "."])) + draw(st.sampled_from(sorted(WELL_KNOWN)))
        if o == "external":
            return draw(st.sampled_from(["", "."])) + draw(st.sampled_from(list(external)))
        name = draw(st.sampled_from(scope))
        if name in top_names and package and draw(st.integers(0, 2)) == 0:
            return draw(st.sampled_from(["", "."])) + f"{package}.{name}"
        return name

    def fill(m, scope):
        scope = scope + [k["name"] for k in m["kids"]]
        n = draw(st.integers(0, 4)) if draw(st.integers(0, 11)) else draw(st.integers(8, len(FIELD_NAMES)))
        names = draw(st.lists(st.sampled_from(FIELD_NAMES), min_size=n, max_size=n, unique=True))
        number = 0
        elements = []

        def next_number():
            nonlocal number
            number += draw(st.sampled_from([1, 1, 1, 4, 1, 1, 1, 4, 20_000]))
            return number

        labels = ["", "", "optional", "repeated"] if syntax == "proto3" else ["optional", "repeated", "required"]
        for name in names:
            shape_ = draw(st.sampled_from(["field", "field", "field", "map", "oneof"]))
            if shape_ == "field":
                elements.append({"k": "field", "label": draw(st.sampled_from(labels)), "type": pick_type(scope), "name": name,
                                 "number": next_number(), "options": draw(st.sampled_from(["", "", "", " [deprecated = true]"]))})
            elif shape_ == "map":
                elements.append({"k": "map", "key": draw(st.sampled_from(KEYS)), "value": pick_type(scope), "name": name,
                                 "number": next_number(), "options": draw(st.sampled_from(["", "", "", " [deprecated = true]"]))})
            else:
                subs = draw(st.lists(st.sampled_from(["alpha", "beta", "gamma", "delta", "eta", "theta"]), min_size=1, max_size=draw(st.sampled_from([3, 3, 6])), unique=True))
                elements.append({"k": "oneof", "name": name, "noise": draw(st.sampled_from([[], [], [], ["// string x = 99;"]])), "elements": [
                    {"k": "field", "label": "", "type": pick_type(scope), "name": f"{name}_{s}", "number": next_number()} for s in subs]})
        for k in m["kids"]:
            el = fill(k, scope) if k["k"] == "message" else k
            elements.insert(draw(st.integers(0, len(elements))), el)
        if draw(st.integers(0, 7)) == 0:
            elements.append({"k": "noise", "text": draw(st.sampled_from(["reserved 900 to 910;", "// comment", "option deprecated = true;", "/* string gone = 99; */", "reserved \"gone\", \"older\";", ";"]))})
        return {"k": "message", "name": m["name"], "elements": elements}

    elements = [fill(t, top_names) if t["k"] == "message" else t for t in tops]
    return {"syntax": syntax, "package": package, "elements": elements,
            "noise": draw(st.integers(0, 5)) == 0, "package_first": draw(st.integers(0, 5)) != 0}


def top_names(file):
    return [e["name"] for e in file["elements"]]


def types_of(element):
    yield element
    for x in element.get("elements", ()):
        if x["k"] in ("message", "enum"):
            yield from types_of(x)
