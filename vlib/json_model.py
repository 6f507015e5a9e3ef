"""An independent reading of the JSON Schema vocabulary Recap supports, and a
generator of such schemas."""
from __future__ import annotations

import copy
import re

from .boot import boot

boot()
from hypothesis import strategies as st  # noqa: E402

from . import gen, model as M  # noqa: E402

# id -> the alias its documented conversion yields (written out by hand)
IDS = {
    "https://example.com/schemas/customer": "com.example.schemas.customer",
    "https://example.com/schemas/address.json": "com.example.schemas.address.json",
    "http://api.acme.org/Types/Line_Item": "org.acme.api.types.line.item",
    "https://acme.org/v1/money-amount/": "org.acme.v1.money.amount",
    "http://registry.example.com/T": "com.example.registry.t",
    "https://example.org/": "org.example",
    "http://a.b.example.net": "net.example.b.a",
}

SCALARS = {
    "string": lambda: M.S(),
    "number": lambda: M.F(64),
    "integer": lambda: M.I(32),
    "boolean": lambda: M.N("bool"),
    "null": lambda: M.N("null"),
}
FORMATS = {
    "bytes": lambda: M.B(),
    "byte": lambda: M.B(),
    "date": lambda: M.S(logical="org.iso.8601.Date"),
    "date-time": lambda: M.S(logical="org.iso.8601.DateTime"),
    "time": lambda: M.S(logical="org.iso.8601.Time"),
}


def nullable(node):
    """The type of a property that may be absent."""
    n = copy.deepcopy(node)
    if n["t"] == "null" or n["t"] == "union" and any(x["t"] == "null" for x in n["types"]):
        n["extra"].setdefault("default", None)
        return n
    default = n["extra"].pop("default", None)
    doc, n["doc"] = n["doc"], None
    if n["t"] != "union":
        n = M.N("union", types=[n])
    n["types"].insert(0, M.N("null"))
    n["doc"] = doc
    n["extra"]["default"] = default
    return n


class Reading:
    def __init__(self, known: dict, alias_of):
        self.known = known  # id -> schema
        self.alias_of = alias_of
        self.begun: set = set()
        self.defs: dict = {}
        self.refs = 0

    def read(self, s) -> dict:
        kw = {}
        if "description" in s:
            kw["doc"] = s["description"]
        if "default" in s:
            kw["default"] = s["default"]
        ref = s.get("$ref", s.get("$dynamicRef"))
        if ref is not None:
            self.refs += 1
            alias = self.alias_of(ref)
            if ref in self.begun:
                return M.N("proxy", to=alias, **kw)
            n = self.read(self.known[ref])
            if "doc" in kw:
                n["doc"] = kw["doc"]
            if "default" in kw:
                n["extra"]["default"] = copy.deepcopy(kw["default"])
            return n
        if "$id" in s:
            self.begun.add(s["$id"])
        n = self.shape(s, kw)
        if "$id" in s:
            n["alias"] = self.alias_of(s["$id"])
            self.defs[n["alias"]] = M.registered(n)
        return n

    def shape(self, s, kw):
        t = s["type"]
        if isinstance(t, list):
            return M.N("union", types=[SCALARS[x]() for x in t], **kw)
        if t == "object":
            fields = []
            for name, p in s["properties"].items():
                f = self.read(p)
                if name not in s.get("required", []):
                    f = nullable(f)
                f["extra"]["name"] = name
                fields.append(f)
            return M.N("struct", fields=fields, **kw)
        if t == "array":
            return M.N("list", values=self.read(s["items"]), **kw)
        n = FORMATS[s["format"]]() if s.get("format") in FORMATS and t == "string" else SCALARS[t]()
        if "doc" in kw:
            n["doc"] = kw["doc"]
        if "default" in kw:
            n["extra"]["default"] = copy.deepcopy(kw["default"])
        return n


# ------------------------------------------------------------------- generator


class _G:
    def __init__(self, draw, ids, inline_ids=()):
        self.draw, self.ids, self.inline = draw, ids, list(inline_ids)
        self.begun = []
        self.budget = 12

    def schema(self, depth, top=None):
        d = self.draw
        self.budget -= 1
        kinds = ["scalar", "scalar", "format", "types"]
        if self.ids or self.begun:
            kinds += ["ref", "ref"]
        if depth > 1 and self.budget > 0:
            kinds += ["object", "object", "array"]
        kind = top or d(st.sampled_from(kinds))
        if kind == "ref":
            s = {d(st.sampled_from(["$ref", "$ref", "$ref", "$dynamicRef"])): d(st.sampled_from(self.ids + self.begun))}
        else:
            s = {}
            if self.inline and kind != "ref" and d(st.integers(0, 3)) == 0:
                s["$id"] = self.inline.pop()
                self.begun.append(s["$id"])
            if kind == "scalar":
                s["type"] = d(st.sampled_from(sorted(SCALARS)))
            elif kind == "format":
                s.update(type="string", format=d(st.sampled_from(sorted(FORMATS) + ["email", "uri"])))
            elif kind == "types":
                s["type"] = d(st.lists(st.sampled_from(sorted(SCALARS)), min_size=1, max_size=d(st.sampled_from([3, 3, 9])), unique=True))
            elif kind == "array":
                s.update(type="array", items=self.schema(depth - 1))
            else:
                s["type"] = "object"
                names = d(st.lists(gen.field_names, max_size=4, unique=True)) if d(st.integers(0, 11)) else [f"p{i}" for i in range(d(st.integers(8, 14)))]
                s["properties"] = {n: self.schema(depth - 1) for n in names}
                req = [n for n in names if d(st.booleans())]
                if d(st.booleans()):
                    req = list(reversed(req))
                if d(st.integers(0, 5)) == 0:
                    req = req + ["never defined"]
                if req or d(st.booleans()):
                    s["required"] = req
        if d(st.integers(0, 2)) == 0:
            s["description"] = d(gen.docs)
        if d(st.integers(0, 2)) == 0:
            s["default"] = d(gen.json_values)
        if d(st.integers(0, 4)) == 0:
            s["title"] = d(gen.ident())
        keys = d(st.permutations(sorted(s))) if d(st.booleans()) else list(s)
        return {k: s[k] for k in keys}


@st.composite
def networks(draw, refs=True, types=True):
    """{"root": schema, "known": {id: schema}, "preloaded": [ids], ...}"""
    ids = draw(st.permutations(sorted(IDS)))
    n = draw(st.integers(0, 3)) if refs else 0
    known_ids = list(ids[:n])
    known = {}
    for i in known_ids:
        g = _G(draw, known_ids)
        g.budget = 6
        s = g.schema(3, top=draw(st.sampled_from(["object", "object", "scalar", "format", "types", "array"])))
        known[i] = {"$id": i, **s}
    root_id = ids[3] if refs and draw(st.booleans()) else None
    g = _G(draw, known_ids + ([root_id] if root_id else []), ids[4:] if refs else ())
    root = g.schema(4, top="object")
    root.pop("$id", None)
    if root_id:
        root = {"$id": root_id, **root}
    # an id that was handed to the root object before it got this one
    defined = {root_id} | set(known_ids) | {s["$id"] for s in subschemas(root) if "$id" in s}
    for s in [*subschemas(root)] + [x for k in known.values() for x in subschemas(k)]:
        for r in ("$ref", "$dynamicRef"):
            if s.get(r) is not None and s[r] not in defined:
                del s[r]
                s["type"] = "string"
    return {
        "root": root,
        "known": known,
        "preloaded": [i for i in known_ids if draw(st.booleans())],
        "strategy": draw(st.sampled_from(["default", "custom"])),
    }


def subschemas(s):
    yield s
    for p in s.get("properties", {}).values() if isinstance(s.get("properties"), dict) else ():
        yield from subschemas(p)
    if isinstance(s.get("items"), dict):
        yield from subschemas(s["items"])


def custom_alias(uri: str) -> str:
    return "my.types." + re.sub(r"\W", "_", uri)
