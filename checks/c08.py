"""C08: reading a JSON Schema keeps its meaning."""
import contextlib
import copy
import itertools
import json

import httpx

from hypothesis import strategies as st
from referencing import Registry, Resource
from referencing.exceptions import NoSuchResource
from referencing.jsonschema import DRAFT202012

from vlib import json_model as J, model as M
from vlib.harness import Facet, Property, call
from vlib.unroll import unroll
from checks.c06 import check_refs

import recap.types as T
from recap.converters.json_schema import JSONSchemaConverter


def registry(case):
    known = case["known"]

    def retrieve(uri):
        if uri not in known:
            raise NoSuchResource(ref=uri)
        return Resource.from_contents(copy.deepcopy(known[uri]), DRAFT202012)

    pre = {i: Resource.from_contents(copy.deepcopy(known[i]), DRAFT202012) for i in case["preloaded"]}
    return Registry(retrieve=retrieve).with_resources(pre.items())


def inline_before_use(root):
    """Ids of schemas embedded in the root, in reading order with references."""
    begun, bad = set(), False

    def go(s):
        nonlocal bad
        if "$id" in s:
            begun.add(s["$id"])
        r = s.get("$ref", s.get("$dynamicRef"))
        if r is not None and r not in begun:
            yield r
        for p in list(s.get("properties", {}).values()) + ([s["items"]] if "items" in s else []):
            yield from go(p)

    return set(go(root))


def read(case, ctx):
    known, root = case["known"], case["root"]
    if inline_before_use(root) - set(known):
        ctx.label("refers to a later embedded schema")
        return
    if any(x["$id"] in known for x in J.subschemas(root) if "$id" in x):
        ctx.label("id twice")
        return
    strategy = J.custom_alias if case["strategy"] == "custom" else None
    model = J.Reading(known, J.custom_alias if strategy else J.IDS.__getitem__)
    want = model.read(root)
    ctx.interesting(M.size(want) > 3)
    ctx.label(*("kind:" + k for k in M.kinds(want)))
    if model.refs:
        ctx.label("references")
    text = json.dumps(root)
    conv = JSONSchemaConverter(registry(case))
    args = [text] + ([strategy] if strategy else [])
    rt, err = call(conv.to_recap, *args)
    ctx.require(err is None, lambda: f"a supported schema is rejected: {err!r}\n{text}")
    d = M.diff(M.observe(rt), want)
    ctx.require(d is None, lambda: f"{text}\n{d}")
    if strategy is None or all(model.defs):
        check_refs(rt, want, model.defs, ctx)
        unroll(rt, want, model.defs, 7)
    again, err = call(JSONSchemaConverter(registry(case)).to_recap, *args)
    ctx.require(err is None and again == rt, "reading the schema again gives another type")
    doc = T.to_dict(rt)
    back, err = call(T.from_dict, doc)
    ctx.require(err is None, lambda: f"the document of the type read is invalid: {err!r}\n{json.dumps(doc)}")


def grid():
    """Every kind of leaf, with every attribute, in every position."""
    other, third = "https://example.com/schemas/customer", "http://registry.example.com/T"
    leaves = [{"type": t} for t in sorted(J.SCALARS)]
    leaves += [{"type": "string", "format": f} for f in sorted(J.FORMATS) + ["email", "uri", "Date", "duration", "uuid", ""]]
    leaves += [{"type": t, "format": f} for t in ("integer", "number", "boolean", "null") for f in ("date", "bytes", "int64")]
    leaves += [{"type": [a]} for a in sorted(J.SCALARS)]
    leaves += [{"type": [a, b]} for a in sorted(J.SCALARS) for b in sorted(J.SCALARS) if a != b]
    leaves += [{"type": ["string", "null", "integer"]}, {"type": ["null", "boolean", "number", "string"]}]
    leaves += [{r: i} for r in ("$ref", "$dynamicRef") for i in (other, third)]
    leaves += [{"type": "object", "properties": {}}, {"type": "object", "properties": {"x": {"type": "integer"}}, "required": ["x"]}]
    marks = [{}, {"description": "about"}, {"description": ""}, {"title": "T"}, {"description": "about", "default": 1, "title": "T"}]
    marks += [{"default": d} for d in (None, False, 0, "", "x", [], {}, [1], {"a": None})]
    places = {
        "required": lambda s: {"type": "object", "properties": {"f": s, "g": {"type": "string"}}, "required": ["f"]},
        "optional": lambda s: {"type": "object", "properties": {"g": {"type": "string"}, "f": s}},
        "item": lambda s: {"type": "array", "items": s},
        "nested item": lambda s: {"type": "array", "items": {"type": "array", "items": s}},
    }
    wrap = [places["required"], places["optional"]]
    known = [{}, {other: {"$id": other, "description": "its own", "default": {"b": 1}, "type": "object", "properties": {"me": {"$ref": other}, "d": {"type": "string", "format": "date"}}},
                  third: {"$id": third, "type": ["string", "null"], "default": "k"}}]
    for leaf in leaves:
        ref = "$ref" in leaf or "$dynamicRef" in leaf
        for i, mark in enumerate(marks):
            for j, (kind, place) in enumerate(places.items()):
                s = place({**leaf, **mark})
                outer = [s] if kind in ("required", "optional") else [w(s) for w in wrap]
                outer += [wrap[(i + j) % 2](o) for o in outer] if kind in ("required", "optional") else []
                for k, root in enumerate(outer):
                    yield {"root": root, "known": known[ref], "preloaded": [other] if ref and k % 2 else [], "strategy": "custom" if i == 1 else "default"}


def large():
    """Deep nesting and many properties."""
    kinds = [{"type": "string", "format": "date"}, {"type": "integer"}, {"type": "boolean"}, {"type": ["string", "null"]}, {"type": "array", "items": {"type": "number"}}]
    case = {"known": {}, "preloaded": [], "strategy": "default"}
    for depth in (6, 12):
        for how in range(3):
            s = {"type": "string", "format": "date-time", "description": "deep"}
            for i in range(depth):
                if how == 1 or (how == 2 and i % 2):
                    s = {"type": "array", "items": s, "description": f"level {i}"}
                else:
                    s = {"type": "object", "properties": {"a": {"type": "integer"}, "down": s}, "required": [["down"], ["a"], []][i % 3], "title": f"T{i}"}
            yield {**case, "root": s if s["type"] == "object" else {"type": "object", "properties": {"f": s}}}
    for req in (range(0), range(0, 300, 2), range(300)):
        yield {**case, "root": {"type": "object", "properties": {f"p{i}": {**kinds[i % len(kinds)], "description": f"d{i}"} for i in range(300)},
                                "required": [f"p{i}" for i in reversed(req)]}}


@contextlib.contextmanager
def web(pages):
    """The web as seen by httpx: pages by address, 404 for all others."""
    asked = []

    def handler(request):
        url = str(request.url)
        asked.append(url)
        if url not in pages:
            return httpx.Response(404, text="not found")
        return httpx.Response(200, content=json.dumps(pages[url], ensure_ascii=False).encode(), headers={"content-type": "application/schema+json; charset=utf-8"})

    transport = httpx.MockTransport(handler)
    real = httpx.Client.__init__

    def init(self, *args, **kw):
        kw["transport"] = transport
        return real(self, *args, **kw)

    httpx.Client.__init__ = init
    try:
        yield asked
    finally:
        httpx.Client.__init__ = real


_visits = itertools.count()


def moved(case):
    """The same schemas at addresses nobody has asked for before (what was
    fetched once may be kept), and the aliases of these addresses."""
    text, aliases, n = json.dumps(case), {}, f"n{next(_visits)}"
    for i, alias in J.IDS.items():
        scheme, _, rest = i.partition("://")
        host, _, path = rest.partition("/")
        new, labels = f"{scheme}://{host}/{n}/{path}", alias.split(".")
        k = host.count(".") + 1
        aliases[new] = ".".join([*labels[:k], n, *labels[k:]])
        text = text.replace(json.dumps(i), json.dumps(new))
    return json.loads(text), aliases


def retrieved(case, ctx):
    """Without a registry of one's own, references are fetched from their address."""
    case, aliases = moved(case)
    known, root = case["known"], case["root"]
    if inline_before_use(root) - set(known) or any(x["$id"] in known for x in J.subschemas(root) if "$id" in x):
        return
    # pages carry their declared draft, as referencing wants it
    draft = "https://json-schema.org/draft/2020-12/schema"
    pages = {i: {"$schema": draft, **s} for i, s in known.items()}
    strategy = J.custom_alias if case["strategy"] == "custom" else None
    model = J.Reading(known, J.custom_alias if strategy else aliases.__getitem__)
    want = model.read(root)
    ctx.interesting(model.refs > 0)
    text = json.dumps(root)
    with web(pages) as asked:
        for again in ("", ", read once more"):
            rt, err = call(JSONSchemaConverter().to_recap, *([text] + ([strategy] if strategy else [])))
            ctx.require(err is None, lambda: f"{text} with {json.dumps(known)} is rejected{again}: {err!r}")
            d = M.diff(M.observe(rt), want)
            ctx.require(d is None, lambda: f"{text}\nwith {json.dumps(known)}{again}\n{d}")
        ctx.require(set(asked) <= set(known), lambda: f"{sorted(set(asked) - set(known))} was fetched for {text}")
        ctx.label("fetched" if asked else "nothing to fetch")


# Ids of all sorts: names, URNs, addresses with ports, versions and numbers.
LABELS = st.sampled_from(["example", "acme", "my-host", "2024", "v1", "x", "a_b", "9lives", "Person", "schema.json", "a b", "münchen", "a~b", "%20", "1", "-", "_"])


@st.composite
def any_ids(draw):
    kind = draw(st.sampled_from(["url", "url", "url", "urn", "name", "local", "tag"]))
    path = "/".join(draw(st.lists(LABELS, max_size=3)))
    if kind == "url":
        host = ".".join(draw(st.lists(st.sampled_from(["example", "my-host", "acme", "2nd", "com", "org", "localhost", "10", "a_b"]), min_size=1, max_size=4)))
        port = draw(st.sampled_from(["", "", ":8081"]))
        user = draw(st.sampled_from(["", "", "me@"]))
        return draw(st.sampled_from(["https", "http", "file"])) + f"://{user}{host}{port}/{path}" + draw(st.sampled_from(["", "", "/", "//x", "?v=1"]))
    if kind == "urn":
        return "urn:" + ":".join(draw(st.lists(LABELS, min_size=1, max_size=3)))
    if kind == "tag":
        return "tag:example.com,2024:" + path
    if kind == "local":
        return "http://" + draw(st.sampled_from(["localhost", "localhost:8000", "[::1]:80", "127.0.0.1"])) + "/" + path
    return draw(LABELS) + draw(st.sampled_from(["", ".json", "/1"]))


@st.composite
def id_cases(draw):
    a, b = draw(st.lists(any_ids(), min_size=2, max_size=2, unique=True))
    return {"id": a, "inner": b, "again": draw(st.booleans()), "self": draw(st.booleans())}


def plain(alias):
    """Qualified names are made of identifiers, separated by dots."""
    return alias.isascii() and alias.count(".") > 0 and all(p.isidentifier() for p in alias.split("."))


def whole_alias(u):
    """What is documented for ids that need nothing special, else None."""
    scheme, sep, rest = u.partition("://")
    host, _, path = rest.partition("/")
    if not sep or "?" in path:
        return None
    alias = ".".join(reversed(host.split(".")))
    path = "".join(c.lower() if c.isascii() and c.isalnum() else "." for c in path).strip(".")
    alias += "." * bool(path) + path
    return alias if plain(alias) else None


def any_id(case, ctx):
    """A schema may have any URI as its id, and refer to itself by it."""
    a, b = case["id"], case["inner"]
    inner = {"$id": b, "type": "object", "properties": {"n": {"type": "integer"}}, "required": ["n"]}
    props = {"in": inner}
    if case["again"]:
        props["again"] = {"$ref": b}
    if case["self"]:
        props["self"] = {"$ref": a}
    text = json.dumps({"$id": a, "type": "object", "properties": props, "required": list(props)})
    rt, err = call(JSONSchemaConverter(Registry()).to_recap, text)
    ctx.require(err is None, lambda: f"a supported schema is rejected: {err!r}\n{text}")
    got = [rt.alias, rt.fields[0].alias]
    expected = [whole_alias(a), whole_alias(b)]
    for u, x, w in zip((a, b), got, expected):
        ctx.require(isinstance(x, str) and plain(x), lambda: f"the alias of {u!r} is {x!r}, which is no qualified name")
        ctx.require(w is None or x == w, lambda: f"the alias of {u!r} is {x!r}, not {w!r}")
    ctx.label("plain" if None not in expected else "special")
    ctx.interesting(None in expected)
    if got[0] == got[1]:
        # documented: different ids may have the same alias
        ctx.label("same alias")
        return
    for f in rt.fields[1:]:
        to = rt if f.extra_attrs["name"] == "self" else rt.fields[0]
        ctx.require(isinstance(f, T.ProxyType) and f.alias == to.alias, lambda: f"{text}: {M.show(M.observe(f))} is not a reference to {to.alias}")
        x, err = call(f.resolve)
        ctx.require(err is None, lambda: f"{text}: {f.alias} does not resolve: {err!r}")
        x = M.observe(x)
        ctx.require(x["t"] == "struct" and [y["extra"].get("name") for y in x["fields"]] == [y.extra_attrs["name"] for y in to.fields],
                    lambda: f"{text}: {f.alias} stands for {M.show(x)}")
    for clean in (True, False):
        doc, err = call(T.to_dict, rt, clean=clean)
        ctx.require(err is None, lambda: f"{text}: what was read has no document: {err!r}")
        back, err = call(T.from_dict, doc)
        ctx.require(err is None, lambda: f"{text}: the document of the type read is invalid: {err!r}\n{json.dumps(doc)}")
        ctx.require(M.diff(M.observe(back), M.observe(rt)) is None, lambda: f"{text}: its document means something else: {json.dumps(doc)}")


BROKEN = [
    {}, {"type": "object"}, {"type": "array"}, {"type": "file"}, {"enum": ["a"]}, {"const": 1}, {"type": "String"},
    {"oneOf": [{"type": "string"}, {"type": "null"}]}, {"anyOf": [{"type": "string"}]}, {"type": ["string", "file"]},
    {"$ref": "https://example.com/nowhere"}, {"type": None}, {"description": "only a description"},
    {"$id": "https://example.com/empty"}, {"type": ["object"]}, {"type": ["array", "null"]}, {"type": 3},
]


@st.composite
def broken(draw):
    net = draw(J.networks(refs=draw(st.booleans())))
    target = draw(st.sampled_from(list(J.subschemas(net["root"]))))
    bad = copy.deepcopy(draw(st.sampled_from(BROKEN)))
    where = "whole"
    if "properties" in target and isinstance(target["properties"], dict):
        target["properties"][draw(st.sampled_from(["p", "q"]))] = bad
    else:
        # replace the schema by the broken one
        target.clear()
        target.update(bad)
    return net


def rejected(case, ctx):
    ctx.interesting()
    text = json.dumps(case["root"])
    rt, err = call(JSONSchemaConverter(registry(case)).to_recap, text)
    ctx.require(err is not None, lambda: f"not supported, but read as {M.show(M.observe(rt))}\n{text}")


def not_objects():
    out = []
    for s in [{"type": "string"}, {"type": "null"}, {"type": ["object", "null"]}, {"type": ["string"]},
              {"type": "array", "items": {"type": "string"}}, {"$ref": "https://example.com/schemas/customer"}] + BROKEN:
        known = {"https://example.com/schemas/customer": {"$id": "https://example.com/schemas/customer", "type": "string"}}
        for pre in ([], list(known)):
            out.append({"root": s, "known": known, "preloaded": pre, "strategy": "default"})
    return out


PROPERTY = Property(
    "C08",
    [
        Facet("read", lambda: J.networks(), read, quick=800, thorough=12000,
              rule="random schemas with up to 3 referred schemas, preloaded or retrieved; non-trivial: more than three nodes"),
        Facet("grid", None, read, enumerate_all=lambda: list(grid()) + list(large()),
              rule="every kind of leaf with every attribute in every position; non-trivial: more than three nodes"),
        Facet("retrieved", lambda: J.networks(), retrieved, quick=160, thorough=3000,
              rule="random schemas with up to 3 referred schemas that are fetched with httpx; non-trivial: some reference"),
        Facet("any id", lambda: id_cases(), any_id, quick=400, thorough=6000,
              rule="schemas whose ids are any URIs, with references to them; non-trivial: an id that isn't simply host and path"),
        Facet("rejected", lambda: broken(), rejected, quick=250, thorough=3000, enumerate_all=not_objects,
              rule="supported schemas with one unsupported part; all are non-trivial"),
    ],
    assumptions=["the aliases of the ids used together differ"],
)
