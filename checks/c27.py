"""C27: The registry's HTTP interface behaves as documented for every request."""
import json

from hypothesis import strategies as st

from vlib import asgi, gen, model as M, registry as G, server as S
from vlib.asgi import segment
from vlib.harness import Facet, Property
from checks.c02 import invalid_docs

NAMES = [n for n in G.TRICKY if "/" not in n and "\n" not in n]
names = G.names.filter(lambda n: "/" not in n and "\n" not in n)
VERSIONS = [1, 2, 3, 9, 10, 11, 0, 100, 2**40]

BAD_TYPES = ["application/json", "text/plain", "application/avro+json", "application/schema+json", "application/x-protobuf", "application/octet-stream", "x", "application/x-recap", "application/x-recap+xml", "application/x-www-form-urlencoded", "application/x-recap+jsonx", "multipart/form-data; boundary=x"]
BAD_BODIES = [
    {"hex": "ff"}, {"hex": ""}, {"hex": "22696e74"}, {"hex": "c328"}, {"hex": "efbbbf22696e743332"}, {"hex": "220069006e00"},
    {"text": "{"}, {"text": "nosuchtype"}, {"text": '"nosuchtype"'}, {"text": '{"type": "no.such.Type", "precision": 1}'}, {"text": '{"type": "nosuchtype", "doc": "d"}'}, {"text": '{"type": "nosuchtype", "logical": "l", "default": null}'}, {"text": "5"}, {"text": "true"}, {"text": "{}"},
    {"text": '{"type": "int32", "default": NaN}'}, {"text": '{"type": "int32", "default": 1e999}'}, {"text": '{"type": "int32", "default": -Infinity}'},
    {"text": '{"type": "int32", "doc": "\\ud800"}'}, {"text": '{"type": "struct", "fields": [{"type": "int32", "name": "\\udfff"}]}'},
    {"text": '{"type": "int", "bits": ' + "9" * 5000 + "}"}, {"text": "[" * 200000}, {"text": '{"type": "list", "values": ' * 3000},
    {"text": '{"type": "int", "bits": 32'}, {"text": "int32 string"}, {"text": " "},
    {"text": '{"type": "struct", "fields": 5}'}, {"text": '{"type": "struct", "fields": ["int32", 5]}'},
]


@st.composite
def good(draw):
    """A body and the type it stands for."""
    case = draw(gen.sugared(G.types))
    if draw(st.integers(0, 6)) == 0:
        name = draw(st.sampled_from(sorted(M.BUILTINS)))
        # the name alone is a type, quoted or not
        return {"text": draw(st.sampled_from([name, json.dumps(name)]))}, M.BUILTINS[name]
    return {"doc": case["doc"], "ascii": draw(st.booleans())}, case["node"]


@st.composite
def requests(draw, pool):
    r = {"op": draw(st.sampled_from(["post", "post", "post", "put", "put", "put", "latest", "version", "versions", "ls", "other"])), "name": draw(st.sampled_from(pool))}
    if r["op"] in ("put", "version"):
        r["version"] = draw(st.sampled_from(VERSIONS[:4] + VERSIONS))
    if r["op"] == "other":
        r["method"], r["tail"] = draw(st.sampled_from(["DELETE", "PATCH", "PUT", "POST"])), draw(st.sampled_from(["", "/versions", "/versions/1", "/versions/x", "/1", "/versions/-1"]))
    if r["op"] in ("post", "put", "other"):
        r["media"] = draw(st.sampled_from([None, S.RECAP, S.RECAP, S.RECAP, "bad"]))
        if r["media"] == "bad":
            r["media"] = draw(st.sampled_from(BAD_TYPES))
        kind = draw(st.sampled_from(["good", "good", "good", "bad", "invalid"]))
        r["node"] = None
        if kind == "good":
            r["body"], r["node"] = draw(good())
        elif kind == "bad":
            r["body"] = draw(st.sampled_from(BAD_BODIES))
        else:
            r["body"] = {"doc": draw(invalid_docs())["doc"]}
        r["cuts"] = draw(st.lists(st.integers(0, 40), max_size=3))
    return r


@st.composite
def histories(draw):
    pool = draw(st.lists(names, min_size=1, max_size=3, unique=True))
    return {
        "kind": draw(st.sampled_from(["memory", "memory", "file"])), "absent": draw(st.lists(names, max_size=2)),
        "requests": draw(st.lists(requests(pool), min_size=1, max_size=7)),
    }


async def send(app, method, target, r):
    body = S.payload(r["body"])
    cuts = sorted({0, len(body), *(min(c, len(body)) for c in r["cuts"])})
    chunks = [body[a:b] for a, b in zip(cuts, cuts[1:])] or [b""]
    todo = [{"type": "http.request", "body": c, "more_body": i < len(chunks) - 1} for i, c in enumerate(chunks)]

    async def receive():
        return todo.pop(0) if todo else {"type": "http.disconnect"}

    headers = [("content-type", r["media"])] if r["media"] is not None else []
    return await asgi.exchange(app, asgi.scope(method, target, headers), receive, asgi.Response())


async def history(case, ctx, app):
    model = G.Model()
    for i, r in enumerate(case["requests"]):
        name = r["name"]
        have = model.types.get(name, {})
        at = f"/registry/{segment(name)}"
        op = r["op"]
        if op in ("post", "put"):
            v = r["version"] if op == "put" else model.next(name)
            what = f"{op} of version {v} of {name!r} as {r['media']}: {str(r['body'])[:300]}"
            wrong = set()
            if r["media"] not in (None, S.RECAP):
                wrong.add(415)
            if r["node"] is None:
                wrong.add(400)
            if op == "put" and v in have:
                wrong.add(409)
            a = await send(app, "POST" if op == "post" else "PUT", at if op == "post" else f"{at}/versions/{v}", r)
            if wrong:
                ctx.interesting()
                ctx.label(*(f"rejected:{w}" for w in wrong))
                ctx.require(a.status in wrong, lambda: f"{what}: answered {a!r}, want {sorted(wrong)}")
            else:
                ctx.label("stored")
                ctx.equal(a.status, 200, f"{what}: {a!r} status")
                ctx.equal(S.parse(ctx, a, what), v, f"{what}: answer")
                model.put(name, v, r["node"])
        elif op == "other":
            if r["method"] == "POST" and r["tail"] == "" or r["method"] == "PUT" and r["tail"] == "/versions/1":
                continue
            a = await send(app, r["method"], at + r["tail"], r)
            ctx.require(400 <= a.status < 500, lambda: f"{r['method']} {at + r['tail']}: {a!r}")
        else:
            target = {"latest": at, "versions": at + "/versions", "ls": "/registry/"}.get(op) or f"{at}/versions/{r['version']}"
            a = await asgi.arequest(app, "GET", target)
            found = op == "ls" or (r["version"] in have if op == "version" else bool(have))
            ctx.equal(a.status, 200 if found else 404, f"status of GET {target}")
            if found:
                got = S.parse(ctx, a, target)
                if op == "ls":
                    ctx.equal(sorted(got), sorted(model.types), "names")
                elif op == "versions":
                    ctx.equal(got, sorted(have), f"versions of {name!r}")
                else:
                    v = r["version"] if op == "version" else max(have)
                    ctx.equal(got[1], v, f"number in GET {target}")
                    S.means(ctx, got[0], have[v], f"GET {target}")
        # a rejected request changes nothing, a stored version nothing else
        if i % case.get("every", 1) == 0:
            await S.show(ctx, app, model, [name, *case["absent"]])


def check(case, ctx):
    with S.registry(case["kind"]) as app:
        S.run(history(case, ctx, app))


def rejections():
    """Every kind of bad body and media type, for a new name and one that exists."""
    out = []
    ok = {"op": "post", "name": "a", "media": S.RECAP, "body": {"text": "int32"}, "node": M.BUILTINS["int32"], "cuts": []}
    for b in BAD_BODIES:
        for op in ({"op": "post"}, {"op": "put", "version": 7}):
            out.append({"kind": "memory", "absent": [], "requests": [ok, {**op, "name": "a", "media": S.RECAP, "body": b, "node": None, "cuts": []}, {**op, "name": "b", "media": None, "body": b, "node": None, "cuts": []}]})
    for m in BAD_TYPES:
        for op in ({"op": "post"}, {"op": "put", "version": 7}):
            out.append({"kind": "memory", "absent": [], "requests": [ok, {**ok, **op, "media": m}, {**ok, **op, "name": "b", "media": m}]})
    for n in NAMES:
        out.append({"kind": "file", "absent": ["x"], "requests": [{**ok, "name": n}, {**ok, "name": n, "op": "put", "version": 1}, {**ok, "name": n, "op": "put", "version": 3}, {**ok, "name": n}]})
    return out


def many():
    """More versions than fit on any page, and more names."""
    ok = {"media": S.RECAP, "cuts": [], "op": "post", "body": {"text": "int32"}, "node": M.BUILTINS["int32"]}
    ask = [{"op": o, "name": "a", "version": 1} for o in ("latest", "versions", "version", "ls")]
    return [{"kind": k, "every": 43, "absent": ["b"], "requests": [{**ok, "name": "a"}] * 130 + ask} for k in ("memory", "file")] + \
        [{"kind": "memory", "every": 43, "absent": ["b"], "requests": [{**ok, "name": f"a{i}"} for i in range(130)] + ask[3:]}]


def numbers():
    """Any two numbers stored one after the other, then each of them again."""
    out = []
    ok = {"name": "a", "media": S.RECAP, "cuts": [], "op": "put"}
    put = lambda v, t: {**ok, "version": v, "body": {"text": t}, "node": M.BUILTINS[t]}  # noqa: E731
    post = {**ok, "op": "post", "body": {"text": "float64"}, "node": M.BUILTINS["float64"]}
    for a in VERSIONS:
        for b in VERSIONS:
            if a != b:
                out.append({"kind": "file" if (a + b) % 3 else "memory", "absent": [], "requests": [
                    put(a, "int32"), put(b, "string32"), put(a, "int8"), put(b, "int8"), post, put(a, "int64"), put(max(a, b) + 1, "int64"), post]})
    return out


PROPERTY = Property("C27", [
    Facet("histories", histories(), check, rule="some request has to be rejected", quick=320, thorough=8000),
    Facet("numbers", None, check, rule="some request has to be rejected", enumerate_all=numbers),
    Facet("many", None, check, rule="some request has to be rejected", enumerate_all=many),
    Facet("rejections", None, check, rule="some request has to be rejected", enumerate_all=rejections),
], assumptions=["names are not empty and contain no slash (in HTTP it ends the name) or line feed (the router takes one at the end of a path for nothing)", "a request with several mistakes may be answered with the status of any of them"])
