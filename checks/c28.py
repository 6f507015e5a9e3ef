"""C28: Registry names never reach outside the registry's directory."""
import json
import os
import posixpath
import unicodedata
from urllib.parse import quote_plus, unquote, unquote_plus

from hypothesis import strategies as st

from vlib import asgi, model as M, registry as G, server as S
from vlib.asgi import segment
from vlib.harness import Facet, Property
from vlib.recording import RecordingFileSystem as Rec

from recap.storage.registry import RegistryStorage

ROOT = "/srv/data/registry"

hostile = st.one_of(
    st.builds(lambda parts, sep, lead, tail: lead + sep.join(parts) + tail,
              st.lists(st.sampled_from(["..", ".", "...", "a", "b", "1", "1.json", "registry", "etc", "%2e%2e", "%2E", ""]), min_size=1, max_size=5),
              st.sampled_from(["/", "/", "\\", "%2F", "%2f", "%5c", "//", "\u2215", "\x00", ":"]),
              st.sampled_from(["", "", "/", "//", "~/", "./", "file://", "recording://", "::"]),
              st.sampled_from(["", "", "/", "/.", "/..", "\x00", ".json", "#", "?"])),
    G.names, G.names,
).filter(bool)
LONG = [[{"op": "put", "name": G._long("ab.", n, t)} for t in ("a", "b")] + [{"op": "ls", "name": "a"}] for n in (15, 31, 49, 63, 99, 127, 149, 199, 239, 254)]


def outermost():
    """(method, paths) of what was called since the last time"""
    calls = list(Rec.calls)
    Rec.calls.clear()
    return calls


def contained(ctx, calls, what, name=None, places=None):
    """Every path is the root's or below; of a name, below its own place."""
    for method, paths in calls:
        for path in paths:
            p = path.removeprefix("recording://")
            rel = posixpath.normpath("/" + p.lstrip("/"))
            # no step of the way may lead out, even if a later one leads back
            ctx.require(".." not in p.split("/") and "." not in p.split("/"), lambda: f"{what} uses the path {path!r} ({method})")
            ctx.require(rel == ROOT or rel.startswith(ROOT + "/"), lambda: f"{what} touches {path!r} ({method}), outside of {ROOT}")
            below = [s for s in rel[len(ROOT):].split("/") if s]
            if places is not None and below:
                mine = places.setdefault(name, below[0])
                ctx.equal(below[0], mine, f"{what}: place of {name!r}")
                for other, place in places.items():
                    ctx.require(other == name or place != below[0], lambda: f"{what} touches {path!r}, the place of {other!r}")


def odd(name):
    return not name.replace("_", "").isalnum()


@st.composite
def histories(draw):
    pool = draw(st.lists(st.one_of(hostile, hostile, hostile, G.long_names), min_size=1, max_size=4, unique=True))
    return [
        {"op": draw(st.sampled_from(["put", "put", "at", "get", "version", "versions", "latest", "ls"])), "name": draw(st.sampled_from(pool))}
        for _ in range(draw(st.integers(1, 8)))
    ]


def check(ops, ctx):
    Rec.clear()
    ctx.interesting(any(odd(o["name"]) for o in ops))
    s = RegistryStorage(f"recording://{ROOT}")
    outermost()
    model, places = G.Model(), {}
    for k, o in enumerate(ops):
        name, op = o["name"], o["op"]
        what = f"{op} of {name!r}"
        node = M.N("struct", fields=[M.I(k + 1)], doc=name)
        if op == "put":
            model.put(name, s.put(name, M.build(node)), node)
        elif op == "at":
            v = model.next(name) + 3
            model.put(name, s.put(name, M.build(node), v), node)
        elif op == "get":
            s.get(name)
        elif op == "version":
            s.get(name, 1)
        elif op == "versions":
            s.versions(name)
        elif op == "latest":
            s.latest(name)
        else:
            s.ls()
            contained(ctx, outermost(), "ls")
            continue
        contained(ctx, outermost(), what, name, places)
    # no name at all: refused, or as good as any other
    for op in ("put", "get", "versions"):
        try:
            if op == "put":
                node = M.N("struct", fields=[M.I(99)])
                model.put("", s.put("", M.build(node)), node)
            else:
                getattr(s, op)("")
        except Exception:
            ctx.label("empty name refused")
        contained(ctx, outermost(), f"{op} of an empty name")
    model.verify(ctx, s, [o["name"] for o in ops])
    left = sorted(p for p in [*Rec.store, *Rec.pseudo_dirs] if p and not p.startswith(ROOT + "/") and not (ROOT + "/").startswith(p + "/"))
    ctx.equal(left, [], "files and directories outside the registry")


# ---- the same names in requests

@st.composite
def targets(draw):
    """What follows /registry/ in a request line, in every kind of encoding."""
    name = draw(hostile)
    enc = draw(st.sampled_from(["full", "full", "keep slashes", "twice", "as is"]))
    if enc == "full":
        t = segment(name)
    elif enc == "twice":
        t = segment(segment(name))
    elif enc == "keep slashes":
        t = "/".join(segment(p) for p in name.split("/"))
    else:
        t = "".join(c if c.isascii() and c.isprintable() and c not in " ?#" else segment(c) for c in name)
    return {"method": draw(st.sampled_from(["POST", "POST", "PUT", "PUT", "GET"])), "target": t, "tail": draw(st.sampled_from(["", "", "/versions", "/versions/1", "/versions/1", "/versions/2"]))}


async def requests(case, ctx, app):
    await asgi.arequest(app, "POST", "/registry/precious", [("content-type", S.RECAP)], b'"int32"')
    outermost()
    for r in case:
        line = f"/registry/{r['target']}{r['tail']}"
        a = await asgi.arequest(app, r["method"], line, [("content-type", S.RECAP)] if r["method"] != "GET" else [], b'"string"')
        contained(ctx, outermost(), f"{r['method']} {line} (answered {a!r})")
        ctx.label(f"status:{a.status}")
        ctx.interesting(odd(r["target"]))
    a = await asgi.arequest(app, "GET", "/registry/precious/versions/1")
    named = any("precious" in r["target"] for r in case)
    ctx.require(named or a.status == 200 and a.json() == ["int32", 1], lambda: f"another name's schema became {a!r}")
    left = sorted(p for p in [*Rec.store, *Rec.pseudo_dirs] if p and not p.startswith(ROOT + "/") and not (ROOT + "/").startswith(p + "/"))
    ctx.equal(left, [], "files and directories outside the registry")


def check_requests(case, ctx):
    from pydantic import AnyUrl

    from recap.server import registry as R
    from recap.server.app import app

    Rec.clear()
    before = R.settings.registry_storage_url
    R.settings.registry_storage_url = AnyUrl(f"recording://{ROOT}")
    try:
        S.run(requests(case, ctx, app))
    finally:
        R.settings.registry_storage_url = before


# ---- names that become one another if they are decoded once more, or once less

def related(name):
    out = [name, segment(name), unquote(name), unquote_plus(name), quote_plus(name), segment(segment(name)), name.lower(), name.upper(), name.strip(), name + " ",
           unicodedata.normalize("NFC", name), unicodedata.normalize("NFD", name), name.replace("+", " "), name.replace(" ", "+"), name[:-1], name + ".json", f'"{name}"']
    return [n for n in dict.fromkeys(out) if n and "/" not in n and "\n" not in n and n.isprintable()]


@st.composite
def confusable(draw):
    pool = []
    for _ in range(draw(st.integers(1, 2))):
        pool += related(draw(st.one_of(hostile, st.sampled_from(["a b", "a%20b", "a+b", "a%2Bb", "e\u0301", "é", "%25", "A", "\u212b", "ß", "a&amp;b"]))))
    stored = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=4, unique=True)) if pool else ["a"]
    return {"stored": stored, "absent": [n for n in dict.fromkeys(pool) if n not in stored][:8], "kind": draw(st.sampled_from(["memory", "file"]))}


async def store_and_show(case, ctx, app):
    model = G.Model()
    for k, name in enumerate(case["stored"]):
        node = M.N("struct", fields=[M.I(k + 1)])
        body = json.dumps({"type": "struct", "fields": [{"type": "int", "bits": k + 1}]}).encode()
        a = await asgi.arequest(app, "POST", "/registry/" + segment(name), [("content-type", S.RECAP)], body)
        ctx.equal((a.status, a.status == 200 and a.json()), (200, 1), f"storing {name!r} after {case['stored'][:k]} (status, version)")
        model.put(name, 1, node)
    await S.show(ctx, app, model, case["absent"])


def check_apart(case, ctx):
    ctx.interesting(len(case["stored"]) > 1)
    with S.registry(case["kind"]) as app:
        S.run(store_and_show(case, ctx, app))


# ---- and on disk, where the interpreter refuses to write elsewhere

def tree(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, ds, fs in os.walk(root) for f in ds + fs)


def check_disk(names, ctx):
    ctx.interesting(any(odd(n) for n in names))
    with G.places("file") as (url, fs, root):
        for d in ("beside", "registry"):
            os.makedirs(os.path.join(root, d))
        with open(os.path.join(root, "beside", "1.json"), "w") as fh:
            fh.write('"int32"')
        s = RegistryStorage(url)
        model = G.Model()
        for k, name in enumerate(names):
            node = M.N("struct", fields=[M.I(k + 1)])
            model.put(name, s.put(name, M.build(node)), node)
        outside = [p for p in tree(root) if p != "registry" and not p.startswith("registry/")]
        ctx.equal(outside, ["beside", "beside/1.json"], "what is beside the registry")
        inside = tree(os.path.join(root, "registry"))
        ctx.equal(sum("/" not in p for p in inside), len(set(names)), f"entries of the registry's directory {inside}")
        ctx.equal(open(os.path.join(root, "beside", "1.json")).read(), '"int32"', "a file beside the registry")
        model.verify(ctx, s, ["../beside", "..", "../../a"])


PROPERTY = Property("C28", [
    Facet("storage", histories(), check, rule="some name is not a plain word", quick=800, thorough=30000,
          examples=[[{"op": op, "name": n} for op in ("put", "get", "put", "versions")] for n in G.TRICKY] + LONG),
    Facet("requests", st.lists(targets(), min_size=1, max_size=4), check_requests, rule="some name is not a plain word", quick=400, thorough=10000),
    Facet("apart", confusable(), check_apart, rule="several names", quick=150, thorough=6000),
    Facet("disk", st.lists(hostile, min_size=1, max_size=5), check_disk, rule="some name is not a plain word", quick=200, thorough=5000,
          examples=[[o["name"] for o in ops[:2]] for ops in LONG]),
], assumptions=["names are not empty and short enough for a file name"])
