"""C26: The registry returns every schema exactly as stored."""
from hypothesis import strategies as st

from vlib import model as M, registry as G
from vlib.harness import Facet, Property

from recap.storage.registry import RegistryStorage

OPS = ["put", "put", "put", "put", "many", "at", "get", "version", "versions", "ls", "reopen", "spoil"]


@st.composite
def histories(draw, kinds=("memory", "memory", "file", "path")):
    pool = draw(st.lists(G.names, min_size=1, max_size=4, unique=True))
    ops = []
    for _ in range(draw(st.integers(2, 9))):
        op = {"op": draw(st.sampled_from(OPS)), "name": draw(st.sampled_from(pool))}
        if op["op"] in ("put", "at"):
            op["type"] = draw(G.types)
        if op["op"] == "many":
            op["n"] = draw(st.sampled_from([2, 9, 10, 11, 9, 10, 11, 102]))
        if op["op"] in ("at", "version"):
            op["version"] = draw(st.sampled_from([1, 2, 3, 9, 10, 11, 99, 100, 101, 2**31, 10**20]))
        ops.append(op)
    return {"kind": draw(st.sampled_from(kinds)), "tail": draw(st.sampled_from(["", "", "/"])), "ops": ops, "absent": draw(st.lists(G.names, max_size=2))}


def check(case, ctx):
    model = G.Model()
    stored = 0
    with G.places(case["kind"], case["tail"]) as (url, fs, root):
        storages = [RegistryStorage(url)]
        model.verify(ctx, storages[0], case["absent"], "at first: ")
        for i, op in enumerate(case["ops"]):
            name = op["name"]
            # every storage opened so far shows the same contents
            s = storages[i % len(storages)]
            have = model.types.get(name, {})
            if op["op"] == "put":
                got = s.put(name, M.build(op["type"]))
                ctx.equal(got, model.next(name), f"number of a new version of {name!r}")
                model.put(name, got, op["type"])
                stored += 1
            elif op["op"] == "many":
                for k in range(op["n"]):
                    node = M.N("struct", fields=[M.I(k + 1)], doc=str(k))
                    got = s.put(name, M.build(node))
                    ctx.equal(got, model.next(name), f"number of a new version of {name!r}")
                    model.put(name, got, node)
                stored += op["n"]
            elif op["op"] == "at" and op["version"] not in have:
                got = s.put(name, M.build(op["type"]), op["version"])
                ctx.equal(got, op["version"], "number of a version stored with a number")
                model.put(name, got, op["type"])
                stored += 1
            elif op["op"] == "get":
                got = s.get(name)
                if have:
                    G.same(ctx, got, have[max(have)], max(have), f"{name!r}")
                else:
                    ctx.equal(got, None, f"{name!r}, which was never stored")
            elif op["op"] == "version":
                got = s.get(name, op["version"])
                if op["version"] in have:
                    G.same(ctx, got, have[op["version"]], op["version"], f"version {op['version']} of {name!r}")
                else:
                    ctx.equal(got, None, f"version {op['version']} of {name!r}, which was never stored")
            elif op["op"] == "versions":
                ctx.equal(list(s.versions(name) or []), sorted(have), f"versions of {name!r}")
            elif op["op"] == "ls":
                ctx.equal(list(s.ls()), sorted(model.types), "names")
            elif op["op"] == "reopen":
                storages.append(RegistryStorage(url))
            elif op["op"] == "spoil" and have:
                # what was returned belongs to the caller
                rt, _ = s.get(name)
                rt.extra_attrs["spoiled"] = True
                rt.doc = "spoiled"
                vs = s.versions(name)
                vs.clear()
        ctx.interesting(stored >= 2)
        ctx.label("kind:" + case["kind"], f"names:{len(model.types)}", "ten versions" if any(len(v) > 9 for v in model.types.values()) else "few versions")
        for s in [*storages, RegistryStorage(url)]:
            model.verify(ctx, s, case["absent"])


# ---- every pair of tricky names

def pairs():
    n = len(G.TRICKY)
    return [{"names": G.TRICKY[k::8], "kind": kind} for kind in ("memory", "file") for k in range(8)] + [{"names": G.TRICKY, "kind": "file"}]


def check_pairs(case, ctx):
    """Names that are stored side by side never mix."""
    ctx.interesting()
    model = G.Model()
    with G.places(case["kind"]) as (url, fs, root):
        s = RegistryStorage(url)
        for i, name in enumerate(case["names"]):
            for k in range(i % 3 + 1):
                node = M.N("struct", fields=[M.I(k + 1), M.S(extra={"name": name})], doc=f"{i}.{k}")
                ctx.equal(s.put(name, M.build(node)), k + 1, f"number of a new version of {name!r}")
                model.put(name, k + 1, node)
            ctx.equal(sorted(s.ls()), sorted(model.types), f"names after {name!r} was stored")
        model.verify(ctx, s, [n for n in G.TRICKY if n not in case["names"]])


PROPERTY = Property("C26", [
    Facet("histories", histories(), check, rule="at least two versions are stored", quick=600, thorough=16000),
    Facet("names", None, check_pairs, rule="always", enumerate_all=pairs),
], assumptions=["names are not empty and short enough for a file name", "a version that exists is not stored again with the same number (C29)"])
