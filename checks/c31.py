"""C31: A failed store never damages or adds a version."""
import os
import shutil
import sys
import tempfile

from hypothesis import strategies as st

from vlib import model as M, registry as G
from vlib.faulty import ERRORS, Crash, FaultyFileSystem, Plan
from vlib.harness import Facet, Property, Violation

from recap.storage.registry import RegistryStorage

URL = "faulty:///data/registry"


@st.composite
def histories(draw):
    pool = draw(st.lists(G.names, min_size=1, max_size=3, unique=True))
    before = [{"name": draw(st.sampled_from(pool)), "type": draw(G.types)} for _ in range(draw(st.integers(0, 3)))]
    store = {"name": draw(st.sampled_from(pool)), "type": draw(G.types), "version": draw(st.sampled_from([None, None, None, 1, 2, 7]))}
    return {"before": before, "store": store, "error": draw(st.sampled_from(sorted(ERRORS))), "after": draw(G.types), "again": draw(st.booleans())}


def attempt(s, name, node, version):
    """The number that is acknowledged, or None"""
    try:
        return s.put(name, M.build(node), version)
    except (OSError, Crash):
        return None
    finally:
        Plan.dead = False


def acknowledge(ctx, model, name, asked, version, node, what):
    """A version without a number of its own is a new one."""
    highest = max(model.types.get(name, {0: None}))
    ctx.require(version == asked if asked is not None else version > highest,
                lambda: f"{what}: storing {name!r} as version {asked} is acknowledged as {version}; {highest} was there before")
    model.put(name, version, node)


def consistent(ctx, s, model, tried, what):
    """What was acknowledged is as it was; what else is there is what was tried."""
    names = set(s.ls())
    ctx.require(set(model.types) <= names, lambda: f"{what}: names {sorted(names)}, acknowledged were {sorted(model.types)}")
    extra = names - set(model.types)
    ctx.require(extra <= {n for n, _, _ in tried}, lambda: f"{what}: names nobody stored: {sorted(extra)}")
    for name in names:
        have = model.types.get(name, {})
        shown = s.versions(name) or []
        ctx.require(set(have) <= set(shown), lambda: f"{what}: versions of {name!r} are {shown}, acknowledged were {sorted(have)}")
        for v in shown:
            got = s.get(name, v)
            ok = [have[v]] if v in have else [t for n, w, t in tried if n == name and w in (v, None)]
            ctx.require(ok, lambda: f"{what}: version {v} of {name!r} was never stored")
            for node in ok:
                try:
                    G.same(ctx, got, node, v, f"{what}: version {v} of {name!r}")
                    break
                except Violation:
                    if node is ok[-1]:
                        raise
        got = s.get(name)
        ctx.require((got is None) == (not shown), lambda: f"{what}: {name!r} with versions {shown} is {got}")


def check(case, ctx):
    ctx.label("error:" + case["error"])
    at = 0
    while True:
        FaultyFileSystem.clear()
        s = RegistryStorage(URL)
        model = G.Model()
        for b in case["before"]:
            model.put(b["name"], s.put(b["name"], M.build(b["type"])), b["type"])
        name, node, version = (case["store"][k] for k in ("name", "type", "version"))
        tried = []
        for _ in range(2 if case["again"] else 1):
            Plan.arm(at, case["error"])
            v = attempt(s, name, node, version)
            fired = Plan.fired
            Plan.disarm()
            if v is None:
                tried.append((name, version, node))
            else:
                acknowledge(ctx, model, name, version, v, node, f"{case['error']} in operation {at} ({fired})")
            # as the same process sees it, and the next one
            for s2 in (s, RegistryStorage(URL)):
                consistent(ctx, s2, model, tried, f"{case['error']} in operation {at} ({fired})")
        if fired is None:
            break
        ctx.interesting()
        ctx.label("failed:" + fired.split()[0])
        # afterwards the registry works as ever
        highest = max(model.types.get(name, {0: 0}))
        v = s.put(name, M.build(case["after"]))
        ctx.require(v > highest, lambda: f"after operation {at} failed: a new version of {name!r} is number {v}, though {highest} was acknowledged")
        model.put(name, v, case["after"])
        consistent(ctx, RegistryStorage(URL), model, tried, f"{case['error']} in operation {at} ({fired}) and another store")
        # all of the first, then ever fewer of the many small writes there may be
        at += 1 if at < 40 else at // 8
        ctx.require(at < 1_000_000, "storing does not come to an end")


def system_call(frame, event, arg):
    return event == "c_call" and (arg.__module__ in ("posix", "_io", "fcntl") or type(getattr(arg, "__self__", None)).__module__ in ("posix", "_io"))


def put_in_child(url, name, node, version, at, error):
    """Stores in a process of its own, whose `at`-th call of the operating
    system fails: (what fails or None, the number acknowledged or None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            rt, s, n = M.build(node), RegistryStorage(url), 0

            def tick(frame, event, arg):
                nonlocal n
                if system_call(frame, event, arg):
                    n += 1
                    if n - 1 == at:
                        sys.setprofile(None)
                        os.write(w, f"failed {arg.__name__}\n".encode())
                        if error == "crash":
                            os._exit(0)
                        raise ERRORS[error]()

            sys.setprofile(tick)
            try:
                v = s.put(name, rt, version)
            except OSError:
                v = None
            finally:
                sys.setprofile(None)
            if v is not None:
                os.write(w, f"stored {v}\n".encode())
        except BaseException as e:
            os.write(w, f"raised {e!r}\n".encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as fh:
        lines = dict(line.split(" ", 1) for line in fh.read().splitlines())
    os.waitpid(pid, 0)
    if "raised" in lines:
        raise Violation(f"storing fails with {lines['raised']}")
    return lines.get("failed"), int(lines["stored"]) if "stored" in lines else None


def check_local(case, ctx):
    """The same on a directory of the operating system, at every call of it."""
    ctx.label("error:" + case["error"])
    at = 0
    while True:
        root = tempfile.mkdtemp(prefix="c31-", dir=os.environ.get("VERIF_WORK"))
        try:
            url = f"file://{root}/registry"
            s = RegistryStorage(url)
            model = G.Model()
            for b in case["before"]:
                model.put(b["name"], s.put(b["name"], M.build(b["type"])), b["type"])
            name, node, version = (case["store"][k] for k in ("name", "type", "version"))
            fired, v = put_in_child(url, name, node, version, at, case["error"])
            tried = []
            what = f"{case['error']} in call {at} of the operating system ({fired})"
            if v is None:
                tried.append((name, version, node))
            else:
                acknowledge(ctx, model, name, version, v, node, what)
            consistent(ctx, RegistryStorage(url), model, tried, what)
            if fired is None:
                ctx.require(v is not None, "storing fails though nothing failed")
                break
            ctx.interesting()
            ctx.label("failed:" + fired)
            highest = max(model.types.get(name, {0: 0}))
            v = s.put(name, M.build(case["after"]))
            ctx.require(v > highest, lambda: f"after {what}: a new version of {name!r} is number {v}, though {highest} was acknowledged")
            model.put(name, v, case["after"])
            consistent(ctx, RegistryStorage(url), model, tried, f"{what} and another store")
        finally:
            shutil.rmtree(root, ignore_errors=True)
        at += 1 if at < 60 else at // 8
        ctx.require(at < 1_000_000, "storing does not come to an end")


def check_unwritable(case, ctx):
    """A type that has no JSON form."""
    ctx.interesting()
    FaultyFileSystem.clear()
    s = RegistryStorage(URL)
    model = G.Model()
    for b in case["before"]:
        model.put(b["name"], s.put(b["name"], M.build(b["type"])), b["type"])
    rt = M.build(case["type"])
    odd = {"object": object(), "set": {1}, "bytes": b"x", "complex": 1j, "cycle": None}[case["odd"]]
    if odd is None:
        odd = []
        odd.append(odd)
    at = rt
    while getattr(at, "fields", None):
        at = at.fields[-1]
    at.extra_attrs["odd"] = odd
    try:
        v = s.put(case["name"], rt, case["version"])
    except Exception:
        consistent(ctx, s, model, [], f"storing {case['odd']}") if case["name"] in model.types else None
        names = set(s.ls())
        ctx.require(names - {case["name"]} == set(model.types) - {case["name"]}, lambda: f"names are {names}, stored were {list(model.types)}")
        for n in names:
            ctx.equal(list(s.versions(n) or []), sorted(model.types.get(n, {})), f"versions of {n!r} after a store failed")
    else:
        ctx.fail(f"a type with a {case['odd']} attribute was stored as version {v}")


@st.composite
def unwritable(draw):
    pool = draw(st.lists(G.names, min_size=1, max_size=2, unique=True))
    return {
        "before": [{"name": draw(st.sampled_from(pool)), "type": draw(G.types)} for _ in range(draw(st.integers(0, 2)))],
        "name": draw(st.sampled_from(pool)), "type": draw(G.small_nodes()), "version": draw(st.sampled_from([None, None, 1, 5])),
        "odd": draw(st.sampled_from(["object", "set", "bytes", "complex", "cycle"])),
    }


PROPERTY = Property("C31", [
    Facet("faults", histories(), check, rule="an operation of the store was made to fail (every one in turn)", quick=280, thorough=12000),
    Facet("local", histories(), check_local, rule="a call of the operating system was made to fail (every one in turn)", quick=60, thorough=2000),
    Facet("unwritable", unwritable(), check_unwritable, rule="always", quick=160, thorough=4000),
], level="fault_enumeration", assumptions=["a rename on the filesystem either happens or not", "a name may be listed although storing its first version failed"])
