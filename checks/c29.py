"""C29: A stored version never changes, however requests interleave."""
import asyncio
import json
import threading
import time

from hypothesis import strategies as st

from vlib import asgi, server as S
from vlib.asgi import segment
from vlib.harness import Facet, Property
from vlib.stubs import memory

import fsspec
from fsspec.implementations.memory import MemoryFileSystem


class SlowFileSystem(MemoryFileSystem):
    """Takes its time if the server works on several requests at once."""

    protocol = "slow"
    store: dict = {}
    pseudo_dirs = [""]

    @classmethod
    def _strip_protocol(cls, path):
        path = path.removeprefix("slow://")
        return "/" + path.strip("/") if path.strip("/") else ""

    @staticmethod
    def _pause():
        if threading.current_thread() is not threading.main_thread():
            time.sleep(0.003)

    def open(self, *a, **kw):
        self._pause()
        f = super().open(*a, **kw)
        self._pause()
        return f

    def ls(self, *a, **kw):
        r = super().ls(*a, **kw)
        self._pause()
        return r

    def exists(self, *a, **kw):
        r = super().exists(*a, **kw)
        self._pause()
        return r

    def mv(self, *a, **kw):
        self._pause()
        return super().mv(*a, **kw)


fsspec.register_implementation("slow", SlowFileSystem, clobber=True)

NAMES = ["a", "b", "a b"]


@st.composite
def schedules(draw):
    names = draw(st.sampled_from([["a"], ["a"], ["a", "a b"], ["a", "b"]]))
    requests = []
    for i in range(draw(st.integers(2, 5))):
        r = {"op": draw(st.sampled_from(["put", "put", "put", "post"])), "name": draw(st.sampled_from(names)), "body": draw(st.sampled_from(["ok", "ok", "ok", "ok", "bad"]))}
        if r["op"] == "put":
            r["version"] = draw(st.sampled_from([1, 1, 1, 2, 2, 3, 10]))
        r["chunks"] = draw(st.integers(1, 3))
        requests.append(r)
    # which request goes on at each step: it arrives, or another part of its body does
    steps = draw(st.lists(st.tuples(st.integers(0, len(requests) - 1), st.sampled_from(["go", "go", "go", "go", "go", "read", "drop"])), max_size=14))
    # several of them at once, rather than one after another
    burst = draw(st.booleans())
    return {"before": draw(st.integers(0, 2)), "requests": requests, "steps": [list(s) for s in steps], "burst": burst, "fs": draw(st.sampled_from(["memory", "slow"]))}


class Live:
    def __init__(self, k, r):
        self.k, self.r = k, r
        body = json.dumps({"type": "struct", "doc": f"request {k}", "fields": [{"type": "int32", "name": f"f{k}"}]}) if r["body"] == "ok" else '{"type": "int"}'
        body = body.encode()
        n = max(1, len(body) // r["chunks"])
        self.parts = [body[i: i + n] for i in range(0, len(body), n)]
        self.queue = asyncio.Queue()
        self.waiting = False
        self.dropped = False
        self.task = None
        self.response = asgi.Response()

    async def receive(self):
        self.waiting = True
        m = await self.queue.get()
        self.waiting = False
        return m

    def start(self, app):
        target = f"/registry/{segment(self.r['name'])}"
        if self.r["op"] == "put":
            target += f"/versions/{self.r['version']}"
        sc = asgi.scope("POST" if self.r["op"] == "post" else "PUT", target, [("content-type", S.RECAP)])
        self.task = asyncio.ensure_future(asgi.exchange(app, sc, self.receive, self.response))

    def go(self):
        if self.parts and not self.dropped:
            part = self.parts.pop(0)
            self.queue.put_nowait({"type": "http.request", "body": part, "more_body": bool(self.parts)})
            if not self.parts:
                self.queue.put_nowait({"type": "http.disconnect"})

    def drop(self):
        if self.parts and not self.dropped:
            self.dropped = True
            self.queue.put_nowait({"type": "http.disconnect"})

    def quiet(self):
        return self.task is None or self.response.done or (self.waiting and self.queue.empty())


async def settle(lives):
    """Until every request waits for more of its body, or for another request."""
    state = lambda: [(x.waiting, x.queue.qsize(), x.response.done) for x in lives]  # noqa: E731
    seen, end = None, 0
    while seen != (now := state()) or time.time() < end:
        if seen != now:
            seen, end = now, time.time() + 0.4
        for _ in range(3):
            await asyncio.sleep(0)
        if all(x.quiet() for x in lives):
            return
        await asyncio.sleep(0.0002)


async def history(case, ctx, app):
    acked = {}

    async def read(what):
        for (name, v), k in acked.items():
            r = await asgi.arequest(app, "GET", f"/registry/{segment(name)}/versions/{v}")
            ctx.equal(r.status, 200, f"{what}: status of version {v} of {name!r}, which is stored,")
            ctx.equal(r.json()[0].get("doc"), f"request {k}", f"{what}: contents of version {v} of {name!r}")

    def note():
        """Requests that have been answered since the last time."""
        for x in lives:
            if x.response.done and x not in done:
                done.append(x)
                name = x.r["name"]
                if x.response.status == 200:
                    ctx.require(x.r["body"] == "ok" and not x.dropped, lambda: f"request {x.k} is acknowledged, but was not complete and valid")
                    v = x.response.json()
                    if x.r["op"] == "put":
                        ctx.equal(v, x.r["version"], f"version acknowledged to request {x.k}")
                    ctx.require((name, v) not in acked, lambda: f"version {v} of {name!r} is acknowledged to requests {acked[name, v]} and {x.k}")
                    acked[name, v] = x.k
                elif x.dropped:
                    pass
                elif x.r["body"] == "bad":
                    ctx.require(x.response.status in (400, 409), lambda: f"request {x.k} with an invalid type is answered {x.response!r}")
                else:
                    ctx.require(x.r["op"] == "put" and x.response.status == 409, lambda: f"request {x.k} is answered {x.response!r}")
                    refused.append(x)

    for k in range(case["before"]):
        r = await asgi.arequest(app, "POST", "/registry/a", [("content-type", S.RECAP)], json.dumps({"type": "struct", "doc": f"request before {k}"}).encode())
        acked["a", r.json()] = f"before {k}"
    lives, done, refused = [Live(k, r) for k, r in enumerate(case["requests"])], [], []
    overlap = 0
    for k, what in case["steps"]:
        x = lives[k]
        if x.task is None:
            x.start(app)
        elif what == "drop":
            x.drop()
        else:
            x.go()
        if not case["burst"]:
            await settle(lives)
            note()
        if what == "read":
            await settle(lives)
            note()
            await read(f"after {case['steps']}")
        overlap = max(overlap, sum(x.task is not None and not x.response.done for x in lives))
    # now everything arrives
    for x in lives:
        if x.task is None:
            x.start(app)
        while x.parts and not x.dropped:
            x.go()
            if not case["burst"]:
                await settle(lives)
                note()
    await settle(lives)
    await asyncio.gather(*(x.task for x in lives))
    note()
    ctx.interesting(overlap >= 2)
    ctx.label(f"overlap:{overlap}", f"refused:{len(refused)}")
    # whoever was refused was refused because of a version that is there
    for x in refused:
        ctx.require((x.r["name"], x.r["version"]) in acked, lambda: f"request {x.k} was refused, but version {x.r['version']} of {x.r['name']!r} was never acknowledged")
    await read("in the end")
    for name in {n for n, _ in acked}:
        r = await asgi.arequest(app, "GET", f"/registry/{segment(name)}/versions")
        ctx.equal(r.json(), sorted(v for n, v in acked if n == name), f"versions of {name!r}")
    r = await asgi.arequest(app, "GET", "/registry/")
    ctx.equal(sorted(r.json()), sorted({n for n, _ in acked}), "names")


def check(case, ctx):
    from pydantic import AnyUrl

    from recap.server import registry as R
    from recap.server.app import app

    before = R.settings.registry_storage_url
    SlowFileSystem.store.clear()
    SlowFileSystem.pseudo_dirs[:] = [""]
    with memory() as (_, root):
        R.settings.registry_storage_url = AnyUrl(f"{case['fs']}://{root}/registry")
        try:
            S.run(history(case, ctx, app))
        finally:
            R.settings.registry_storage_url = before


def two_requests():
    """Every order in which two requests arrive whose bodies come in two parts."""
    import itertools

    out = []
    for a, b in (("put", "put"), ("put", "post"), ("post", "put"), ("post", "post")):
        rs = [{"op": o, "name": "a", "body": "ok", "chunks": 2, **({"version": 1} if o == "put" else {})} for o in (a, b)]
        for order in sorted(set(itertools.permutations([0, 0, 0, 0, 1, 1, 1, 1]))):
            for burst in (False, True):
                out.append({"before": 0, "requests": rs, "steps": [[k, "go"] for k in order], "burst": burst, "fs": "memory"})
    return out


PROPERTY = Property("C29", [
    Facet("schedules", schedules(), check, rule="at least two requests are under way at the same time", quick=240, thorough=6000),
    Facet("two requests", None, check, rule="at least two requests are under way at the same time", enumerate_all=two_requests),
], level="exploration", assumptions=["one server process, as recap serve starts it"])
