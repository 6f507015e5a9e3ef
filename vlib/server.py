"""The HTTP application over a scratch registry, and a model of its answers."""
from __future__ import annotations

import asyncio
import contextlib
import json

from . import asgi, model as M, registry as G
from .asgi import segment

RECAP = "application/x-recap+json"


@contextlib.contextmanager
def registry(kind):
    from pydantic import AnyUrl

    from recap.server import registry as R
    from recap.server.app import app

    before = R.settings.registry_storage_url
    with G.places(kind) as (url, fs, root):
        # as the repository's own tests do
        R.settings.registry_storage_url = AnyUrl(url)
        try:
            yield app
        finally:
            R.settings.registry_storage_url = before


def payload(body):
    """bytes of a generated body"""
    if "hex" in body:
        return bytes.fromhex(body["hex"])
    if "text" in body:
        return body["text"].encode("utf-8", "surrogatepass")
    return json.dumps(body["doc"], ensure_ascii=body.get("ascii", True)).encode()


def means(ctx, doc, node, what):
    """A document in an answer means the type."""
    from recap.types import from_dict

    rt = from_dict(doc)
    d = M.diff(M.observe(rt), node, M.definitions(node))
    ctx.require(d is None, lambda: f"{what} is answered with another type: {d}\n{doc}")


def parse(ctx, r, what):
    def no(x):
        raise ValueError(x)

    try:
        return json.loads(r.body.decode("utf-8"), parse_constant=no)
    except ValueError as e:
        ctx.fail(f"{what}: the answer is not JSON: {r!r} {e}")


async def show(ctx, app, model, absent=()):
    """Everything the interface shows is what the model holds."""
    r = await asgi.arequest(app, "GET", "/registry/")
    ctx.equal(r.status, 200, "status of the list of names")
    ctx.equal(sorted(parse(ctx, r, "names")), sorted(model.types), "names")
    for name, versions in model.types.items():
        at = f"/registry/{segment(name)}"
        r = await asgi.arequest(app, "GET", at + "/versions")
        ctx.equal(r.status, 200, f"status of the versions of {name!r}")
        ctx.equal(parse(ctx, r, "versions"), sorted(versions), f"versions of {name!r}")
        for v, node in [*versions.items(), (None, versions[max(versions)])]:
            what = f"{name!r}" if v is None else f"version {v} of {name!r}"
            r = await asgi.arequest(app, "GET", at if v is None else f"{at}/versions/{v}")
            ctx.equal(r.status, 200, f"status of {what}")
            got = parse(ctx, r, what)
            ctx.require(isinstance(got, list) and len(got) == 2, lambda: f"{what} is answered with {got}")
            ctx.equal(got[1], max(versions) if v is None else v, f"number of {what}")
            means(ctx, got[0], node, what)
    for name in absent:
        if name not in model.types:
            for tail in ("", "/versions", "/versions/1"):
                r = await asgi.arequest(app, "GET", f"/registry/{segment(name)}{tail}")
                ctx.equal(r.status, 404, f"status of {name + tail!r}, which was never stored")


run = asyncio.run
