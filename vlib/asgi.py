"""HTTP requests made directly at the ASGI interface of an application."""
from __future__ import annotations

import asyncio
import json
from urllib.parse import quote, unquote


class Response:
    def __init__(self):
        self.status = None
        self.headers = {}
        self.body = b""
        self.error = None
        self.done = False

    def json(self):
        return json.loads(self.body)

    def __repr__(self):
        return f"<{self.status} {self.body[:300]!r}{' ' + repr(self.error) if self.error else ''}>"


def scope(method, target, headers=()):
    """`target` is percent-encoded, as in a request line."""
    raw_path, _, raw_query = target.partition("?")
    return {
        "type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1",
        "method": method, "scheme": "http", "path": unquote(raw_path), "raw_path": raw_path.encode("ascii"),
        "query_string": raw_query.encode("ascii"), "root_path": "",
        "headers": [(b"host", b"testserver"), *((k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers)],
        "client": ("127.0.0.1", 1), "server": ("testserver", 80), "state": {},
    }


async def exchange(app, sc, receive, response):
    async def send(message):
        if message["type"] == "http.response.start":
            response.status = message["status"]
            response.headers = {k.decode("latin-1").lower(): v.decode("latin-1") for k, v in message["headers"]}
        elif message["type"] == "http.response.body":
            response.body += message.get("body", b"")
    try:
        await app(sc, receive, send)
    except Exception as e:  # the server has answered 500 by then
        response.error = e
        if response.status is None:
            response.status = 500
    response.done = True
    return response


async def arequest(app, method, target, headers=(), body=b""):
    sent = False

    async def receive():
        nonlocal sent
        if sent:
            return {"type": "http.disconnect"}
        sent = True
        return {"type": "http.request", "body": body, "more_body": False}

    return await exchange(app, scope(method, target, headers), receive, Response())


def request(app, method, target, headers=(), body=b""):
    return asyncio.run(arequest(app, method, target, headers, body))


def segment(name):
    """One path segment that stands for `name`."""
    return quote(name, safe="")
