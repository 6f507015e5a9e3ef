"""Runs a function of this module in a process of its own.

For what the code under test reads from its environment when it is imported.
"""
from __future__ import annotations

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Crashed(Exception):
    pass


def environment(env):
    """The environment of this process with changes; None removes a variable."""
    full = {**os.environ, "PYTHONPATH": HERE, **env}
    return {k: v for k, v in full.items() if v is not None}


def run(function, payload, env, cwd=HERE):
    """(answer, None) or (None, what the process printed before it failed)"""
    p = subprocess.run(
        [sys.executable, "-B", "-m", "vlib.fresh", function],
        input=json.dumps(payload), capture_output=True, text=True, env=environment(env), cwd=cwd, timeout=100,
    )
    for line in p.stdout.splitlines():
        if line.startswith("ANSWER "):
            return json.loads(line[7:]), None
    return None, (p.stdout + p.stderr)[-3000:]


def _cli(args):
    from typer.testing import CliRunner

    from recap.cli import app

    r = CliRunner().invoke(app, args)
    return {"code": r.exit_code, "out": r.stdout}


def _gateway(target, headers=()):
    from recap.server.app import app

    from .asgi import request

    r = request(app, "GET", target, headers)
    if r.status in (301, 302, 307, 308):
        r = request(app, "GET", r.headers["location"].removeprefix("http://testserver"), headers)
    return {"status": r.status, "body": r.body.decode("utf-8", "replace")}


def listing(payload):
    """The root listing of every entry point."""
    from recap import commands
    from recap.settings import RecapSettings

    return {
        "settings": RecapSettings().safe_urls,
        "library": commands.ls(),
        "cli": _cli(["ls"]),
        "gateway": _gateway("/gateway/ls"),
    }


def parse(payload):
    """What becomes of requested URLs, given the configured ones."""
    from recap.clients import parse_url

    out = []
    for method, url, strict in payload:
        try:
            out.append({"url": parse_url(method, url, strict)[0]})
        except ValueError as e:
            out.append({"error": repr(e)})
    return out


def serve(payload):
    """What the gateway, the command line and the library answer."""
    from urllib.parse import quote

    from recap import commands

    out = []
    for method, url in payload:
        fn = getattr(commands, method)
        try:
            lib = {"value": fn(url)}
        except Exception as e:
            lib = {"error": repr(e)}
        out.append({
            "gateway": _gateway(f"/gateway/{method}/" + quote(url, safe="/:@!$&'()*+,;=")),
            "library": lib,
            "cli": _cli([method, url]),
        })
    return out


def requests(payload):
    """The answers of the HTTP application."""
    from recap.server.app import app

    from .asgi import request

    out = []
    for method, target, headers, body in payload:
        r = request(app, method, target, headers, bytes.fromhex(body))
        out.append({"status": r.status, "body": r.body.decode("utf-8", "replace"), "error": repr(r.error) if r.error else None})
    return out


def start(args, env, cwd=HERE):
    """The command line in a process of its own."""
    return subprocess.Popen([sys.executable, "-B", "-m", "vlib.fresh", "cli", *args], env=environment(env), cwd=cwd,
                            stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def files(payload):
    """The documents of schema files, read where the locale is whatever it is."""
    import locale

    from recap.clients.fs import FilesystemClient
    from recap.types import to_dict

    out = {"encoding": locale.getpreferredencoding(False), "files": []}
    for scheme, path in payload["read"]:
        try:
            if scheme == "memory":
                import fsspec

                fsspec.filesystem("memory").pipe_file(path, bytes.fromhex(payload["contents"]))
            out["files"].append({"doc": to_dict(FilesystemClient(scheme).schema(path))})
        except Exception as e:
            out["files"].append({"error": repr(e)})
    return out


if __name__ == "__main__":
    from .boot import boot

    boot()
    if sys.argv[1] == "cli":
        from recap.cli import app

        sys.argv = ["recap", *sys.argv[2:]]
        app()
    answer = globals()[sys.argv[1]](json.load(sys.stdin))
    print("\nANSWER " + json.dumps(answer))
