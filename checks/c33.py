"""C33: The server keeps its registry where it is configured, across restarts."""
import http.client
import json
import os
import shutil
import signal
import socket
import tempfile
import time
from urllib.parse import quote

from hypothesis import strategies as st

from vlib import fresh, gen, registry as G, server as S
from vlib.asgi import segment
from vlib.boot import REPO
from vlib.harness import Facet, HarnessError, Property

DIRS = ["plain", "a b", "ünï", "日本", "a%20b", "a#b", "a?b", "a+b", "a&b=c", "%41", "a@b", "it's", "x y/z", "[x]", "a,b;c", "~", "A", "v1.2", ".hidden", "a.b c.d"]
names = G.names.filter(lambda n: "/" not in n and "\n" not in n)
# what stands for itself in a URL
PLAIN = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~/ üï日本+")


@st.composite
def locations(draw, dirs):
    kind = draw(st.sampled_from(["home", "home", "relative", "user", "url", "url", "url", "args", "args", "memory"]))
    c = {"kind": kind, "dir": draw(st.sampled_from(dirs))}
    if kind == "url":
        # somewhere else, or where Recap would keep it by default
        c["sub"] = draw(st.sampled_from(["store", "store", "schemas"]))
        c["raw"] = draw(st.booleans())
        c["slash"] = draw(st.booleans())
    if kind in ("url", "args", "memory"):
        c["source"] = draw(st.sampled_from(["environment", "environment", "secrets", "both"]))
    # a .env file, on its own or overruled by the environment
    c["dotenv"] = draw(st.sampled_from([None, None, None, "file", "both"]))
    if kind == "args":
        c["nested"] = draw(st.booleans())
        c["sub"] = draw(st.sampled_from(["in", "schemas"]))
    return c


def path(root, c):
    """Where the registry has to be."""
    d = os.path.join(root, c["dir"])
    if c["kind"] in ("home", "relative"):
        return os.path.join(d, "schemas")
    if c["kind"] == "user":
        return os.path.join(d, ".recap", "schemas")
    if c["kind"] == "memory":
        return None
    return os.path.join(d, c["sub"])


def environment(root, c):
    """Environment variables for a configuration."""
    env = {k: None for k in os.environ if k.upper().startswith("RECAP_")}
    d = os.path.join(root, c["dir"])
    os.makedirs(d, exist_ok=True)
    env["RECAP_HOME"] = os.path.join(root, "otherhome")
    values = {}
    if c["kind"] == "home":
        env["RECAP_HOME"] = d
    elif c["kind"] == "relative":
        env["RECAP_HOME"] = c["dir"]
    elif c["kind"] == "user":
        env["RECAP_HOME"], env["HOME"] = None, d
    elif c["kind"] == "url":
        p = path(root, c)
        raw = c["raw"] and set(p) <= PLAIN
        values["registry_storage_url"] = "file://" + (p if raw else quote(p)) + "/" * c["slash"]
    elif c["kind"] == "memory":
        values["registry_storage_url"] = "memory://c33"
    else:
        values["registry_storage_url"] = "dir://" + c["sub"]
        values["registry_storage_url_args"] = {"path": d, "target_protocol": "file"}
    if values:
        secrets = os.path.join(root, "secrets")
        shutil.rmtree(secrets, ignore_errors=True)
        if c["source"] != "environment":
            os.mkdir(secrets)
            env["RECAP_SECRETS"] = secrets
            # the environment comes first
            wrong = {"registry_storage_url": "file://" + quote(os.path.join(root, "wrong")), "registry_storage_url_args": {"auto_mkdir": True}}
            for k, v in values.items():
                v = v if c["source"] == "secrets" else wrong[k]
                with open(os.path.join(secrets, "recap_" + k), "w", encoding="utf-8") as fh:
                    fh.write(v if isinstance(v, str) else json.dumps(v))
        if c["source"] != "secrets":
            for k, v in values.items():
                if isinstance(v, str):
                    env["RECAP_" + k.upper()] = v
                elif c["nested"] and c["source"] == "environment":
                    env.update({f"RECAP_{k.upper()}__{a}": b for a, b in v.items()})
                else:
                    env["RECAP_" + k.upper()] = json.dumps(v)
    file = os.path.join(root, ".env")
    if os.path.exists(file):
        os.remove(file)
    if c.get("dotenv"):
        # it is looked for next to the package and above
        if not os.path.exists(os.path.join(root, "recap")):
            shutil.copytree(os.path.join(REPO, "recap"), os.path.join(root, "recap"), ignore=shutil.ignore_patterns("__pycache__"))
        env["VERIF_REPO"] = root
        mine = {k: v for k, v in env.items() if k.startswith("RECAP_") and v is not None}
        if c["dotenv"] == "file":
            env.update({k: None for k in mine})
        else:
            mine = {k: "file://" + quote(os.path.join(root, "wrong")) if k.endswith("URL") else os.path.join(root, "wrong") if k in ("RECAP_HOME", "RECAP_SECRETS") else v
                    for k, v in mine.items()}
        with open(file, "w", encoding="utf-8") as fh:
            for k, v in mine.items():
                v = v.replace("\\", "\\\\").replace("'", "\\'")
                fh.write(f"{k}='{v}'\n")
    return env


@st.composite
def sessions(draw, served):
    dirs = draw(st.lists(st.sampled_from(DIRS), min_size=1, max_size=2, unique=True))
    configs = draw(st.lists(locations(dirs), min_size=1, max_size=3))
    pool = draw(st.lists(names, min_size=1, max_size=2, unique=True))
    out = []
    for _ in range(draw(st.integers(2, 3))):
        ops = []
        for _ in range(draw(st.integers(0, 3))):
            case = draw(gen.sugared(G.types))
            ops.append({"name": draw(st.sampled_from(pool)), "version": draw(st.sampled_from([None, None, 1, 2, 7])), "doc": case["doc"], "node": case["node"]})
        s = {"config": draw(st.integers(0, len(configs) - 1)), "ops": ops}
        if served:
            s["host"] = draw(st.sampled_from([None, "own", "own"]))
            s["kill"] = draw(st.booleans())
        out.append(s)
    return {"configs": configs, "sessions": out}


def script(model, ops):
    """Requests with the statuses and the meaning of their answers."""
    out = []

    def look():
        out.append(("GET", "/registry/", b"", 200, ("names", sorted(model.types))))
        for name, versions in model.types.items():
            at = f"/registry/{segment(name)}"
            out.append(("GET", at + "/versions", b"", 200, ("is", sorted(versions))))
            for v, node in versions.items():
                out.append(("GET", f"{at}/versions/{v}", b"", 200, ("type", v, node)))
            out.append(("GET", at, b"", 200, ("type", max(versions), versions[max(versions)])))

    look()
    for op in ops:
        at = f"/registry/{segment(op['name'])}"
        body = json.dumps(op["doc"]).encode()
        v = op["version"] or model.next(op["name"])
        have = v in model.types.get(op["name"], {})
        out.append(("POST" if op["version"] is None else "PUT", at if op["version"] is None else f"{at}/versions/{v}", body, 409 if have else 200, None if have else ("is", v)))
        if not have:
            model.put(op["name"], v, op["node"])
    look()
    return out


def judge(ctx, steps, answers, what):
    for (method, target, body, status, meaning), a in zip(steps, answers):
        at = f"{what}: {method} {target}"
        ctx.equal(a["status"], status, f"{at}: {a}: status")
        if meaning is None:
            continue
        got = json.loads(a["body"])
        if meaning[0] == "names":
            ctx.equal(sorted(got), meaning[1], f"{at}: names")
        elif meaning[0] == "is":
            ctx.equal(got, meaning[1], f"{at}: answer")
        else:
            ctx.equal(got[1], meaning[1], f"{at}: version")
            S.means(ctx, got[0], meaning[2], at)


def snapshot(root):
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


HEADERS = [("content-type", S.RECAP)]


def in_process(ctx, steps, env, root, session, what):
    answers, err = fresh.run("requests", [[m, t, HEADERS if b else [], b.hex()] for m, t, b, _, _ in steps], env, root)
    ctx.require(answers is not None, lambda: f"{what}: the application does not start: {err}")
    return answers


def own_address():
    n = os.getpid()
    return f"127.{1 + n // 62500 % 250}.{1 + n // 250 % 250}.{1 + n % 250}"


def free_port(host):
    with socket.socket() as s:
        s.bind((host, 0))
        return s.getsockname()[1]


def listens(host, port):
    with socket.socket() as s:
        s.settimeout(5)
        return s.connect_ex((host, port)) == 0


# A case has 60 s. Servers take less than 2 s on an idle machine.
START_LIMIT = [45]


def serve(ctx, args, host, port, env, root, what):
    """A running server, or None if the port is taken."""
    p = fresh.start(["serve", *args], env, root)
    end = time.time() + START_LIMIT[-1]
    while time.time() < end:
        if p.poll() is not None:
            text = p.stdout.read()
            if "address already in use" in text:
                return None
            ctx.fail(f"{what}: recap serve {' '.join(args)} ends: {text[-2000:]}")
        if listens(host, port):
            return p
        time.sleep(0.05)
    p.kill()
    text = p.communicate()[0]
    if "running on" in text:
        # do not wait as long again while the failure is made smaller
        START_LIMIT.append(10)
        ctx.fail(f"{what}: recap serve {' '.join(args)} does not listen on {host}:{port}: {text[-2000:]}")
    raise HarnessError(f"the server did not start within {START_LIMIT[-1]} s: {text[-2000:]}")


def stop(p, kill):
    p.send_signal(signal.SIGKILL if kill else signal.SIGTERM)
    try:
        p.communicate(timeout=30)
    except Exception:
        p.kill()
        p.communicate()


def over_http(ctx, steps, env, root, session, what):
    own = own_address()
    host = own if session["host"] == "own" else "127.0.0.1"
    p = None
    for _ in range(10):
        port = free_port(host)
        args = ["--port", str(port), "--log-level", "info"] + (["--host", host] if session["host"] else [])
        p = serve(ctx, args, host, port, env, root, what)
        if p is not None:
            break
    else:
        raise HarnessError("no free port")
    try:
        ctx.require(host == own or not listens(own, port), lambda: f"{what}: recap serve {' '.join(args)} listens on {own}, too")
        answers = []
        for m, t, b, _, _ in steps:
            c = http.client.HTTPConnection(host, port, timeout=30)
            c.request(m, t, body=b, headers=dict(HEADERS if b else []))
            r = c.getresponse()
            answers.append({"status": r.status, "body": r.read().decode("utf-8", "replace")})
            c.close()
        return answers
    finally:
        stop(p, session["kill"])


def check_with(run):
    def check(case, ctx):
        models = {}
        root = os.path.realpath(tempfile.mkdtemp(prefix="c33-", dir=os.environ.get("VERIF_WORK")))
        try:
            os.mkdir(os.path.join(root, "otherhome"))
            stored = False
            for i, s in enumerate(case["sessions"]):
                c = case["configs"][s["config"]]
                what = f"session {i + 1} with {c}"
                ctx.label("kind:" + c["kind"], *([".env:" + c["dotenv"]] if c.get("dotenv") else []))
                env = environment(root, c)
                at = path(root, c)
                model = G.Model() if at is None else models.setdefault(at, G.Model())
                ctx.interesting(stored)
                steps = script(model, s["ops"])
                before = snapshot(root)
                judge(ctx, steps, run(ctx, steps, env, root, s, what), what)
                after = snapshot(root)
                for p in sorted(before.keys() | after.keys()):
                    if before.get(p) != after.get(p):
                        ctx.require(at is not None and p.startswith(at + os.sep), lambda: f"{what}: {os.path.relpath(p, root)} was written, the registry is {at and os.path.relpath(at, root)}")
                if at is not None and model.types:
                    ctx.require(any(p.startswith(at + os.sep) for p in after), lambda: f"{what}: nothing is stored in {os.path.relpath(at, root)}")
                    stored = True
        finally:
            shutil.rmtree(root, ignore_errors=True)
    return check


def every_place():
    """Each way to configure a location, with each directory."""
    out = []
    op = {"name": "a b", "version": None, "doc": {"type": "int32"}, "node": G.M.BUILTINS["int32"]}
    op2 = {"name": "t", "version": 3, "doc": {"type": "string32"}, "node": G.M.BUILTINS["string32"]}
    for i, d in enumerate(DIRS):
        ways = [{"kind": k, "dir": d} for k in ("home", "relative", "user")]
        ways += [{"kind": "url", "dir": d, "sub": ("store", "schemas")[(i + k) % 2], "raw": bool(k % 2), "slash": bool(k % 3 == 0), "source": s}
                 for k, s in enumerate(("environment", "secrets", "both", "environment"))]
        ways += [{"kind": "args", "dir": d, "sub": "in", "source": s, "nested": n} for s, n in (("environment", False), ("environment", True), ("secrets", False), ("both", False))]
        for j, w in enumerate(ways):
            w["dotenv"] = [None, "file", None, "both"][(i + j) % 4]
        k = i % len(ways)
        for j in range(3):
            a, b = ways[(k + j * 4) % len(ways)], ways[(k + j * 4 + 5) % len(ways)]
            out.append({"configs": [a, b], "sessions": [{"config": 0, "ops": [op, op2]}, {"config": 1, "ops": [op2]}, {"config": 0, "ops": [op]}]})
    return out


def default_address(case, ctx):
    """Without options, it is 127.0.0.1:8000."""
    ctx.interesting()
    if listens("127.0.0.1", 8000):
        return
    root = os.path.realpath(tempfile.mkdtemp(prefix="c33-", dir=os.environ.get("VERIF_WORK")))
    try:
        c = {"kind": "home", "dir": "plain"}
        p = serve(ctx, [], "127.0.0.1", 8000, environment(root, c), root, "without options")
        if p is None:
            return
        try:
            ctx.require(not listens(own_address(), 8000), "recap serve listens on every address")
        finally:
            stop(p, True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


PROPERTY = Property("C33", [
    Facet("configurations", sessions(False), check_with(in_process), rule="an earlier server has stored something", quick=40, thorough=700),
    Facet("places", None, check_with(in_process), rule="an earlier server has stored something", enumerate_all=every_place),
    Facet("served", sessions(True), check_with(over_http), rule="an earlier server has stored something", quick=12, thorough=200),
    Facet("default address", None, default_address, rule="always", examples=[{}]),
], assumptions=["the directory that contains Recap's home exists", "locations are not inside one another"])
