"""C25: Secrets are added only for the configured system and path."""
import json
import os
import shutil
import tempfile
from urllib.parse import parse_qs, quote, unquote, urlsplit

from hypothesis import strategies as st

from vlib import fresh, urls as U
from vlib.harness import Facet, Property, call

from recap.settings import RecapSettings

SCHEMES = ["postgresql", "mysql", "snowflake", "http+csr", "thrift+hms", "http", "https", "redshift"]
IMPLIED = {"http": 80, "https": 443}
HOSTS = ["localhost", "db.example.com", "db.example.com.evil.org", "example.com", "10.0.0.7", "10.0.0.70", "[::1]", "[2001:db8::7]", "xdb.example.com", "h"]
PORTS = [None, 1, 5432, 5433, 54321, 9083, 8081]
SEGMENTS = ["a", "b", "ab", "abc", "a.b", "a-b", "public", "public2", "A", "x_y", "..a", "a.."]
segments = st.one_of(st.sampled_from(SEGMENTS), st.text(alphabet="ab.-_~1", min_size=1, max_size=4).filter(lambda s: s.strip(".")))
keys = st.sampled_from(["role", "warehouse", "account", "x"])
# options with which a driver talks to another system than the one in the URL
REDIRECTS = ["hostaddr", "unix_socket", "proxy_host", "host", "port", "region"]
values = st.sampled_from(["v", "w", "a b", "x@y", "", "SECRETq"])


@st.composite
def options(draw, values, min_size=0):
    """Options, some of them with several values."""
    out = []
    for k in draw(st.lists(keys, min_size=min_size, max_size=2, unique=True)):
        out += [(k, v) for v in draw(st.lists(values, min_size=1, max_size=draw(st.sampled_from([1, 1, 3]))))]
    return out


@st.composite
def configured(draw, n):
    scheme = draw(st.sampled_from(SCHEMES))
    u = {
        "scheme": scheme, "host": draw(st.sampled_from(HOSTS)), "port": draw(st.sampled_from(PORTS)),
        "path": draw(st.lists(segments, max_size=3)), "tail": draw(st.sampled_from(["", "", "/"])),
        "user": None, "password": None,
        "query": draw(options(values)),
        "fragment": draw(st.sampled_from(["", "", "", f"SECRETf{n}"])),
    }
    form = draw(st.sampled_from(["none", "user", "both", "both", "both"]))
    extra = draw(st.sampled_from(["", "", "@", ":", "/", "é", "%", "?"]))
    if form != "none":
        u["user"] = f"SECRETu{n}" + extra
    if form == "both":
        u["password"] = extra + f"SECRETp{n}"
    return u


def text(u):
    cred = ""
    if u.get("user") is not None:
        cred = quote(u["user"], safe="")
        if u["password"] is not None:
            cred += ":" + quote(u["password"], safe="")
        cred += "@"
    port = f":{u['port']}" if u["port"] is not None else ""
    s = f"{u['scheme']}://{cred}{u['host']}{port}" + "".join("/" + p for p in u["path"]) + u["tail"]
    if u["query"]:
        s += "?" + U.query(u["query"])
    if u["fragment"]:
        s += "#" + u["fragment"]
    return s


@st.composite
def requested(draw, us):
    """A URL like a configured one, but for one or two differences."""
    base = draw(st.sampled_from(us))
    r = {k: base[k] for k in ("scheme", "host", "port")}
    r["path"], r["query"], r["fragment"] = list(base["path"]), [], ""
    r["tail"] = draw(st.sampled_from(["", "", "/"]))
    r["user"] = r["password"] = None
    for _ in range(draw(st.integers(0, 2))):
        how = draw(st.sampled_from(["scheme", "host", "port", "below", "below", "sibling", "prefix", "parent", "other", "dotdot", "case", "query", "query", "redirect", "fragment", "user", "user"]))
        if how == "scheme":
            r["scheme"] = draw(st.sampled_from(SCHEMES))
        elif how == "host":
            r["host"] = draw(st.sampled_from(HOSTS))
        elif how == "port":
            r["port"] = draw(st.sampled_from(PORTS))
        elif how == "below":
            r["path"] += draw(st.lists(segments, min_size=1, max_size=2))
        elif how == "sibling" and r["path"]:
            r["path"][-1] = draw(segments)
        elif how == "prefix" and r["path"]:
            r["path"][-1] += draw(st.sampled_from(["2", "b", "-x", ".a", "_"]))
        elif how == "parent" and r["path"]:
            r["path"].pop()
        elif how == "other":
            r["path"] = draw(st.lists(segments, max_size=3))
        elif how == "dotdot":
            r["path"] += [".."] * draw(st.integers(1, 3)) + draw(st.lists(segments, max_size=2))
        elif how == "case" and r["path"]:
            r["path"][-1] = r["path"][-1].swapcase()
        elif how == "query":
            r["query"] = draw(options(st.sampled_from(["mine", "", "a b", "é", "x&y"]), 1))
        elif how == "redirect":
            r["query"] = [*r["query"], [draw(st.sampled_from(REDIRECTS)), draw(st.sampled_from(["6.6.6.6", "", "evil.example.com"]))]]
        elif how == "fragment":
            r["fragment"] = "mine"
        elif how == "user":
            r["user"], r["password"] = draw(st.sampled_from(["me", "m@e"])), draw(st.sampled_from([None, "mine", "a:/@b"]))
    return r


def covers(u, r):
    return (
        all(u[k] == r[k] for k in ("scheme", "host", "port"))
        and r["path"][: len(u["path"])] == u["path"]
        and ".." not in r["path"]
        and not any(k in REDIRECTS for k, _ in r["query"])
    )


def parts(url):
    p = urlsplit(url)
    cred, _, system = p.netloc.rpartition("@")
    user, has, password = cred.partition(":")
    return {
        "scheme": p.scheme, "system": system, "path": p.path.rstrip("/"),
        "user": unquote(user) or None, "password": unquote(password) if has else None,
        "query": {k: v for k, v in parse_qs(p.query, keep_blank_values=True).items()}, "fragment": p.fragment,
    }


def lists(query):
    out = {}
    for k, v in query:
        out.setdefault(k, []).append(v)
    return out


def merged(u, r):
    return {
        "scheme": r["scheme"], "system": r["host"] + (f":{r['port']}" if r["port"] is not None else ""),
        "path": "".join("/" + p for p in r["path"]), **{k: (u if u["user"] is not None else r)[k] for k in ("user", "password")},
        "query": {**lists(u["query"]), **lists(r["query"])}, "fragment": r["fragment"] or u["fragment"],
    }


@st.composite
def cases(draw, requests=1):
    us = [draw(configured(i)) for i in range(draw(st.integers(1, 3)))]
    return {"configured": us, "requested": [draw(requested(us)) for _ in range(draw(st.integers(1, requests)))]}


def verify(ctx, us, r, strict, got, err, passed_on):
    url = text(r)
    wants = [merged(u, r) for u in us if covers(u, r)]
    what = f"{url} ({'strict' if strict else 'not strict'}, configured: {[text(u) for u in us]})"
    ctx.label("covered" if wants else "not covered")
    near = any(u["host"] == r["host"] or u["path"] == r["path"] for u in us)
    ctx.interesting(near and any(u["user"] for u in us))
    if wants:
        ctx.require(err is None, lambda: f"{what} is configured, but refused: {err!r}")
        ctx.require(parts(got) in wants, lambda: f"{what} became {got}: {parts(got)}, want {wants}")
    elif strict:
        ctx.require(err is not None, lambda: f"{what} is not configured, but became {got}")
    else:
        ctx.require(err is None, lambda: f"{what} is refused: {err!r}")
        ctx.equal(got, passed_on, f"{what} is not configured")


def check(case, ctx):
    settings = RecapSettings(urls=[text(u) for u in case["configured"]])
    for r in case["requested"]:
        for strict in (True, False):
            got, err = call(settings.unsafe_url, text(r), strict)
            ctx.require(err is None or isinstance(err, ValueError), lambda: f"{text(r)}: {err!r}")
            verify(ctx, case["configured"], r, strict, got, err, text(r))
        got, err = call(settings.unsafe_url, text(r))
        verify(ctx, case["configured"], r, True, got, err, text(r))


# ---- the same through the commands' own URL handling, for a database

@st.composite
def databases(draw):
    us = []
    for i in range(draw(st.integers(1, 3))):
        u = draw(configured(i))
        u["scheme"] = draw(st.sampled_from(["postgresql", "mysql"]))
        u["query"], u["fragment"] = [], ""
        u["path"] = u["path"][:1]
        us.append(u)
    rs = []
    for _ in range(draw(st.integers(1, 12))):
        r = draw(requested(us))
        r["query"], r["fragment"] = [], ""
        r["path"] = (r["path"] + ["p", "q", "t"])[: 2 if r["scheme"] == "mysql" else 3]
        if ".." not in r["path"] and r["scheme"] in ("postgresql", "mysql"):
            rs.append(r)
    return {"configured": us, "requested": rs}


def check_parse(case, ctx):
    us = case["configured"]
    todo = [("schema", text(r), strict) for r in case["requested"] for strict in (True, False)]
    ans, err = fresh.run("parse", todo, {"RECAP_URLS": json.dumps([text(u) for u in us])})
    ctx.require(ans is not None, lambda: f"fails: {err}")
    for r, (strict, a) in zip([r for r in case["requested"] for _ in (1, 2)], zip([True, False] * len(todo), ans)):
        # what is connected to is the database, in the first part of the path
        db = dict(r, path=r["path"][:1], tail="")
        verify(ctx, us, db, strict, a.get("url"), a.get("error"), text(db))


# ---- files served by the gateway: nothing outside the configured directories

DIRS = ["a", "ab", "a/b", "b", "a.b", "A"]


@st.composite
def served(draw):
    allowed = draw(st.lists(st.sampled_from(DIRS), min_size=1, max_size=2, unique=True))
    paths = draw(st.lists(st.one_of(
        st.sampled_from(DIRS), st.just(""),
        st.builds("{}/../{}".format, st.sampled_from(DIRS), st.sampled_from(DIRS)),
        st.builds("{}/{}".format, st.sampled_from(DIRS), st.sampled_from(["..", "../..", "b/..", "b/../.."])),
    ), min_size=1, max_size=8))
    if draw(st.integers(0, 3)) == 0:
        allowed.append("/")
    return {"allowed": allowed, "paths": paths, "scheme": draw(st.sampled_from(["file://", "file://", "", "file:", "FILE://"])), "tail": draw(st.sampled_from(["", "/"]))}


def check_served(case, ctx):
    root = tempfile.mkdtemp(prefix="c25-", dir=os.environ.get("VERIF_WORK"))
    try:
        for d in ["", *DIRS]:
            p = os.path.join(root, d)
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, "s.json"), "w") as fh:
                json.dump({"type": "object", "description": f"in:{d}", "properties": {"x": {"type": "string"}}}, fh)
        scheme = case.get("scheme", "file://")
        todo = []
        for p in case["paths"]:
            base = f"{scheme}{root}" + (f"/{p}" if p else "")
            todo += [("schema", base + "/s.json"), ("ls", base)]
        ans, err = fresh.run("serve", todo, {"RECAP_URLS": json.dumps(["file:///" if d == "/" else f"file://{root}/{d}{case['tail']}" for d in case["allowed"]])})
        ctx.require(ans is not None, lambda: f"fails: {err}")
        for (method, url), a in zip(todo, ans):
            path = url.removeprefix(scheme)
            rel = path.removeprefix(root).strip("/")
            rel = rel.removesuffix("s.json").strip("/") if method == "schema" else rel
            real = os.path.normpath(os.path.join(root, rel)).removeprefix(root).strip("/")
            everything = "/" in case["allowed"]
            inside = everything or any(real.split("/")[: len(d.split("/"))] == d.split("/") for d in case["allowed"])
            ctx.interesting(not inside)
            ctx.label("inside" if inside else "outside")
            what = f"{method} of {scheme}...{rel!r} with {case['allowed']} configured"
            served = {"gateway": a["gateway"]["status"] == 200, "library": "value" in a["library"]}
            for who, ok in served.items():
                if not inside:
                    ctx.require(not ok, lambda: f"{who}: {what} is answered: {a[who]}")
                # files are connected to as a whole: there is nothing to
                # connect to below a directory
                elif everything and os.path.exists(path) and scheme.lower() == "file://":
                    ctx.require(ok, lambda: f"{who}: {what} is refused: {a[who]}")
            # the command line reads whatever its user may read
            if os.path.exists(path):
                ctx.equal(a["cli"]["code"], 0, f"{what}: exit status of the command line")
    finally:
        shutil.rmtree(root, ignore_errors=True)


PROPERTY = Property("C25", [
    Facet("settings", cases(), check, rule="a configured URL with credentials shares its host or path with the requested one", quick=2500, thorough=80000),
    Facet("databases", databases(), check_parse, rule="a configured URL with credentials shares its host or path with a requested one", quick=8, thorough=160),
    Facet("files", served(), check_served, rule="a path outside the configured directories is asked for", quick=12, thorough=200),
], assumptions=[
    "requested URLs have no credentials of their own, paths have no empty segments and only unreserved characters",
    "if several configured URLs cover a request, any one of them may be used",
])
