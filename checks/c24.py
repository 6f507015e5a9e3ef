"""C24: Configured URLs are listed without their credentials."""
import json
import os
import shutil
import tempfile
from urllib.parse import quote, unquote, urlsplit

from hypothesis import strategies as st

from vlib import fresh, urls as U
from vlib.harness import Facet, Property

from recap.settings import RecapSettings

SCHEMES = ["postgresql", "mysql", "snowflake", "http+csr", "https+csr", "thrift+hms", "bigquery", "http", "https", "file", "sqlite", "s3", "redshift"]
HOSTLESS = {"file", "sqlite", "bigquery"}
# ports that the scheme implies may be left out
IMPLIED = {"http": 80, "https": 443}
secret_text = st.sampled_from(["", "x", "@", ":", "/", "?", "#", "%", " ", "é", "a@b", "p:q", "[", "]", "@@", "//", "%40"])


@st.composite
def configured(draw, n):
    scheme = draw(st.sampled_from(SCHEMES))
    u = {"scheme": scheme, "host": draw(U.hosts), "port": draw(U.ports), "user": None, "password": None}
    if scheme in HOSTLESS:
        u["host"], u["port"] = ("" if scheme != "bigquery" or draw(st.booleans()) else "h"), None
    if u["port"] == IMPLIED.get(scheme):
        u["port"] = None
    if scheme in IMPLIED:
        u["host"] = u["host"].replace("_", "-")
    if u["host"]:
        form = draw(st.sampled_from(["none", "user", "both", "both", "both", "password", "empty"]))
        if form in ("user", "both", "empty"):
            u["user"] = draw(secret_text) + f"SECRETu{n}" + draw(secret_text)
        if form in ("both", "password"):
            u["password"] = draw(secret_text) + f"SECRETp{n}" + draw(secret_text)
        if form == "empty":
            u["password"] = ""
        # browsers and drivers accept these unencoded
        u["raw"] = draw(st.sampled_from(["", "", "@", ":@", "!$&'()*+,;="]))
    u["path"] = draw(st.lists(U.segments.filter(lambda s: unquote(s).strip(".")), max_size=3))
    u["tail"] = draw(st.sampled_from(["", "", "/", "//"]))
    u["query"] = draw(st.lists(st.tuples(st.sampled_from(["warehouse", "role", "charset", "a", "x-y"]), st.sampled_from(["1", "a b", "x@y", "", "u:p@h", "a/b", "é"])), max_size=2))
    u["fragment"] = draw(st.sampled_from(["", "", "", "frag", "a@b:c"]))
    return u


def text(u):
    cred = ""
    if u["user"] is not None or u["password"] is not None:
        safe = u.get("raw", "")
        cred = quote(u["user"] or "", safe=safe.replace(":", ""))
        if u["password"] is not None:
            cred += ":" + quote(u["password"], safe=safe)
        cred += "@"
    port = f":{u['port']}" if u["port"] is not None else ""
    s = f"{u['scheme']}://{cred}{u['host']}{port}" + "".join("/" + quote(p, safe="%@:$&+,=!*'()~") for p in u["path"])
    s += u["tail"]
    if u["query"]:
        s += "?" + U.query(u["query"])
    if u["fragment"]:
        s += "#" + quote(u["fragment"])
    return s


def verify(ctx, us, shown, what):
    ctx.require(isinstance(shown, list) and len(shown) == len(us), lambda: f"{what}: {len(us)} URLs are configured, shown are {shown}")
    for u, s in zip(us, shown):
        ctx.require("SECRET" not in s, lambda: f"{what}: credentials of {text(u)} are shown: {s}")
        p = urlsplit(s)
        ctx.equal(p.scheme, u["scheme"], f"{what}: scheme of {text(u)} shown as {s}")
        ctx.equal(p.netloc, u["host"] + (f":{u['port']}" if u["port"] is not None else ""), f"{what}: host and port of {text(u)} shown as {s}")
        ctx.require(s.startswith(u["scheme"] + "://"), lambda: f"{what}: {text(u)} shown as {s}")
        want = unquote("".join("/" + x for x in u["path"]))
        ctx.equal(unquote(p.path), want, f"{what}: path of {text(u)} shown as {s}")
        ctx.equal(p.query, U.query(u["query"]), f"{what}: query of {text(u)} shown as {s}")
        ctx.equal(unquote(p.fragment), u["fragment"], f"{what}: fragment of {text(u)} shown as {s}")


def note(ctx, us):
    for u in us:
        ctx.label("scheme:" + u["scheme"], "credentials" if u["user"] or u["password"] else "no credentials")
    ctx.interesting(any(u["user"] or u["password"] for u in us))


@st.composite
def lists(draw, lo=1, hi=4):
    return [draw(configured(i)) for i in range(draw(st.integers(lo, hi)))]


def check(us, ctx):
    note(ctx, us)
    s = RecapSettings(urls=[text(u) for u in us])
    verify(ctx, us, s.safe_urls, "safe_urls")
    verify(ctx, us, s.safe_urls, "safe_urls again")


@st.composite
def environments(draw):
    return {"urls": draw(lists(0, 6)), "source": draw(st.sampled_from(["environment", "secrets"])), "home": draw(st.booleans())}


def check_entry_points(case, ctx):
    us = case["urls"]
    note(ctx, us)
    ctx.label("source:" + case["source"], "home exists" if case["home"] else "home doesn't exist")
    configured = json.dumps([text(u) for u in us])
    root = tempfile.mkdtemp(prefix="c24", dir=os.environ.get("VERIF_WORK"))
    try:
        env = {"RECAP_HOME": os.path.join(root, "home")}
        if case["home"]:
            os.mkdir(env["RECAP_HOME"])
        if case["source"] == "secrets":
            env["RECAP_SECRETS"] = os.path.join(root, "secrets")
            os.mkdir(env["RECAP_SECRETS"])
            with open(os.path.join(root, "secrets", "recap_urls"), "w") as fh:
                fh.write(configured)
        else:
            env["RECAP_URLS"] = configured
        ans, err = fresh.run("listing", None, env)
        ctx.require(os.path.isdir(env["RECAP_HOME"]), "the home directory isn't there")
    finally:
        shutil.rmtree(root)
    ctx.require(ans is not None, lambda: f"listing fails: {err}")
    verify(ctx, us, ans["settings"], "RecapSettings()")
    verify(ctx, us, ans["library"], "commands.ls()")
    ctx.equal(ans["cli"]["code"], 0, "exit status of recap ls")
    verify(ctx, us, json.loads(ans["cli"]["out"]), "recap ls")
    ctx.equal(ans["gateway"]["status"], 200, "status of /gateway/ls")
    verify(ctx, us, json.loads(ans["gateway"]["body"]), "/gateway/ls")


PROPERTY = Property("C24", [
    Facet("safe_urls", lists(), check, rule="some URL has credentials", quick=1500, thorough=40000),
    Facet("entry points", environments(), check_entry_points, rule="some URL has credentials; URLs configured in the environment or in a secrets directory", quick=16, thorough=160),
], assumptions=["hosts are lower case, ports are not the default of http(s), paths contain no empty segments"])
