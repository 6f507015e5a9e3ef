"""C23: A URL leads to exactly the system and object it names."""
import contextlib
import os
import shutil
import sqlite3
import sys
import tempfile
from urllib.parse import unquote, urlsplit

from hypothesis import strategies as st

from checks import c17, c19
from vlib import catalog as C, docs as D, hive as H, model as M, urls as U
from vlib.harness import Facet, Property, call
from vlib.stubs import FakeRegistry

from recap import commands
from recap.clients import create_client
from recap.types import from_dict

evil = st.sampled_from(["evil", "evil.example.com", "6666"])
values = st.one_of(st.sampled_from(["x", "10", "require", "a b", "a&b=c", "Ünï", "/some/file", "%41", "a+b"]), st.text(min_size=1, max_size=5))


@contextlib.contextmanager
def patched(*replacements):
    """Replace attributes for a while: (object, name, value), also where recap
    has imported them by name."""
    modules = [m for k, m in list(sys.modules.items()) if k.partition(".")[0] == "recap"]
    todo = {}
    for o, n, v in replacements:
        if hasattr(o, n):
            was = getattr(o, n)
            todo[id(o), n] = (o, n, was, v)
            for m in modules:
                for k, x in list(vars(m).items()):
                    if x is was:
                        todo[id(m), k] = (m, k, was, v)
    old = [(o, n, was) for o, n, was, _ in todo.values()]
    try:
        for o, n, _, v in todo.values():
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)


# -------------------------------------------------------------- SQL databases

# Options of libpq, MySQL Connector/Python and the Snowflake connector, apart from
# those for the components of the URL.
OPTIONS = {
    "postgresql": ["sslmode", "connect_timeout", "application_name", "options", "client_encoding", "sslrootcert", "passfile", "channel_binding",
                   "fallback_application_name", "keepalives", "keepalives_idle", "keepalives_interval", "keepalives_count", "tcp_user_timeout",
                   "replication", "gssencmode", "sslcompression", "sslcert", "sslkey", "sslpassword", "sslcrl", "sslcrldir", "sslsni", "requirepeer",
                   "ssl_min_protocol_version", "ssl_max_protocol_version", "krbsrvname", "gsslib", "service", "target_session_attrs", "hostaddr", "requiressl"],
    "mysql": ["charset", "collation", "connection_timeout", "ssl_ca", "time_zone", "sql_mode", "use_unicode", "autocommit", "get_warnings",
              "raise_on_warnings", "client_flags", "compress", "buffered", "raw", "ssl_cert", "ssl_key", "ssl_verify_cert", "ssl_verify_identity",
              "ssl_disabled", "tls_versions", "force_ipv6", "auth_plugin", "allow_local_infile", "consume_results", "use_pure", "init_command"],
    "snowflake": ["warehouse", "role", "authenticator", "login_timeout", "application", "private_key_file", "private_key_file_pwd", "token", "passcode",
                  "network_timeout", "client_session_keep_alive", "timezone", "session_parameters", "ocsp_fail_open", "validate_default_parameters"],
}


def each_option(dialect):
    """A URL with each option by itself, and the options by themselves."""
    depth = {"postgresql": 3, "mysql": 2, "snowflake": 3}[dialect]
    for user in (None, "me"):
        a = {"user": user, "password": user and "p@ss", "host": "account" if dialect == "snowflake" else "example.com", "port": 443 if dialect == "snowflake" else 4711}
        for k in OPTIONS[dialect]:
            for method, n in (("ls", 0), ("schema", depth)):
                yield {"dialect": dialect, "authority": a, "method": method, "paths": ["cat", "sch", "tab"][:n], "options": [[k, "some value"]],
                       "decoys": [], "tail": ""}


@st.composite
def sql_cases(draw, dialect):
    a = draw(U.authorities())
    if dialect == "snowflake":
        a["host"] = draw(st.sampled_from(["account", "org-account", "xy12345.us-east-2.aws"]))
        a["port"] = draw(st.sampled_from([None, None, 443]))
    depth = {"postgresql": 3, "mysql": 2, "snowflake": 3}[dialect]
    method = draw(st.sampled_from(["ls", "schema"]))
    paths = [draw(U.segments) for _ in range(depth if method == "schema" else draw(st.integers(0, depth - 1)))]
    options = [[k, draw(values)] for k in draw(st.lists(st.sampled_from(OPTIONS[dialect]), max_size=2, unique=True))]
    # Options that must not replace what the URL says.
    present = ["host", "hostname", "netloc", "path", "paths", "scheme", "url"]
    present += [k for k, v in (("port", a["port"]), ("user", a["user"]), ("username", a["user"]), ("password", a["password"])) if v is not None]
    if paths:
        present += {"postgresql": ["dbname"], "mysql": ["database"], "snowflake": ["database", "account"]}[dialect]
    decoys = [[k, draw(evil)] for k in draw(st.lists(st.sampled_from(present), max_size=2, unique=True))]
    # Options for what the URL doesn't say.
    if not draw(st.integers(0, 2)):
        if dialect != "snowflake" and not draw(st.integers(0, 2)):
            a = {"host": "", "port": None, "user": None, "password": None}
            decoys = []
        if a["user"] is None and draw(st.booleans()):
            options.append(["user", draw(U.users)])
        if a["password"] is None and draw(st.booleans()):
            options.append(["password", draw(U.users)])
        if a["port"] is None and draw(st.booleans()):
            options.append(["port", "4711"])
        if not a["host"]:
            options.append(["host", draw(st.sampled_from(["localhost", "db.example.com", "/var/run/x"]))])
        decoys = [d for d in decoys if d[0] not in [o[0] for o in options]]
    options = draw(st.permutations(options + decoys))
    return {"dialect": dialect, "authority": a, "method": method, "paths": paths, "options": [list(o) for o in options],
            "decoys": [d[0] for d in decoys], "tail": draw(st.sampled_from(["", "", "/"]))}


def catalog_for(case):
    """A catalog that contains the named object among similar ones."""
    dialect, paths = case["dialect"], list(case["paths"])
    full = (["def"] if dialect == "mysql" else []) + paths
    full += ["cat", "sch", "tab"][len(full):]
    cat, sch, tab = full

    def table(s, t, column):
        row = {"DATA_TYPE": {"postgresql": "integer", "mysql": "int", "snowflake": "NUMBER"}[dialect]}
        return {"catalog": cat, "schema": s, "name": t, "columns": [{"name": column, "k": "x", "row": row, "nullable": False, "default": None}]}

    tables = [table(sch, tab, "right"), table(sch, tab + "2", "wrong"), table(sch + "2", tab, "wrong")]
    return {"dialect": dialect, "catalogs": [cat] + (["other"] if dialect != "mysql" else []), "schemas": [[cat, sch], [cat, sch + "2"]], "tables": tables, "seed": 1}


def listed(cat, dialect, n):
    levels = [cat["catalogs"], [s for _, s in cat["schemas"]], [t["name"] for t in cat["tables"][:2]]]
    return sorted(levels[n + (1 if dialect == "mysql" else 0)])


def sql_check(case, ctx):
    import mysql.connector
    import psycopg2
    import snowflake.connector

    dialect, a = case["dialect"], case["authority"]
    url = U.url(dialect, a, case["paths"], case["options"], case["tail"])
    ctx.interesting(a["user"] is not None and case["paths"] or case["options"])
    ctx.label("method:" + case["method"], *("decoy:" + d for d in case["decoys"]))
    cat = catalog_for(case)
    calls = []

    def connect(*args, **kw):
        calls.append((args, kw))
        return C.build(cat)

    with patched((psycopg2, "connect", connect), (mysql.connector, "connect", connect), (snowflake.connector, "connect", connect)):
        got = commands.ls(url, strict=False) if case["method"] == "ls" else commands.schema(url, strict=False)
    ctx.equal(len(calls), 1, f"connections for {url}")
    args, kw = calls[0]
    if dialect == "postgresql":
        import psycopg2.extensions as pe

        if args:
            kw = {**pe.parse_dsn(args[0]), **kw}
            args = args[1:]
        _, err = call(pe.make_dsn, **{k: "1" for k in kw})
        ctx.require(err is None, lambda: f"{url}: the driver refuses the options {sorted(kw)}: {err}")
    elif dialect == "mysql":
        from mysql.connector.constants import DEFAULT_CONFIGURATION

        unknown = set(kw) - set(DEFAULT_CONFIGURATION) - {"username", "read_default_file", "unix_socket"}
        ctx.require(not unknown, lambda: f"{url}: the driver refuses the options {sorted(unknown)}")
        ctx.require("port" not in kw or call(int, kw["port"])[1] is None, lambda: f"{url}: the driver refuses the port {kw['port']!r}")
    ctx.equal(args, (), "positional arguments")
    kw = {k: v for k, v in kw.items() if v is not None}
    want = {"user": a["user"], "password": a["password"]}
    if dialect == "snowflake":
        want["account"] = a["host"]
    else:
        want["host"] = U.bare(a["host"]) or None
    want["port"] = a["port"]
    given = {k: v for k, v in case["options"] if k not in case["decoys"]}
    for k in ("host", "port", "user", "password"):
        if want.get(k) is None and k in given:
            want[k] = int(given[k]) if k == "port" else given[k]
            ctx.label("from options:" + k)
    name = "dbname" if dialect == "postgresql" else "database"
    want[name] = case["paths"][0] if case["paths"] else None
    for k, v in want.items():
        got_v = kw.get(k)
        if k == "port" and got_v is not None and v is not None:
            got_v = int(got_v)
        ctx.require(got_v == v, lambda: f"{url}: connects with {k}={got_v!r} instead of {v!r}")
    for k, v in case["options"]:
        if k not in case["decoys"] and k not in want:
            ctx.require(kw.get(k) == v, lambda: f"{url}: option {k} is {kw.get(k)!r} instead of {v!r}")
    if case["method"] == "ls":
        ctx.equal(sorted(got), listed(cat, dialect, len(case["paths"])), f"{url}: listing")
    else:
        ctx.equal([f.extra_attrs["name"] for f in from_dict(got).fields], ["right"], f"{url}: columns")


# ------------------------------------------------------------- Hive metastore

@st.composite
def hive_cases(draw):
    method = draw(st.sampled_from(["ls", "schema"]))
    n = 2 if method == "schema" else draw(st.integers(0, 2))
    return {"authority": draw(U.authorities(user=False)), "method": method, "paths": [draw(U.segments) for _ in range(n)],
            "stats": draw(st.booleans()), "tail": draw(st.sampled_from(["", "", "/"]))}


def hive_check(case, ctx):
    import pymetastore.metastore as pm
    from checks import c32

    a = case["authority"]
    db, tab = (case["paths"] + ["db", "tab"][len(case["paths"]):])[:2]

    def table(d, t, column):
        return {"database": d, "name": t, "columns": [{"name": column, "type": {"k": "int"}, "comment": None}], "partitions": []}

    tables = [table(db, tab, "right"), table(db, tab + "2", "wrong"), table(db + "2", tab, "wrong")]
    recorded = {(db, tab, "right"): [c32.thrift("right", {"k": "long", "low": 7, "high": 8, "nulls": 0, "dvs": 1})]}
    calls = []

    def create(host="localhost", port=9083):
        calls.append((host, port))
        return contextlib.nullcontext(H.hms(tables, recorded))

    options = [["include_stats", "true"]] if case["stats"] and case["method"] == "schema" else []
    url = U.url("thrift+hms", a, case["paths"], options, case["tail"])
    ctx.interesting(case["paths"])
    with patched((pm.HMS, "create", staticmethod(create))):
        got = commands.ls(url, strict=False) if case["method"] == "ls" else commands.schema(url, strict=False)
    ctx.equal([(h, int(p)) for h, p in calls], [(U.bare(a["host"]), a["port"] or 9083)], f"{url}: connection")
    if case["method"] == "ls":
        want = [[db, db + "2"], [tab, tab + "2"], [tab]][len(case["paths"])]
        ctx.equal(sorted(got), sorted(want), f"{url}: listing")
    else:
        struct = from_dict(got)
        ctx.equal([f.extra_attrs["name"] for f in struct.fields], ["right"], f"{url}: columns")
        ctx.equal(struct.fields[0].extra_attrs.get("low"), 7 if options else None, f"{url}: statistics")


# ------------------------------------------------------------------- BigQuery

@st.composite
def bq_cases(draw):
    method = draw(st.sampled_from(["ls", "schema"]))
    n = 3 if method == "schema" else draw(st.integers(0, 2))
    return {"method": method, "paths": [draw(U.segments.filter(lambda s: not set(".:`") & set(s))) for _ in range(n)], "tail": draw(st.sampled_from(["", "", "/"]))}


def bq_check(case, ctx):
    from google.cloud import bigquery

    p, d, t = (case["paths"] + ["p", "d", "t"][len(case["paths"]):])[:3]

    def table(key, column):
        return {"key": key, "fields": [{"name": column, "type": "INT64", "mode": "REQUIRED", "description": None, "default": None}]}

    tables = [table([p, d, t], "right"), table([p, d, t + "2"], "wrong"), table([p, d + "2", t], "wrong"), table([p + "2", d, t], "wrong")]
    fake = c19.FakeBigQuery({"tables": tables, "projects": [p, p + "2"]})
    calls = []

    def client(*args, **kw):
        calls.append((args, kw))
        return fake

    url = "bigquery://" + "".join("/" + x for x in case["paths"]) + case["tail"]
    ctx.interesting(case["paths"])
    with patched((bigquery, "Client", client)):
        got = commands.ls(url, strict=False) if case["method"] == "ls" else commands.schema(url, strict=False)
    ctx.equal(len(calls), 1, "connections")
    if case["method"] == "ls":
        want = [[p, p + "2"], [d, d + "2"], [t, t + "2"]][len(case["paths"])]
        ctx.equal(sorted(got), sorted(want), f"{url}: listing")
    else:
        ctx.equal([f.extra_attrs["name"] for f in from_dict(got).fields], ["right"], f"{url}: columns")


# ---------------------------------- paths that are too short, or go too deep

# The lengths of paths that name something to list, or to read.
LENGTHS = {
    "postgresql": {"ls": {0, 1, 2}, "schema": {3}}, "snowflake": {"ls": {0, 1, 2}, "schema": {3}}, "mysql": {"ls": {0, 1}, "schema": {2}},
    "thrift+hms": {"ls": {0, 1, 2}, "schema": {2}}, "bigquery": {"ls": {0, 1, 2}, "schema": {3}},
}


@st.composite
def length_cases(draw):
    scheme = draw(st.sampled_from(sorted(LENGTHS)))
    method = draw(st.sampled_from(["ls", "schema"]))
    n = draw(st.sampled_from([n for n in range(7) if n not in LENGTHS[scheme][method]]))
    a = {"host": "" if scheme == "bigquery" else "example", "port": None, "user": None, "password": None}
    return {"scheme": scheme, "method": method, "authority": a, "paths": [draw(U.segments.filter(lambda s: not set(".:`") & set(s))) for _ in range(n)],
            "tail": draw(st.sampled_from(["", "", "/"]))}


def length_check(case, ctx):
    import mysql.connector
    import psycopg2
    import pymetastore.metastore as pm
    import snowflake.connector
    from google.cloud import bigquery

    scheme, paths, method = case["scheme"], case["paths"], case["method"]
    # Whatever the path could be mistaken for exists.
    full = (paths + ["x"] * 6)[:6]
    db = {"postgresql": (0, 1, 2), "snowflake": (0, 1, 2), "mysql": (None, 0, 1), "thrift+hms": (0, 1), "bigquery": (0, 1, 2)}[scheme]
    key = ["def" if i is None else full[i] for i in db]

    def connect(*_, **__):
        row = {"DATA_TYPE": {"postgresql": "integer", "mysql": "int", "snowflake": "NUMBER"}[scheme]}
        t = {"catalog": key[0], "schema": key[1], "name": key[2], "columns": [{"name": "c", "k": "x", "row": row, "nullable": False, "default": None}]}
        return C.build({"dialect": scheme, "catalogs": key[:1], "schemas": [key[:2]], "tables": [t], "seed": 1})

    def hms(*_, **__):
        return contextlib.nullcontext(H.hms([{"database": key[0], "name": key[1], "columns": [{"name": "c", "type": {"k": "int"}, "comment": None}], "partitions": []}]))

    def client(*_, **__):
        fields = [{"name": "c", "type": "INT64", "mode": "REQUIRED", "description": None, "default": None}]
        return c19.FakeBigQuery({"tables": [{"key": key, "fields": fields}], "projects": key[:1]})

    url = U.url(scheme, case["authority"], paths, [], case["tail"])
    ctx.interesting(paths)
    ctx.label(f"{method}:{scheme}:{'deep' if len(paths) > 2 else 'short or deep'}")
    with patched((psycopg2, "connect", connect), (mysql.connector, "connect", connect), (snowflake.connector, "connect", connect),
                 (pm.HMS, "create", staticmethod(hms)), (bigquery, "Client", client)):
        got, err = call(commands.ls if method == "ls" else commands.schema, url, strict=False)
    ctx.require(err is not None, lambda: f"{method} of {url}, which names nothing of the kind, gives {got!r}")


# ------------------------------------------------------------ schema registry

CSR_OPTIONS = ["ssl.ca.location", "ssl.key.location", "ssl.certificate.location", "basic.auth.user.info"]
subjects = U.segments.filter(lambda s: not s.endswith(("-key", "-value")))


@st.composite
def csr_cases(draw):
    return {
        "scheme": draw(st.sampled_from(["http", "https"])), "authority": draw(U.authorities()),
        "prefix": [draw(U.segments) for _ in range(draw(st.sampled_from([0, 0, 1, 2])))],
        "method": draw(st.sampled_from(["ls", "schema"])), "subject": draw(subjects) + draw(st.sampled_from(["", "-value", "-key"])),
        "options": [[k, draw(values)] for k in draw(st.lists(st.sampled_from(CSR_OPTIONS), max_size=2, unique=True))],
        "decoys": [[k, draw(evil)] for k in draw(st.lists(st.sampled_from(["url", "host", "netloc", "path", "scheme"]), max_size=1))],
        "tail": draw(st.sampled_from(["", "", "/"])), "fragment": draw(st.sampled_from(["", "", "", "#part"])),
    }


def csr_check(case, ctx):
    import confluent_kafka.schema_registry as cks
    import recap.clients.confluent_registry as rcc

    a = case["authority"]
    s = case["subject"]
    reg = FakeRegistry()
    full = s if s.endswith(("-key", "-value")) else s + "-value"
    wrong = '{"type": "record", "name": "R", "fields": [{"name": "wrong", "type": "int"}]}'
    for name in (full[:-4] + "valuf", full + "2-value", "x" + full):
        reg.register(name, "AVRO", wrong)
    reg.register(full, "AVRO", wrong.replace("wrong", "right"))
    calls = []

    def client(conf, *_, **__):
        calls.append(dict(conf))
        return reg

    paths = case["prefix"] + ([s] if case["method"] == "schema" else [])
    url = U.url(case["scheme"] + "+csr", a, paths, case["options"] + case["decoys"], case["tail"]) + case["fragment"]
    ctx.interesting(case["options"] or case["prefix"] or a["user"])
    with patched((cks, "SchemaRegistryClient", client), (rcc, "SchemaRegistryClient", client)):
        got = commands.ls(url, strict=False) if case["method"] == "ls" else commands.schema(url, strict=False)
    ctx.equal(len(calls), 1, "connections")
    conf = calls[0]
    unknown = set(conf) - {"url", "timeout", "max.retries", *CSR_OPTIONS}
    ctx.require(not unknown, lambda: f"{url}: the registry's client refuses the options {sorted(unknown)}")
    split = urlsplit(conf["url"])
    ctx.equal(split.scheme, case["scheme"], f"{url}: scheme")
    ctx.equal(split.hostname, U.bare(a["host"]), f"{url}: host")
    ctx.equal(split.port, a["port"], f"{url}: port")
    ctx.equal((split.username and unquote(split.username), split.password and unquote(split.password)), (a["user"], a["password"]), f"{url}: credentials")
    ctx.equal(split.path.rstrip("/"), "".join("/" + p for p in case["prefix"]), f"{url}: path")
    ctx.equal((split.query, split.fragment), ("", ""), f"{url}: query of the service's address")
    for k, v in case["options"]:
        ctx.equal(conf.get(k), v, f"{url}: option {k}")
    if case["method"] == "ls":
        ctx.equal(sorted(got), sorted(reg.subjects), f"{url}: subjects")
    else:
        ctx.equal([f.extra_attrs["name"] for f in from_dict(got).fields], ["right"], f"{url}: fields")


# -------------------------------------------------------------- SQLite, files

local = U.segments.filter(lambda s: not s.startswith("~"))


@st.composite
def sqlite_cases(draw):
    uri = not draw(st.integers(0, 3))
    part = local.filter(str.isalnum) if uri else local
    return {
        "uri": draw(st.sampled_from([["mode", "ro"], ["mode", "rw"], ["immutable", "1"], ["cache", "private"]])) if uri else None,
        "absolute": draw(st.booleans()), "dir": [draw(part) for _ in range(draw(st.integers(0, 2)))],
        "file": draw(part) + draw(st.sampled_from([".db", ""])), "table": draw(U.segments),
        "method": draw(st.sampled_from(["ls", "schema"])),
        "raw": draw(st.booleans()),
        "options": [[k, v] for k, v in draw(st.lists(st.sampled_from([("timeout", "7.5"), ("cached_statements", "9"), ("detect_types", "1")]), max_size=2, unique=True))],
        "decoys": [[k, "evil"] for k in draw(st.lists(st.sampled_from(["database", "path", "url"]), max_size=1))],
    }


@contextlib.contextmanager
def scratch(chdir):
    root = tempfile.mkdtemp(prefix="c23", dir=os.environ.get("VERIF_WORK"))
    old = os.getcwd()
    if chdir:
        os.chdir(root)
    try:
        yield root
    finally:
        os.chdir(old)
        shutil.rmtree(root)


def sqlite_check(case, ctx):
    ctx.interesting(case["options"] or case["dir"] or case["absolute"])
    with scratch(not case["absolute"]) as root:
        rel = "/".join([*case["dir"], case["file"]])
        os.makedirs(os.path.join(root, *case["dir"]), exist_ok=True)
        target = os.path.join(root, rel)
        con = sqlite3.connect(target)
        with contextlib.closing(con):
            q = case["table"].replace('"', '""')
            con.execute(f'CREATE TABLE "{q}" ("right" INT)')
            con.execute(f'CREATE TABLE "{q}2" ("wrong" INT)')
            con.commit()
        before = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        path = target if case["absolute"] else rel
        uri = case.get("uri")
        url = "sqlite:///" + ("file:" if uri else "") + path + ("/" + case["table"] if case["method"] == "schema" else "")
        opts = case["options"] + case["decoys"]
        if uri:
            ctx.label("URI filename")
            opts = [uri, ["uri", "true"]] + opts
        url += "?" + U.query(opts) if opts else ""
        if opts and case.get("raw"):
            # only the first question mark starts the options
            url += "&other=a?b"
        calls = []
        real = sqlite3.connect

        def connect(*args, **kw):
            calls.append((args, kw))
            return real(*args, **kw)

        with patched((sqlite3, "connect", connect)):
            got = commands.ls(url, strict=False) if case["method"] == "ls" else commands.schema(url, strict=False)
        ctx.equal(sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs), before, f"{url}: files")
        ctx.equal(len(calls), 1, "connections")
        # Some builds of SQLite take any name for a URI.
        ctx.require(bool(calls[0][1].get("uri")) == bool(uri), lambda: f"{url}: option uri is {calls[0][1].get('uri')!r}")
        for k, v in case["options"]:
            ctx.require(float(calls[0][1].get(k, "nan")) == float(v), lambda: f"{url}: option {k} is {calls[0][1].get(k)!r}")
        if case["method"] == "ls":
            ctx.equal(sorted(got), sorted([case["table"], case["table"] + "2"]), f"{url}: tables")
        else:
            ctx.equal([f.extra_attrs["name"] for f in from_dict(got).fields], ["right"], f"{url}: columns")


@st.composite
def file_cases(draw):
    return {
        "form": draw(st.sampled_from(["file://", "file:/", "", "relative"])), "dir": [draw(local) for _ in range(draw(st.integers(0, 2)))],
        "file": draw(local) + ".avsc", "method": draw(st.sampled_from(["ls", "schema"])), "tail": draw(st.sampled_from(["", "", "/"])),
    }


def file_check(case, ctx):
    ctx.interesting(case["dir"])
    if case["form"] == "relative" and ":" in "".join((case["dir"] + [case["file"]])[:1]):
        ctx.label("not a relative URL")
        return
    with scratch(case["form"] == "relative") as root:
        os.makedirs(os.path.join(root, *case["dir"]), exist_ok=True)
        wrong = '{"type": "record", "name": "R", "fields": [{"name": "wrong", "type": "int"}]}'
        base = os.path.join(root, *case["dir"])
        with open(os.path.join(base, case["file"]), "w") as fh:
            fh.write(wrong.replace("wrong", "right"))
        with open(os.path.join(base, "other " + case["file"]), "w") as fh:
            fh.write(wrong)
        parts = case["dir"] + ([case["file"]] if case["method"] == "schema" else [])
        if case["form"] == "relative":
            path = "/".join(parts) or "."
        else:
            path = case["form"] + "/".join([root, *parts])
        url = path + case["tail"]
        if case["method"] == "ls":
            ctx.equal(sorted(commands.ls(url, strict=False)), sorted(os.listdir(base)), f"{url}: listing")
        else:
            got = commands.schema(url, strict=False)
            ctx.equal([f.extra_attrs["name"] for f in from_dict(got).fields], ["right"], f"{url}: fields")


@st.composite
def host_cases(draw):
    part = st.text("abzABZ019.-_", min_size=1, max_size=6).filter(lambda s: s.strip("."))
    return {"parts": [draw(part) for _ in range(draw(st.integers(1, 4)))], "method": draw(st.sampled_from(["ls", "schema"])), "slashes": draw(st.sampled_from([2, 3]))}


def host_check(case, ctx):
    """What stands in the host's place of a file's URL is part of the path."""
    ctx.interesting(case["slashes"] == 2)
    url = "file:" + "/" * case["slashes"] + "/".join(case["parts"])
    seen = []

    def record(self, path=None, *a, **kw):
        seen.append(path)
        return [] if case["method"] == "ls" else from_dict({"type": "struct", "fields": []})

    from recap.clients.fs import FilesystemClient

    with patched((FilesystemClient, case["method"], record)):
        getattr(commands, case["method"])(url, strict=False)
    ctx.equal([str(p).rstrip("/") for p in seen], ["/" + "/".join(case["parts"])], f"{url}: path")


# --------------------------------------------------------------------- refusal

def unsupported():
    schemes = ["s3", "gs", "http", "https", "memory", "postgres", "postgresqlx", "postgresql+psycopg2", "mysql+mysqlconnector", "thrift",
               "hms", "csr", "oracle", "mssql", "redshift", "sqlite3", "http+hms", "ftp", "bigquery+x", "snowflake2", "hive"]
    return [{"url": f"{s}://user:pw@host:1/a/b/c"} for s in schemes]


def refuse(case, ctx):
    ctx.interesting()
    for what, fn in (("ls", lambda: commands.ls(case["url"], strict=False)), ("schema", lambda: commands.schema(case["url"], strict=False)),
                     ("client", lambda: create_client(case["url"]).__enter__())):
        value, err = call(fn)
        ctx.require(err is not None, lambda: f"{what} of {case['url']} is answered with {value!r}")


R = "URLs composed from random parts; non-trivial: "
PROPERTY = Property(
    "C23",
    [
        Facet("postgresql", lambda: sql_cases("postgresql"), sql_check, enumerate_all=lambda: list(each_option("postgresql")), quick=300, thorough=5000, rule=R + "credentials and a path, or options"),
        Facet("mysql", lambda: sql_cases("mysql"), sql_check, enumerate_all=lambda: list(each_option("mysql")), quick=250, thorough=4000, rule=R + "credentials and a path, or options"),
        Facet("snowflake", lambda: sql_cases("snowflake"), sql_check, enumerate_all=lambda: list(each_option("snowflake")), quick=250, thorough=4000, rule=R + "credentials and a path, or options"),
        Facet("hive", lambda: hive_cases(), hive_check, quick=150, thorough=2500, rule=R + "a path"),
        Facet("bigquery", lambda: bq_cases(), bq_check, quick=100, thorough=1500, rule=R + "a path"),
        Facet("other lengths", lambda: length_cases(), length_check, quick=200, thorough=3000, rule=R + "a path"),
        Facet("registry", lambda: csr_cases(), csr_check, quick=250, thorough=4000, rule=R + "options, credentials or a path prefix"),
        Facet("sqlite", lambda: sqlite_cases(), sqlite_check, quick=150, thorough=2500, rule=R + "options, directories or an absolute path"),
        Facet("files", lambda: file_cases(), file_check, quick=150, thorough=2500, rule=R + "directories"),
        Facet("file paths", lambda: host_cases(), host_check, quick=200, thorough=2000, rule=R + "the first part of the path is in the host's place"),
        Facet("refused", None, refuse, enumerate_all=unsupported, rule="every listed unsupported scheme"),
    ],
    assumptions=["drivers are stand-ins that record what they are given; no URLs are configured in the settings"],
)
