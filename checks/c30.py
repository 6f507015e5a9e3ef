"""C30: Command line, HTTP gateway and library give the same answers."""
import json
import os
import shutil
import sqlite3
import subprocess
import sys
import tempfile
from urllib.parse import quote

# The settings are read when recap is imported.
WORK = os.environ.get("VERIF_WORK") or tempfile.mkdtemp(prefix="c30-")
DB = os.path.join(WORK, "c30.db")
URLS = json.dumps(["file:///", f"sqlite:///{DB}"])
os.environ["RECAP_URLS"] = URLS

from hypothesis import strategies as st  # noqa: E402
from typer.testing import CliRunner  # noqa: E402

from vlib import asgi, docs as D, gen, model as M  # noqa: E402
from vlib.harness import REPO, Facet, Property, call  # noqa: E402

from recap import commands  # noqa: E402
from recap.cli import app as cli  # noqa: E402
from recap.clients.fs import FilesystemClient  # noqa: E402
from recap.clients.sqlite import SQLiteClient  # noqa: E402
from recap.converters.avro import AvroConverter  # noqa: E402
from recap.converters.json_schema import JSONSchemaConverter  # noqa: E402
from recap.converters.protobuf import ProtobufConverter  # noqa: E402
from recap.server.app import app as server  # noqa: E402
from recap.types import from_dict, to_dict  # noqa: E402

FORMATS = {"recap": "application/x-recap+json", "avro": "application/avro+json", "json": "application/schema+json", "protobuf": "application/x-protobuf"}
EXT = {"avro": "avsc", "json": "json", "proto": "proto"}
STEMS = ["schema", "a b", "ünï", "a%20b", "x.y", "A", "[bold]", "a+b", "日本", "a,b", "-x", "(1)", "a&b=c", "~", "a@b"]
LONG = "a very long text that does not fit on one line of a terminal, " * 3
TEXTS = [LONG, "[red]markup[/red] [link=http://x]", "{curly} %s \\n \\", "tab\there", "line\nbreak", "\x1b[31m", "ünï 日本 \U0001f600", "<b>&amp;", ":smile:", "'single' \"double\"", "\u2028\u0085\u00a0end ", "true", "[/]", "0x10", "\\[x]"]


@st.composite
def wordy_json(draw):
    """Documents with texts that a terminal could mistreat."""
    props = {}
    for k in range(draw(st.integers(1, 4))):
        name = draw(st.one_of(st.just(f"f{k}"), st.sampled_from(TEXTS), gen.field_names))
        p = {"type": draw(st.sampled_from(["string", "integer", "number", "boolean"]))}
        if draw(st.booleans()):
            p["description"] = draw(st.sampled_from(TEXTS))
        if p["type"] == "string" and draw(st.booleans()):
            p["default"] = draw(st.sampled_from(TEXTS))
        props[name] = p
    return {"format": "json", "doc": {"type": "object", "description": draw(st.sampled_from(TEXTS)), "properties": props, "required": sorted(props)[:1]}, "ascii": False}


@st.composite
def wordy_proto(draw):
    n = draw(st.integers(1, 30))
    fields = "".join(f"  string {'very_long_field_name_that_is_hard_to_fit_on_a_line_' if draw(st.booleans()) else 'f'}{k} = {k + 1};\n" for k in range(n))
    return {"format": "proto", "text": 'syntax = "proto3";\nmessage M {\n' + fields + "}\n"}


files = st.one_of(D.documents(), D.documents(), wordy_json(), wordy_proto())


@st.composite
def cases(draw):
    return {
        "doc": draw(files), "stem": draw(st.sampled_from(STEMS)), "format": draw(st.sampled_from(sorted(FORMATS))),
        "scheme": draw(st.sampled_from(["file://", "file://", ""])), "slash": draw(st.booleans()),
    }


def encode(fmt, rt):
    """What the converters themselves make of a type."""
    if fmt == "recap":
        return to_dict(rt)
    if fmt == "avro":
        return AvroConverter().from_recap(rt)
    if fmt == "json":
        return JSONSchemaConverter().from_recap(rt)
    from proto_schema_parser.generator import Generator

    return Generator().generate(ProtobufConverter().from_recap(rt))


def order(doc):
    """A struct's fields have an order, which a JSON schema has its properties for."""
    if isinstance(doc, list):
        return [order(x) for x in doc]
    if not isinstance(doc, dict):
        return None
    p = doc.get("properties")
    return [list(p) if isinstance(p, dict) and doc.get("type") == "object" else None, {k: order(v) for k, v in doc.items()}]


def same(a, b):
    return type(a) is type(b) and M.same_json(a, b) and order(a) == order(b)


def gateway(method, url, media=None):
    return asgi.request(server, "GET", f"/gateway/{method}/" + quote(url, safe="/:"), [("content-type", media)] if media else [])


def strict_json(ctx, text, what):
    def no(x):
        raise ValueError(x)

    try:
        return json.loads(text, parse_constant=no)
    except ValueError as e:
        ctx.fail(f"{what} is not JSON ({e}): {text!r}")


def agree(ctx, url, fmt, want, why):
    """All entry points answer `want`, or fail if there is nothing to answer."""
    what = f"{fmt} schema of {url}"
    media = FORMATS[fmt]
    lib, lib_err = call(commands.schema, url, commands.SchemaFormat(fmt))
    lax, lax_err = call(commands.schema, url, commands.SchemaFormat(fmt), strict=False)
    run = CliRunner().invoke(cli, ["schema", url, "--output-format", fmt])
    gate = gateway("schema", url, media)
    if why is not None:
        ctx.label("fails")
        ctx.require(lib_err is not None and lax_err is not None, lambda: f"{what}: the converters fail ({why!r}), the library answers {lib}")
        ctx.require(run.exit_code != 0, lambda: f"{what}: the converters fail ({why!r}), the command line prints {run.stdout!r}")
        ctx.require(gate.status >= 400, lambda: f"{what}: the converters fail ({why!r}), the gateway answers {gate!r}")
        return
    ctx.label("format:" + fmt)
    ctx.require(lib_err is None, lambda: f"{what}: the library fails: {lib_err!r}")
    ctx.require(lax_err is None, lambda: f"{what}: the library fails: {lax_err!r}")
    ctx.equal(run.exit_code, 0, f"{what}: exit status of the command line ({run.exception!r})")
    ctx.equal(gate.status, 200, f"{what}: the gateway answers {gate!r}")
    if fmt == "protobuf":
        ctx.require(isinstance(lib, str), lambda: f"{what}: the library returns {lib!r}")
        ctx.equal(run.stdout.rstrip("\n"), want.rstrip("\n"), f"{what}: printed")
        text = gate.body.decode("utf-8")
        if text.startswith('"'):
            text = json.loads(text)
        ctx.equal(text.rstrip("\n"), want.rstrip("\n"), f"{what}: served")
        ctx.equal(lib.rstrip("\n"), want.rstrip("\n"), f"{what}: returned")
        ctx.equal(lax.rstrip("\n"), want.rstrip("\n"), f"{what}: returned")
        return
    ctx.require(same(lib, want), lambda: f"{what}: the library returns {lib}, the converter {want}")
    ctx.require(same(lax, want), lambda: f"{what}: the library returns {lax}, the converter {want}")
    got = strict_json(ctx, run.stdout, f"{what}: what the command line prints")
    ctx.require(same(got, want), lambda: f"{what}: the command line prints {got}, want {want}")
    got = strict_json(ctx, gate.body.decode("utf-8"), f"{what}: what the gateway serves")
    ctx.require(same(got, want), lambda: f"{what}: the gateway serves {got}, want {want}")


def defaults(ctx, url, rt):
    """Without a format, it is Recap's."""
    want = to_dict(rt)
    ctx.require(same(commands.schema(url), want), lambda: f"{url}: returned is {commands.schema(url)}, want {want}")
    run = CliRunner().invoke(cli, ["schema", url])
    ctx.require(same(strict_json(ctx, run.stdout, "what is printed"), want), lambda: f"{url}: printed is {run.stdout}, want {want}")
    g = gateway("schema", url)
    ctx.require(g.status == 200 and same(g.json(), want), lambda: f"{url}: served is {g!r}, want {want}")


def check(case, ctx):
    root = tempfile.mkdtemp(prefix="c30-", dir=WORK)
    try:
        d = case["doc"]
        path = os.path.join(root, case["stem"] + "." + EXT[d["format"]])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(D.text(d))
        url = case["scheme"] + path + ("/" if case["slash"] else "")
        with FilesystemClient.create(scheme="file") as c:
            rt, err = call(c.schema, path)
        ctx.require(err is None, lambda: f"{path} cannot be read: {err!r}")
        if "doc" in d:
            D.check(ctx, d, rt, path)
        ctx.interesting(len(D.text(d)) > 60)
        want, err = call(encode, case["format"], rt)
        agree(ctx, url, case["format"], want, err)
        if case["format"] == "recap" and err is None:
            back = from_dict(commands.schema(url))
            diff = M.diff(M.observe(back), M.observe(rt), M.definitions(M.observe(rt)))
            ctx.require(diff is None, lambda: f"{url}: the schema means another type: {diff}")
            defaults(ctx, url, rt)
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- a database

TYPES = ["INTEGER", "TEXT", "VARCHAR(20)", "REAL", "BLOB", "NUMERIC", "DECIMAL(10, 2)", "BIGINT", "FLOAT"]
TABLES = ["t", "users", "a b", "order", "ünï", "a.b", "x'y", "[x]", "T1", "a%20b", "a+b"]


@st.composite
def databases(draw):
    tables = draw(st.lists(st.sampled_from(TABLES), min_size=1, max_size=3, unique_by=str.lower))
    return {
        "tables": [{"name": t, "columns": [[draw(st.sampled_from(TYPES)), draw(st.booleans())] for _ in range(draw(st.integers(1, 4)))]} for t in tables],
        "format": draw(st.sampled_from(sorted(FORMATS))),
    }


def check_database(case, ctx):
    if os.path.exists(DB):
        os.unlink(DB)
    con = sqlite3.connect(DB)
    for t in case["tables"]:
        q = '"' + t["name"].replace('"', '""') + '"'
        con.execute(f"CREATE TABLE {q} (" + ", ".join(f"c{i} {ty}{' NOT NULL' if nn else ''}" for i, (ty, nn) in enumerate(t["columns"])) + ")")
    con.commit()
    try:
        ctx.interesting()
        base = f"sqlite:///{DB}"
        names = sorted(t["name"] for t in case["tables"])
        listing(ctx, base, names)
        for t in case["tables"]:
            rt = SQLiteClient(con).schema(t["name"])
            want, err = call(encode, case["format"], rt)
            agree(ctx, f"{base}/{t['name']}", case["format"], want, err)
    finally:
        con.close()
        os.unlink(DB)


# ---- listings

def listing(ctx, url, names):
    ctx.equal(sorted(commands.ls(url) or []), names, f"names in {url} (library)")
    ctx.equal(sorted(commands.ls(url, strict=False) or []), names, f"names in {url} (library, not strict)")
    run = CliRunner().invoke(cli, ["ls", url])
    ctx.equal(run.exit_code, 0, f"exit status of ls {url} ({run.exception!r})")
    ctx.equal(sorted(strict_json(ctx, run.stdout, f"what ls {url} prints")), names, f"names in {url} (command line)")
    g = gateway("ls", url)
    ctx.equal(g.status, 200, f"ls {url}: the gateway answers {g!r}")
    ctx.equal(sorted(g.json()), names, f"names in {url} (gateway)")


@st.composite
def directories(draw):
    n = st.one_of(st.sampled_from(STEMS + [LONG[:200], "[red]x[red]", ":smile:", "a\tb", "\x1b[1m", "\\[x]", "'", '"']), gen.ident())
    return {"names": draw(st.lists(n, max_size=5, unique=True)), "dir": draw(st.sampled_from(STEMS)), "slash": draw(st.booleans())}


def check_listing(case, ctx):
    root = tempfile.mkdtemp(prefix="c30-", dir=WORK)
    try:
        d = os.path.join(root, case["dir"])
        os.makedirs(d)
        for n in case["names"]:
            open(os.path.join(d, n), "w").close()
        ctx.interesting(len(case["names"]) > 1)
        listing(ctx, "file://" + d + ("/" if case["slash"] else ""), sorted(case["names"]))
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- a real process, on a narrow terminal

@st.composite
def runs(draw):
    return {"doc": draw(st.one_of(wordy_json(), wordy_proto(), D.documents())), "format": draw(st.sampled_from(sorted(FORMATS))), "columns": draw(st.sampled_from(["20", "40", "80", "1000"])), "color": draw(st.sampled_from(["", "1"]))}


def check_process(case, ctx):
    root = tempfile.mkdtemp(prefix="c30-", dir=WORK)
    try:
        d = case["doc"]
        path = os.path.join(root, "schema." + EXT[d["format"]])
        with open(path, "w", encoding="utf-8") as fh:
            fh.write(D.text(d))
        with FilesystemClient.create(scheme="file") as c:
            rt = c.schema(path)
        want, err = call(encode, case["format"], rt)
        env = {**os.environ, "COLUMNS": case["columns"], "TERM": "xterm", "RECAP_URLS": "[]"}
        env["NO_COLOR"] = case["color"]
        p = subprocess.run([sys.executable, "-B", "-c", "from vlib.boot import boot; boot(); from recap.cli import app; app()", "schema", "file://" + path, "-of", case["format"]], env=env, capture_output=True, timeout=50)
        ctx.interesting(err is None)
        what = f"{case['format']} schema in a process"
        if err is not None:
            ctx.require(p.returncode != 0, lambda: f"{what}: the converters fail ({err!r}), printed is {p.stdout!r}")
            return
        ctx.equal(p.returncode, 0, f"{what}: exit status ({p.stderr[-800:]!r})")
        out = p.stdout.decode("utf-8")
        if case["format"] == "protobuf":
            ctx.equal(out.rstrip("\n"), want.rstrip("\n"), f"{what}: printed")
        else:
            got = strict_json(ctx, out, f"{what}: what is printed")
            ctx.require(same(got, want), lambda: f"{what}: printed is {got}, want {want}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---- what has to fail

def failures():
    out = [{"format": f} for f in ("xml", "", "AVRO", "avsc", "protobuf3", "jsonschema", "none")]
    out += [{"media": m} for m in ("application/xml", "text/html", "application/avro", "avro", "application/x-recap", "*/*", "application/json")]
    out += [{"url": u} for u in ("oracle://h/db/t", "ftp://h/x.avsc", "file:///nowhere/at/all.avsc", "file:///etc/hostname", "hms://h/db/t", "sqlite:////nowhere/at/all.db/t")]
    return out


def check_failures(case, ctx):
    ctx.interesting()
    root = tempfile.mkdtemp(prefix="c30-", dir=WORK)
    try:
        path = os.path.join(root, "s.json")
        with open(path, "w") as fh:
            fh.write('{"type": "object", "properties": {"a": {"type": "string"}}}')
        url = case.get("url", "file://" + path)
        if "format" in case:
            got, err = call(commands.schema, url, case["format"])
            ctx.require(err is not None, lambda: f"format {case['format']!r}: the library returns {got}")
            run = CliRunner().invoke(cli, ["schema", url, "--output-format", case["format"]])
            ctx.require(run.exit_code != 0, lambda: f"format {case['format']!r}: the command line prints {run.stdout!r}")
        elif "media" in case:
            g = gateway("schema", url, case["media"])
            ctx.equal(g.status, 415, f"status for media type {case['media']!r}")
        else:
            for strict in (True, False):
                got, err = call(commands.schema, url, strict=strict)
                ctx.require(err is not None, lambda: f"{url}: the library returns {got}")
            run = CliRunner().invoke(cli, ["schema", url])
            ctx.require(run.exit_code != 0, lambda: f"{url}: the command line prints {run.stdout!r}")
            g = gateway("schema", url)
            ctx.require(g.status >= 400, lambda: f"{url}: the gateway answers {g!r}")
    finally:
        shutil.rmtree(root, ignore_errors=True)


PROPERTY = Property("C30", [
    Facet("files", cases(), check, rule="the schema file has more than 60 characters", quick=320, thorough=10000),
    Facet("databases", databases(), check_database, rule="always", quick=80, thorough=2000),
    Facet("listings", directories(), check_listing, rule="the directory has at least two entries", quick=120, thorough=3000),
    Facet("processes", runs(), check_process, rule="the schema can be written in the format", quick=12, thorough=300),
    Facet("failures", None, check_failures, rule="always", enumerate_all=failures),
], assumptions=["file names contain no question mark or number sign (in a URL they end the path)"])
