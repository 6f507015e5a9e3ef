"""C34: whatever Recap reads can be kept as a Recap document."""
import json
import sqlite3

from hypothesis import strategies as st

from checks import c08, c16, c17, c19, c32
from vlib import avro_model as A, catalog as C, hive as H, json_model as J, model as M, proto_model as P, tables as TB
from vlib.harness import Facet, Property, call
from vlib.stubs import memory

import recap.types as T
from recap.clients.sqlite import SQLiteClient
from recap.converters.avro import AvroConverter
from recap.converters.bigquery import BigQueryConverter
from recap.converters.json_schema import JSONSchemaConverter
from recap.converters.protobuf import ProtobufConverter
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.storage.registry import RegistryStorage


def keep(ctx, rt, what):
    """rt as a document, in a registry, and back."""
    node = M.observe(rt)
    ctx.interesting(M.size(node) > 3)
    proxies = [n for n in M.walk(node) if n["t"] == "proxy"]
    ctx.label("with references" if proxies else "without references")
    before = json.dumps(node, default=str)
    for clean, alias in ((True, True), (False, True), (True, False), (False, False)):
        doc, err = call(T.to_dict, rt, clean=clean, alias=alias)
        ctx.require(err is None, lambda: f"{what}: what was read has no document: {err!r}")
        wire, err = call(lambda: json.loads(json.dumps(doc)))
        ctx.require(err is None, lambda: f"{what}: the document {doc!r} is not JSON: {err!r}")
        back, err = call(T.from_dict, wire)
        ctx.require(err is None, lambda: f"{what}: the document {json.dumps(wire)} is refused: {err!r}")
        same(ctx, back, rt, node, f"{what}, kept as {json.dumps(wire)}")
    with memory() as (fs, root):
        s = RegistryStorage(f"memory://{root}/r")
        v, err = call(s.put, "a", rt)
        ctx.require(err is None, lambda: f"{what}: cannot be stored: {err!r}")
        got, err = call(s.get, "a")
        ctx.require(err is None, lambda: f"{what}: was stored, but cannot be read: {err!r}")
        same(ctx, got[0], rt, node, f"{what}, stored")
    ctx.require(json.dumps(M.observe(rt), default=str) == before, lambda: f"{what}: keeping it has changed it")


def same(ctx, back, rt, node, what):
    got = M.observe(back)
    d = M.diff(got, node, M.definitions(node))
    ctx.require(d is None, lambda: f"{what}: {d}")
    # every reference still has something it refers to
    skip = set(widened(node, rt))
    theirs = {}
    for p in proxies(back):
        _, err = call(p.resolve)
        ctx.require(err is None, lambda: f"{what}: the reference to {p.alias} does not resolve: {err!r}")
        theirs.setdefault(p.alias, p.registry)
    for p in proxies(rt):
        _, err = call(p.resolve)
        ctx.require(err is None, lambda: f"{what}: the reference to {p.alias} does not resolve as read: {err!r}")
        if p.alias not in skip:
            d = alike(theirs[p.alias].from_alias(p.alias), p.registry.from_alias(p.alias), skip, set(), loose=True)
            ctx.require(d is None, lambda: f"{what}: the reference to {p.alias} stands for something else: {d}")


def widened(node, rt):
    """The listed finding: the first place of these unions is a property that
    may be absent, and null there is in the union with the alias."""
    registry = next((p.registry for p in proxies(rt)), None)
    for n in M.walk(node):
        if registry and n["t"] == "union" and n["alias"] and "default" in n["extra"]:
            d = M.observe(registry.from_alias(n["alias"]))
            if d["t"] == "union" and [x["t"] for x in n["types"]] == ["null", *(x["t"] for x in d["types"])]:
                yield n["alias"]


def alike(got, want, skip, seen, path="$", loose=False):
    """Whether two types describe the same data, following references. A
    definition's place (its name, doc and default there) is not part of what a
    reference stands for."""
    if isinstance(got, T.ProxyType) or isinstance(want, T.ProxyType):
        if {getattr(got, "alias", None), getattr(want, "alias", None)} & skip:
            return None
        if isinstance(got, T.ProxyType) and isinstance(want, T.ProxyType):
            d = M.diff(M.observe(got), M.observe(want))
            if d:
                return f"{path}: {d}"
            if got.alias in seen:
                return None
            seen.add(got.alias)
        loose = True
        got = got.resolve() if isinstance(got, T.ProxyType) else got
        want = want.resolve() if isinstance(want, T.ProxyType) else want
    a, b = ({k: v for k, v in M.observe(x).items() if k not in M.CHILD_KEYS and k != "alias"} for x in (got, want))
    if loose:
        for n in (a, b):
            n["doc"], n["extra"] = None, {k: v for k, v in n["extra"].items() if k not in ("name", "default")}
    if not M.same_json(a, b):
        return f"{path}: {a} instead of {b}"
    for k in M.CHILD_KEYS:
        xs, ys = ((lambda v: v if isinstance(v, list) else [v] if isinstance(v, T.RecapType) else [])(getattr(x, k, None)) for x in (got, want))
        if len(xs) != len(ys):
            return f"{path}.{k}: {len(xs)} instead of {len(ys)}"
        for i, (x, y) in enumerate(zip(xs, ys)):
            d = alike(x, y, skip, seen, f"{path}.{k}[{i}]")
            if d:
                return d
    return None


def proxies(rt):
    if isinstance(rt, T.ProxyType):
        if "." in rt.alias:
            yield rt
    for k in ("keys", "values", "fields", "types"):
        v = getattr(rt, k, None)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, T.RecapType):
                yield from proxies(x)


# -------------------------------------------------------------------- sources

def avro(doc, ctx):
    keep(ctx, AvroConverter().to_recap(json.dumps(doc)), "an Avro schema")


def proto(f, ctx):
    keep(ctx, ProtobufConverter().to_recap(P.render(f)), "a Protobuf file")


def json_schema(case, ctx):
    ids = [x["$id"] for x in J.subschemas(case["root"]) if "$id" in x]
    if c08.inline_before_use(case["root"]) - set(case["known"]) or set(ids) & set(case["known"]):
        return
    keep(ctx, JSONSchemaConverter(c08.registry(case)).to_recap(json.dumps(case["root"])), "a JSON Schema")


def sqlite(case, ctx):
    con = sqlite3.connect(":memory:")
    try:
        for t in case["tables"]:
            try:
                con.execute(c16.ddl(t))
            except sqlite3.OperationalError:
                # not a table that can be created
                continue
            keep(ctx, SQLiteClient(con).schema(t["name"]), "an SQLite table")
    finally:
        con.close()


@st.composite
def db_cases(draw):
    dialect = draw(st.sampled_from(["postgresql", "postgresql", "mysql", "snowflake"]))
    t = dict(draw(TB.tables(c19.TYPES[dialect](), max_columns=5)), catalog="def" if dialect == "mysql" else "c", schema="s", name="t")
    return {"dialect": dialect, "table": t}


def database(case, ctx):
    t, dialect = case["table"], case["dialect"]
    con = C.build({"dialect": dialect, "catalogs": [t["catalog"]], "schemas": [[t["catalog"], t["schema"]]], "tables": [t], "seed": 1})
    try:
        client = c19.client_of(dialect, con)
        ctx.label("dialect:" + dialect)
        keep(ctx, client.schema(*(("s", "t") if dialect == "mysql" else ("c", "s", "t"))), f"a {dialect} table")
    finally:
        con.close()


@st.composite
def hive_cases(draw):
    t = draw(H.tables(min_columns=1, max_columns=4, depth=3))
    recorded = [[c["name"], draw(c32.stats())] for c in t["columns"]] if draw(st.booleans()) else None
    return {"table": t, "stats": recorded}


def hive(case, ctx):
    t = case["table"]
    recorded = {(t["database"], t["name"], n): [c32.thrift(n, s)] for n, s in case["stats"] or []}
    client = HiveMetastoreClient(H.hms([t], recorded))
    keep(ctx, client.schema(t["database"], t["name"], case["stats"] is not None), "a Hive table")


def bigquery(fields, ctx):
    keep(ctx, BigQueryConverter().to_recap([c17.build(f) for f in fields]), "a BigQuery table")


LISTED = {
    "type": "object",
    "properties": {"a": {"$id": "https://example.com/u", "type": ["string", "integer"]}, "b": {"$ref": "https://example.com/u"}},
    "required": ["b"],
}
WIDENED = "json-optional-union"


def listed(case, ctx):
    rt = JSONSchemaConverter().to_recap(json.dumps(case["schema"]))
    before = [x.__class__ for x in rt.fields[1].resolve().types]
    back = T.from_dict(T.to_dict(rt))
    if [x.__class__ for x in back.fields[1].resolve().types] != before:
        ctx.known(case["finding"])


RULE = "non-trivial: more than three nodes"
PROPERTY = Property(
    "C34",
    [
        Facet("avro", lambda: A.schemas(), avro, quick=300, thorough=6000, rule="random Avro schemas; " + RULE),
        Facet("json", lambda: J.networks(), json_schema, quick=300, thorough=6000, rule="random JSON Schemas; " + RULE),
        Facet("protobuf", lambda: P.files(), proto, quick=200, thorough=4000, rule="random Protobuf files; " + RULE),
        Facet("databases", lambda: db_cases(), database, quick=300, thorough=6000, rule="random tables of PostgreSQL, MySQL and Snowflake; " + RULE),
        Facet("sqlite", lambda: c16.databases(), sqlite, quick=100, thorough=3000, rule="random SQLite tables; " + RULE),
        Facet("hive", lambda: hive_cases(), hive, quick=200, thorough=4000, rule="random Hive tables, with or without statistics; " + RULE),
        Facet("listed", None, listed, rule="the listed finding, replayed", examples=[{"finding": WIDENED, "schema": LISTED}]),
        Facet("bigquery", lambda: c17.fields(2), bigquery, quick=200, thorough=4000, rule="random BigQuery fields; " + RULE),
    ],
    assumptions=["database servers, metastore and BigQuery are stand-ins"],
)
