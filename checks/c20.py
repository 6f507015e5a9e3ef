"""C20: Reading is repeatable and reads do not influence each other."""
import contextlib
import json
import sqlite3
from types import SimpleNamespace

import hypothesis
from hypothesis import strategies as st

from checks import c13, c14, c15, c16, c17, c19
from checks.c19 import TYPES
from vlib import catalog as C, docs as D, hive as H, interleave, model as M, tables as T
from vlib.harness import Facet, Property, call
from vlib.stubs import FakeRegistry, memory

import recap.types as RT
from recap.clients.bigquery import BigQueryClient
from recap.clients.confluent_registry import ConfluentRegistryClient
from recap.clients.fs import FilesystemClient
from recap.clients.hive_metastore import HiveMetastoreClient
from recap.clients.sqlite import SQLiteClient


def vandalise(t, seen=None, follow=True):
    """Change everything reachable from a returned type."""
    seen = seen if seen is not None else set()
    if not isinstance(t, RT.RecapType) or id(t) in seen:
        return
    seen.add(id(t))
    for k in ("fields", "types"):
        v = getattr(t, k, None)
        if isinstance(v, list):
            for x in list(v):
                vandalise(x, seen, follow)
            v.append(RT.IntType(bits=13, name="intruder"))
            v.reverse()
    for k in ("values", "keys"):
        vandalise(getattr(t, k, None), seen, follow)
    if isinstance(t, RT.ProxyType) and follow:
        target, err = call(t.resolve)
        if err is None:
            vandalise(target, seen, False)
    if isinstance(getattr(t, "symbols", None), list):
        t.symbols.append("intruder")
    t.extra_attrs["intruder"] = True
    if "default" in t.extra_attrs and isinstance(t.extra_attrs["default"], (list, dict)):
        t.extra_attrs["default"].clear()
    t.doc = "intruder"
    for k in ("bits", "bytes_"):
        if getattr(t, k, None):
            setattr(t, k, 1)


@st.composite
def steps(draw, objects, clients):
    """Reads of a few objects through a few clients."""
    return draw(st.lists(
        st.fixed_dictionaries({
            "object": st.integers(0, objects - 1), "client": st.integers(0, clients - 1),
            "vandalise": st.booleans(), "ls": st.integers(0, 3).map(lambda x: x == 0),
        }), min_size=2, max_size=8))


def history(case, ctx, clients, objects):
    """clients: list of (schema, ls); objects: list of (args, check) where check
    is None for an object that cannot be read (or only in part): it is just in the way."""
    first: dict = {}
    reads = [s["object"] for s in case["steps"]]
    again = len(set(reads)) < len(reads)
    failed_before = any(objects[o][1] is None for o in reads[:-1])
    ctx.interesting(again or len(set(reads)) > 1)
    if again:
        ctx.label("read again")
    if failed_before:
        ctx.label("after a failure")
    listing = None
    for i, s in enumerate(case["steps"]):
        args, check = objects[s["object"]]
        schema, ls = clients[s["client"] % len(clients)]
        value, err = call(schema, *args)
        if check is not None:
            ctx.require(err is None, lambda: f"step {i}: reading {args} fails: {err!r}")
            seen = M.observe(value)
            check(value)
            if s["object"] in first:
                d = M.diff(seen, first[s["object"]])
                ctx.require(d is None, lambda: f"step {i}: {args} differs from the first time: {d}")
            else:
                first[s["object"]] = seen
            if s["vandalise"]:
                vandalise(value)
                ctx.label("changed the answer")
        if s["ls"]:
            now = sorted(ls())
            ctx.require(listing is None or now == listing, lambda: f"step {i}: listing gives {now} and before {listing}")
            listing = now


# ------------------------------------------------------------ catalog clients

@st.composite
def db_cases(draw, dialect):
    case = draw(c19.cases(dialect))
    if not case["tables"]:
        t = draw(T.tables(c19.TYPES[dialect](), max_columns=3))
        cat, sch = case["schemas"][0] if case["schemas"] else (case["catalogs"][0], "s")
        t.update(catalog=cat, schema=sch, name="t")
        case["tables"] = [t]
        case["schemas"] = case["schemas"] or [[cat, sch]]
    if draw(st.booleans()):
        bad = dict(draw(c19.TYPES[dialect](bad=True)), name="bad one", nullable=True, default=None)
        t = draw(T.tables(c19.TYPES[dialect](), max_columns=3))
        cat, sch = case["schemas"][0]
        t.update(catalog=cat, schema=sch, name="bad table", columns=[c for c in t["columns"] if c["name"] != "bad one"] + [bad], bad=True)
        case["tables"].append(t)
    case["clients"] = draw(st.integers(1, 3))
    case["steps"] = draw(steps(len(case["tables"]), case["clients"]))
    return case


def db_check(case, ctx):
    dialect = case["dialect"]
    mysql = dialect == "mysql"
    connections = [C.build(case) for _ in range(case["clients"])]
    try:
        clients = [c19.client_of(dialect, c) for c in connections]
        objects = []
        for t in case["tables"]:
            where = (t["schema"], t["name"]) if mysql else (t["catalog"], t["schema"], t["name"])

            def check(value, t=t):
                d = M.diff(M.observe(value), c19.want(ctx, dialect, t, value))
                ctx.require(d is None, lambda: f"table {t['name']}: {d}")

            objects.append((where, None if t.get("bad") else check))
        history(case, ctx, [(c.schema, c.ls) for c in clients], objects)
    finally:
        for c in connections:
            c.close()


# ---------------------------------------------------------------------- SQLite

@st.composite
def sqlite_cases(draw):
    case = draw(c16.databases())
    case["steps"] = draw(steps(len(case["tables"]) + 1, 2))
    return case


def sqlite_check(case, ctx):
    con = sqlite3.connect(":memory:")
    with contextlib.closing(con):
        for t in case["tables"]:
            try:
                con.execute(c16.ddl(t))
            except sqlite3.OperationalError:
                hypothesis.assume(False)
        clients = [SQLiteClient(con), SQLiteClient(con)]
        def names_of(t):
            return lambda v: ctx.equal([f.extra_attrs["name"] for f in v.fields], [c["name"] for c in t["columns"]], "columns")
        objects = [((t["name"],), names_of(t)) for t in case["tables"]] + [(("there is no such table",), None)]
        history(case, ctx, [(c.schema, c.ls) for c in clients], objects)


# --------------------------------------------------------------- Hive, BigQuery

@st.composite
def hive_cases(draw):
    tables = draw(st.lists(H.tables(min_columns=1, max_columns=3, depth=2), min_size=1, max_size=3, unique_by=lambda t: (t["database"], t["name"])))
    return {"tables": tables, "steps": draw(steps(2 * len(tables) + 1, 2))}


def hive_check(case, ctx):
    from checks import c32

    recorded = {}
    for j, t in enumerate(case["tables"]):
        for k, c in enumerate(t["columns"]):
            recorded[t["database"], t["name"], c["name"]] = [c32.thrift(c["name"], {"k": "long", "low": j, "high": k, "nulls": 5, "dvs": 6})]
    hms = H.hms(case["tables"], recorded)
    clients = [HiveMetastoreClient(hms), HiveMetastoreClient(hms)]
    objects = []
    for j, t in enumerate(case["tables"]):
        def plain(value, t=t):
            d = M.diff(M.observe(value), H.want(t))
            ctx.require(d is None, lambda: f"{t['name']}: {d}")

        def stats(value, t=t, j=j):
            for k, f in enumerate(value.fields):
                ctx.equal((f.extra_attrs.get("low"), f.extra_attrs.get("high")), (j, k), f"statistics of column {k}")

        objects += [((t["database"], t["name"]), plain), ((t["database"], t["name"], True), stats)]
    objects.append((("no", "such table"), None))
    history(case, ctx, [(c.schema, c.ls) for c in clients], objects)


@st.composite
def bq_cases(draw):
    case = draw(c19.bq_cases())
    case["tables"] = [t for t in case["tables"] if t["key"] != ["no", "such", "table"]]
    case["steps"] = draw(steps(len(case["tables"]) + 1, 2))
    return case


def bq_check(case, ctx):
    shared = {tuple(t["key"]): [c17.build(f) for f in t["fields"]] for t in case["tables"]}

    class Fake(c19.FakeBigQuery):
        def get_table(self, ref, *_, **__):
            # the library hands out the same field objects
            t = super().get_table(ref)
            return SimpleNamespace(schema=shared[t.project, t.dataset_id, t.table_id])

    fake = Fake(case)
    clients = [BigQueryClient(fake), BigQueryClient(fake)]
    objects = []
    for t in case["tables"]:
        def check(value, t=t):
            d = M.diff(M.observe(value), M.N("struct", fields=[c17.want(f) for f in t["fields"]]))
            ctx.require(d is None, lambda: f"{t['key']}: {d}")
        objects.append((t["key"], check))
    objects.append((("no", "such", "table"), None))
    history(case, ctx, [(c.schema, c.ls) for c in clients], objects)


# ------------------------------------------------------------ files and subjects

@st.composite
def doc_cases(draw):
    docs = draw(st.lists(D.documents(), min_size=1, max_size=3))
    if draw(st.booleans()):
        fmt = draw(st.sampled_from([d["format"] for d in docs]))
        docs.append({"format": fmt, "text": draw(st.sampled_from(D.BROKEN[fmt])), "bad": True})
    return {"docs": docs, "steps": draw(steps(len(docs), 2))}


EXT = {"avro": "avsc", "json": "json", "proto": "proto"}
KIND = {"avro": "AVRO", "json": "JSON", "proto": "PROTOBUF"}


def doc_objects(case, ctx, name):
    out = []
    for i, d in enumerate(case["docs"]):
        def check(value, d=d, i=i):
            D.check(ctx, d, value, f"document {i}")
        out.append(((name(i, d),), None if d.get("bad") else check))
    return out


def file_check(case, ctx):
    with memory() as (fs, root):
        for i, d in enumerate(case["docs"]):
            fs.pipe_file(f"{root}/f{i}.{EXT[d['format']]}", D.text(d).encode())
        clients = [FilesystemClient("memory"), FilesystemClient("memory")]
        history(case, ctx, [(c.schema, lambda c=c: c.ls(root)) for c in clients],
                doc_objects(case, ctx, lambda i, d: f"{root}/f{i}.{EXT[d['format']]}"))


def subject_check(case, ctx):
    reg = FakeRegistry()
    for i, d in enumerate(case["docs"]):
        reg.register(f"s{i}-value", KIND[d["format"]], D.text(d))
    clients = [ConfluentRegistryClient(reg), ConfluentRegistryClient(reg)]
    history(case, ctx, [(c.schema, c.ls) for c in clients], doc_objects(case, ctx, lambda i, d: f"s{i}"))


# -------------------------------------------------------- reads at the same time

KINDS = ["postgresql", "postgresql", "mysql", "snowflake", "files", "subjects", "hive", "bigquery"]


@st.composite
def overlapping(draw):
    kinds = draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=3))
    if draw(st.booleans()):
        kinds = [kinds[0]] * len(kinds)
    jobs = []
    for k in kinds:
        if jobs and jobs[-1]["kind"] == k and draw(st.booleans()):
            jobs.append(jobs[-1])  # the same object again
        elif k in TYPES:
            t = draw(T.tables(TYPES[k](), max_columns=3))
            t.update(catalog="def" if k == "mysql" else "c", schema="s", name="t")
            jobs.append({"kind": k, "table": t})
        elif k in ("files", "subjects"):
            jobs.append({"kind": k, "doc": draw(D.documents())})
        elif k == "hive":
            jobs.append({"kind": k, "table": draw(H.tables(min_columns=1, max_columns=3, depth=2))})
        else:
            jobs.append({"kind": k, "fields": draw(c17.fields(1))})
    return {"jobs": jobs, "schedule": draw(st.lists(st.sampled_from([1, 1, 2, 3, 5, 8, 13, 21, 40, 100]), min_size=1, max_size=8))}


def prepare(job, fs, path):
    """How to get ready for a read, in the thread that is going to do it."""
    kind = job["kind"]

    def ready():
        done = lambda: None
        if kind in TYPES:
            t = job["table"]
            con = C.build({"dialect": kind, "catalogs": [t["catalog"]], "schemas": [[t["catalog"], t["schema"]]], "tables": [t], "seed": 1})
            client, done = c19.client_of(kind, con), con.close
            args = (t["schema"], t["name"]) if kind == "mysql" else (t["catalog"], t["schema"], t["name"])
        elif kind == "files":
            client, args = FilesystemClient("memory"), (path,)
        elif kind == "subjects":
            reg = FakeRegistry()
            reg.register("s-value", KIND[job["doc"]["format"]], D.text(job["doc"]))
            client, args = ConfluentRegistryClient(reg), ("s",)
        elif kind == "hive":
            client, args = HiveMetastoreClient(H.hms([job["table"]], {})), (job["table"]["database"], job["table"]["name"])
        else:
            client, args = BigQueryClient(c19.FakeBigQuery({"tables": [{"key": ["p", "d", "t"], "fields": job["fields"]}], "projects": ["p"]})), ("p", "d", "t")

        def work():
            value = client.schema(*args)
            return value, RT.to_dict(value)

        return work, done

    return ready


def overlap_check(case, ctx):
    with memory() as (fs, root):
        ready = []
        for i, job in enumerate(case["jobs"]):
            path = f"{root}/f{i}.{EXT[job['doc']['format']]}" if job["kind"] == "files" else None
            if path:
                fs.pipe_file(path, D.text(job["doc"]).encode())
            ready.append(prepare(job, fs, path))
        alone = []
        for r in ready:
            work, done = r()
            try:
                alone.append(work())
            finally:
                done()
        results, switches = interleave.run(ready, case["schedule"])
    ctx.interesting(switches > 1)
    ctx.label("same kind" if len({j["kind"] for j in case["jobs"]}) == 1 else "different kinds", "switches:" + ("0-1" if switches < 2 else "2-9" if switches < 10 else "10+"))
    for job, (value, err), (one, one_dict) in zip(case["jobs"], results, alone):
        ctx.require(err is None, lambda: f"reading {job} at the same time as others fails: {err!r}")
        got, got_dict = value
        d = M.diff(M.observe(got), M.observe(one))
        ctx.require(d is None, lambda: f"{job}: read at the same time as others, it is different: {d}")
        ctx.equal(got_dict, one_dict, f"{job}: document")


# ------------------------------------------------ what changes between two reads

@st.composite
def successions(draw):
    kind = draw(st.sampled_from(KINDS + ["sqlite"]))
    n = draw(st.integers(2, 3))
    if kind == "sqlite":
        # distinct columns per version; the types are C16's business
        states = [draw(st.lists(st.sampled_from(["a", "b", "c", "d"]), min_size=1, max_size=3, unique=True)) for _ in range(n)]
    elif kind in TYPES:
        states = [dict(draw(T.tables(TYPES[kind](), max_columns=3)), catalog="def" if kind == "mysql" else "c", schema="s", name="t") for _ in range(n)]
    elif kind in ("files", "subjects"):
        fmt = draw(st.sampled_from(D.FORMATS))
        states = [draw(D.documents((fmt,))) for _ in range(n)]
    elif kind == "hive":
        states = [dict(draw(H.tables(min_columns=1, max_columns=3, depth=2)), database="d", name="t") for _ in range(n)]
    else:
        states = [draw(c17.fields(1)) for _ in range(n)]
    order = draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=5))
    return {"kind": kind, "states": states, "order": order, "keep": draw(st.lists(st.booleans(), min_size=len(order), max_size=len(order)))}


class Now:
    """Stands for whatever is put in its place."""

    def __init__(self):
        self.__dict__["_now"] = None

    def __getattr__(self, name):
        return getattr(self._now, name)

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def succession_check(case, ctx):
    """A definition that was replaced is read as what it is now."""
    kind, states, order = case["kind"], case["states"], case["order"]
    ctx.label("kind:" + kind)
    ctx.interesting(len(set(order)) > 1)
    now = Now()
    with memory() as (fs, root), contextlib.ExitStack() as stack:
        path = f"{root}/f.{EXT[states[0]['format']]}" if kind == "files" else None
        if kind == "sqlite":
            con = stack.enter_context(contextlib.closing(sqlite3.connect(":memory:")))
        if kind == "subjects":
            now.__dict__["_now"] = FakeRegistry()

        def become(s):
            if kind == "sqlite":
                con.execute("DROP TABLE IF EXISTS t")
                con.execute("CREATE TABLE t (%s)" % ", ".join(f"{c} INT NOT NULL" for c in s))
            elif kind in TYPES:
                now.__dict__["_now"] = C.build({"dialect": kind, "catalogs": [s["catalog"]], "schemas": [[s["catalog"], s["schema"]]], "tables": [s], "seed": 1})
                stack.callback(now._now.close)
            elif kind == "files":
                fs.pipe_file(path, D.text(s).encode())
            elif kind == "subjects":
                now._now.register("s-value", KIND[s["format"]], D.text(s))
            elif kind == "hive":
                now.__dict__["_now"] = H.hms([s], {})
            else:
                now.__dict__["_now"] = c19.FakeBigQuery({"tables": [{"key": ["p", "d", "t"], "fields": s}], "projects": ["p"]})

        def client():
            if kind == "sqlite":
                return SQLiteClient(con)
            if kind in TYPES:
                return c19.client_of(kind, now)
            return {"files": lambda: FilesystemClient("memory"), "subjects": lambda: ConfluentRegistryClient(now),
                    "hive": lambda: HiveMetastoreClient(now), "bigquery": lambda: BigQueryClient(now)}[kind]()

        c = client()
        for i, (k, keep) in enumerate(zip(order, case["keep"])):
            s = states[k]
            become(s)
            c = c if keep else client()
            args = {"sqlite": ("t",), "mysql": ("s", "t"), "files": (path,), "subjects": ("s",), "hive": ("d", "t"), "bigquery": ("p", "d", "t")}.get(kind, ("c", "s", "t"))
            value, err = call(c.schema, *args)
            what = f"read {i} of {args}, which has changed"
            ctx.require(err is None, lambda: f"{what}: {err!r}")
            if kind == "sqlite":
                ctx.equal([f.extra_attrs.get("name") for f in value.fields], s, f"{what}: columns")
            elif kind in ("files", "subjects"):
                D.check(ctx, s, value, what)
            else:
                want = c19.want(ctx, kind, s, value) if kind in TYPES else H.want(s) if kind == "hive" else M.N("struct", fields=[c17.want(f) for f in s])
                d = M.diff(M.observe(value), want)
                ctx.require(d is None, lambda: f"{what}: {d}")


RULE = "random histories; non-trivial: an object read twice, or several objects"
PROPERTY = Property(
    "C20",
    [
        Facet("postgresql", lambda: db_cases("postgresql"), db_check, quick=150, thorough=3000, rule=RULE),
        Facet("mysql", lambda: db_cases("mysql"), db_check, quick=60, thorough=1500, rule=RULE),
        Facet("snowflake", lambda: db_cases("snowflake"), db_check, quick=60, thorough=1500, rule=RULE),
        Facet("sqlite", lambda: sqlite_cases(), sqlite_check, quick=60, thorough=1500, rule=RULE),
        Facet("hive", lambda: hive_cases(), hive_check, quick=60, thorough=1500, rule=RULE),
        Facet("bigquery", lambda: bq_cases(), bq_check, quick=60, thorough=1500, rule=RULE),
        Facet("files", lambda: doc_cases(), file_check, quick=120, thorough=2500, rule=RULE),
        Facet("subjects", lambda: doc_cases(), subject_check, quick=80, thorough=1500, rule=RULE),
        Facet("changes", lambda: successions(), succession_check, quick=150, thorough=3000,
              rule="a table, file or subject is replaced under the same name between reads; non-trivial: it changes at least once"),
        Facet("overlap", lambda: overlapping(), overlap_check, quick=200, thorough=4000,
              rule="two or three reads in threads of their own, with a client each, that take turns after a generated number of lines of Recap's code; non-trivial: at least two changes of turn"),
    ],
    assumptions=["database servers, metastore, BigQuery and schema registry are stand-ins that always answer the same"],
)
