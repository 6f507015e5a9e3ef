"""C19: A database client reads exactly the catalog objects asked for."""
import copy
from types import SimpleNamespace

from google.cloud import bigquery
from hypothesis import strategies as st

from checks import c13, c14, c15, c17
from vlib import catalog as C, model as M, tables as T
from vlib.harness import Facet, Property, call

from recap.clients.bigquery import BigQueryClient
from recap.clients.mysql import MysqlClient
from recap.clients.postgresql import PostgresqlClient
from recap.clients.snowflake import SnowflakeClient

NAMES = ["a", "b", "A", "t", "public", "a'b", "%", "_", "a b", "%s", "x' OR '1'='1", "ünï", "?", '"q"', "a.b", "a;--", "é", "\\", "1"]
names = st.one_of(st.sampled_from(NAMES[:5]), st.sampled_from(NAMES), st.text(min_size=1, max_size=5))
TYPES = {"postgresql": c13.types, "mysql": c14.types, "snowflake": c15.types}


@st.composite
def cases(draw, dialect):
    pool = draw(st.lists(names, min_size=1, max_size=4, unique=True))
    pick = st.sampled_from(pool)
    catalogs = ["def"] if dialect == "mysql" else draw(st.lists(pick, min_size=1, max_size=3, unique=True))
    # PostgreSQL and MySQL describe one catalog only.
    here = catalogs if dialect == "snowflake" else catalogs[:1]
    tables = []
    # With few names, tables of the same name in several places are the rule.
    for key in draw(st.lists(st.tuples(st.sampled_from(here), pick, pick), max_size=5, unique=True)):
        t = draw(T.tables(TYPES[dialect](), max_columns=3))
        t.update(catalog=key[0], schema=key[1], name=key[2])
        tables.append(t)
    schemas = list(dict.fromkeys(
        [(t["catalog"], t["schema"]) for t in tables] + draw(st.lists(st.tuples(st.sampled_from(here), pick), max_size=2))))
    return {"dialect": dialect, "catalogs": catalogs, "schemas": [list(s) for s in schemas], "tables": tables,
            "seed": draw(st.integers(0, 999)), "absent": [draw(names) for _ in range(3)]}


def client_of(dialect, connection):
    return {"postgresql": PostgresqlClient, "mysql": MysqlClient, "snowflake": SnowflakeClient}[dialect](connection)


def want(ctx, dialect, t, struct):
    if dialect == "postgresql":
        got = M.observe(struct)
        ctx.equal(len(got["fields"]), len(t["columns"]), f"number of columns of {t['name']!r}")
        aliases = T.check_arrays(ctx, struct, got)
        types = [c13.want_type(c, False, a) for c, a in zip(t["columns"], aliases)]
    else:
        types = [(c14 if dialect == "mysql" else c15).want_type(c) for c in t["columns"]]
    return M.N("struct", fields=[T.field(n, c) for n, c in zip(types, t["columns"])])


def check(case, ctx):
    if "many" in case:
        case = many(case)
    dialect = case["dialect"]
    tables = case["tables"]
    ctx.label("dialect:" + dialect, f"tables:{len(tables)}")
    clash = len({t["name"] for t in tables}) < len(tables)
    ctx.interesting(clash or any(n not in ("a", "b", "A", "t", "public") for t in tables for n in (t["name"], t["schema"])))
    if clash:
        ctx.label("same name twice")
    connection = C.build(case)
    try:
        client = client_of(dialect, connection)
        mysql = dialect == "mysql"
        if not mysql:
            ctx.equal(sorted(client.ls()), sorted(case["catalogs"]), "catalogs")
        for cat in case["catalogs"]:
            ctx.equal(sorted(client.ls() if mysql else client.ls(cat)), sorted(s for c, s in case["schemas"] if c == cat), f"schemas of {cat!r}")
        for cat, s in case["schemas"]:
            ctx.equal(sorted(client.ls(s) if mysql else client.ls(cat, s)),
                      sorted(t["name"] for t in tables if (t["catalog"], t["schema"]) == (cat, s)), f"tables of {cat!r}, {s!r}")
        for t in tables:
            if t["name"] not in case.get("read", [t["name"]]):
                continue
            where = (t["schema"], t["name"]) if mysql else (t["catalog"], t["schema"], t["name"])
            struct = client.schema(*where)
            d = M.diff(M.observe(struct), want(ctx, dialect, t, struct))
            ctx.require(d is None, lambda: f"table {where}: {d}")
        # what is not there is not answered with something else
        absent = tuple(case["absent"])
        if mysql:
            absent = ("def", *absent[1:])
        if absent not in {(t["catalog"], t["schema"], t["name"]) for t in tables}:
            value, err = call(client.schema, *(absent[1:] if mysql else absent))
            ctx.require(err is not None or not value.fields, lambda: f"{absent} does not exist but was read as {M.show(M.observe(value))}")
        if (absent[0], absent[1]) not in {(c, s) for c, s in case["schemas"]}:
            value, err = call(client.ls, *(absent[1:2] if mysql else absent[:2]))
            ctx.require(err is not None or not value, lambda: f"{absent[:2]} does not exist but lists {value}")
    finally:
        connection.close()


LETTERS = {"postgresql": [{"k": "array", "row": {"DATA_TYPE": "ARRAY", "UDT_NAME": "_int4", "ATTNDIMS": 2}}, {"k": "plain", "row": {"DATA_TYPE": "integer"}},
                          {"k": "enum", "row": {"DATA_TYPE": "USER-DEFINED", "UDT_NAME": "mood", "ENUM_VALUES": ["x", "y"]}}],
           "mysql": [{"k": "int", "row": {"DATA_TYPE": "int", "COLUMN_TYPE": "int"}}],
           "snowflake": [{"k": "number", "row": {"DATA_TYPE": "NUMBER", "NUMERIC_PRECISION": 38, "NUMERIC_SCALE": 0}}]}


def letters(dialect):
    """Columns and tables that differ only in the case of letters, or in what a pattern would match."""
    cat = "def" if dialect == "mysql" else "db"
    out = []
    for a, b in (("a", "A"), ("A", "a"), ("é", "É"), ("_", "x"), ("x_", "xy"), ("a ", "a")):
        for i in range(len(LETTERS[dialect]) + 1):
            types = [LETTERS[dialect][(i + k) % len(LETTERS[dialect])] for k in (0, 1)]
            if i == len(LETTERS[dialect]):
                types = types[:1] * 2
            # MySQL's names of columns are the same in either case
            names = (a, "b" if dialect == "mysql" and a.lower() == b.lower() else b)
            cols = [dict(copy.deepcopy(t), name=n, nullable=n == a, default=None) for t, n in zip(types, names)]
            tables = [{"catalog": cat, "schema": s, "name": n, "columns": cols if (s, n) == (a, a) else cols[:1]} for s in (a, b) for n in (a, b)]
            out.append({"dialect": dialect, "catalogs": [cat], "schemas": [[cat, a], [cat, b]], "tables": tables, "seed": i, "absent": [cat, a, "no such"]})
    return out


def many(case):
    """Catalogs with more of everything than fits one page or one digit."""
    dialect, n = case["dialect"], case["many"]
    column = dict({"postgresql": {"k": "plain", "row": {"DATA_TYPE": "integer"}}, "mysql": {"k": "int", "row": {"DATA_TYPE": "int", "COLUMN_TYPE": "int"}},
                   "snowflake": {"k": "number", "row": {"DATA_TYPE": "NUMBER", "NUMERIC_PRECISION": 38, "NUMERIC_SCALE": 0}}}[dialect],
                  nullable=False, default=None)
    cats = ["def"] if dialect == "mysql" else [f"c{i}" for i in range(n)]
    small = {"catalog": cats[0], "schema": "s", "columns": [dict(column, name="x")]}
    return {"dialect": dialect, "catalogs": cats, "schemas": [[cats[0], "s"]] + [[cats[0], f"s{i}"] for i in range(n)],
             "tables": [dict(small, name="big", columns=[dict(column, name=f"c{i}", nullable=i % 3 == 0) for i in range(n)])]
             + [dict(small, name=f"t{i}") for i in range(n)], "seed": n, "absent": ["no", "such", "table"],
             "read": ["big", "t0", "t2"]}


# BigQuery

WORDS = ["a", "b", "A", "t", "a_b", "x1", "_", "public", "id"]
bq_names = st.one_of(st.sampled_from(WORDS[:4]), st.sampled_from(WORDS), st.text("abAB_12", min_size=1, max_size=4))


@st.composite
def bq_cases(draw):
    pool = draw(st.lists(bq_names, min_size=1, max_size=3, unique=True))
    pick = st.sampled_from(pool)
    tables = [{"key": list(k), "fields": draw(c17.fields(1))} for k in draw(st.lists(st.tuples(pick, pick, pick), max_size=5, unique=True))]
    return {"tables": tables, "projects": pool, "absent": [draw(bq_names) for _ in range(3)]}


def bq_many(n):
    field = {"type": "INT64", "mode": "REQUIRED", "description": None, "default": None}
    one = [dict(field, name="x")]
    tables = [{"key": ["p", "d", "big"], "fields": [dict(field, name=f"c{i}") for i in range(n)]}]
    tables += [{"key": ["p", "d", f"t{i}"], "fields": one} for i in range(n)] + [{"key": ["p", f"d{i}", "t"], "fields": one} for i in range(n)]
    return {"tables": tables, "projects": ["p"] + [f"p{i}" for i in range(n)], "absent": ["p", "d", "no"], "read": ["big", "t0"]}


class FakeBigQuery:
    """The part of google.cloud.bigquery.Client that names things, with its
    real references and items."""

    project = "the_default_project"

    def __init__(self, case):
        self.case = case

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    @staticmethod
    def _page(items, limit):
        return iter(items if limit is None else items[:limit])

    def list_projects(self, max_results=None, *_, **__):
        return self._page([SimpleNamespace(project_id=p, friendly_name="x", numeric_id="1") for p in self.case["projects"]], max_results)

    def list_datasets(self, project=None, include_all=False, filter=None, max_results=None, *_, **__):
        project = project or self.project
        return self._page([SimpleNamespace(
            dataset_id=d, project=project, full_dataset_id=f"{project}:{d}", friendly_name="x", labels={},
            reference=bigquery.DatasetReference(project, d),
        ) for d in dict.fromkeys(t["key"][1] for t in self.case["tables"] if t["key"][0] == project)], max_results)

    def dataset(self, dataset_id, project=None):
        return bigquery.DatasetReference(project or self.project, dataset_id)

    def list_tables(self, dataset, max_results=None, *_, **__):
        if isinstance(dataset, str):
            dataset = bigquery.DatasetReference.from_string(dataset, default_project=self.project)
        dataset = getattr(dataset, "reference", dataset)
        key = [dataset.project, dataset.dataset_id]
        return self._page([bigquery.table.TableListItem({"tableReference": {"projectId": t["key"][0], "datasetId": t["key"][1], "tableId": t["key"][2]}})
                           for t in self.case["tables"] if t["key"][:2] == key], max_results)

    def get_table(self, table, *_, **__):
        if isinstance(table, str):
            table = bigquery.TableReference.from_string(table, default_project=self.project)
        for t in self.case["tables"]:
            if t["key"] == [table.project, table.dataset_id, table.table_id]:
                return bigquery.Table(bigquery.TableReference(bigquery.DatasetReference(*t["key"][:2]), t["key"][2]),
                                      schema=[c17.build(f) for f in t["fields"]])
        raise LookupError("not found")


def bq_check(case, ctx):
    if "many" in case:
        case = bq_many(case["many"])
    ctx.interesting(len(case["tables"]) > 1)
    client = BigQueryClient(FakeBigQuery(case))
    ctx.equal(sorted(client.ls()), sorted(case["projects"]), "projects")
    for p in case["projects"]:
        ctx.equal(sorted(client.ls(p)), sorted({t["key"][1] for t in case["tables"] if t["key"][0] == p}), f"datasets of {p!r}")
    for p, d in sorted({tuple(t["key"][:2]) for t in case["tables"]})[:20]:
        ctx.equal(sorted(client.ls(p, d)), sorted(t["key"][2] for t in case["tables"] if t["key"][:2] == [p, d]), f"tables of {p!r}, {d!r}")
    for t in case["tables"]:
        if t["key"][2] not in case.get("read", [t["key"][2]]):
            continue
        d = M.diff(M.observe(client.schema(*t["key"])), M.N("struct", fields=[c17.want(f) for f in t["fields"]]))
        ctx.require(d is None, lambda: f"table {t['key']}: {d}")
    if case["absent"] not in [t["key"] for t in case["tables"]]:
        value, err = call(client.schema, *case["absent"])
        ctx.require(err is not None, lambda: f"{case['absent']} does not exist but was read as {value!r}")


PROPERTY = Property(
    "C19",
    [
        Facet(d, (lambda d=d: cases(d)), check, quick=250, thorough=5000,
              examples=[{'dialect': d, 'many': n} for n in (12, 1100)] + letters(d),
              rule="random catalogs; non-trivial: the same table name in two places, or a name that is no plain word")
        for d in ("postgresql", "mysql", "snowflake")
    ] + [Facet("bigquery", lambda: bq_cases(), bq_check, examples=[{'many': 12}, {'many': 1100}], quick=120, thorough=2000, rule="random projects; non-trivial: at least two tables")],
    assumptions=["the database's information schema is a generated one in SQLite, which runs the clients' SQL with standard comparison semantics"],
)
