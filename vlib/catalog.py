"""A database catalog as the clients' SQL sees it: a generated information schema
(and pg_catalog) held by an in-memory SQLite database, which runs the real queries."""
from __future__ import annotations

import json
import random
import re
import sqlite3

from . import tables as T

# arrays, among the text and binary values of a catalog
MARK = b"\0array:"
COLUMNS = ["TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "COLUMN_DEFAULT",
           "IS_NULLABLE", "DATA_TYPE", "CHARACTER_MAXIMUM_LENGTH", "CHARACTER_OCTET_LENGTH", "NUMERIC_PRECISION",
           "NUMERIC_SCALE", "DATETIME_PRECISION"]
EXTRA = {"postgresql": ["UDT_CATALOG", "UDT_SCHEMA", "UDT_NAME"], "mysql": ["COLUMN_TYPE", "COLUMN_KEY", "EXTRA", "COLUMN_COMMENT"], "snowflake": ["COMMENT"]}


class ArrayAgg:
    def __init__(self):
        self.values = []

    def step(self, v, *_):
        self.values.append(v)

    def finalize(self):
        return MARK + json.dumps(self.values).encode()


def decode(v):
    return json.loads(v[len(MARK):]) if isinstance(v, bytes) and v.startswith(MARK) else v


class Cursor:
    def __init__(self, connection):
        self.raw = connection.raw.cursor()
        self.log = connection.log

    def execute(self, query, parameters=()):
        self.log.append((query, parameters))
        q = re.sub(r"information_schema\s*\.\s*(\w+)\s*\.\s*\*", r"\1.*", query, flags=re.I)
        # PostgreSQL's casts, which change nothing here
        q = re.sub(r"::\s*\w+(\[\])?", "", q)
        if isinstance(parameters, dict):
            q = re.sub(r"%\((\w+)\)s", r":\1", q)
        else:
            q = q.replace("%s", "?")
        self.raw.execute(q, parameters if parameters is not None else ())
        return self

    @property
    def description(self):
        return self.raw.description

    @property
    def rowcount(self):
        return self.raw.rowcount

    def fetchall(self):
        return [tuple(decode(v) for v in r) for r in self.raw.fetchall()]

    def fetchone(self):
        r = self.raw.fetchone()
        return None if r is None else tuple(decode(v) for v in r)

    def fetchmany(self, size=1):
        return [tuple(decode(v) for v in r) for r in self.raw.fetchmany(size)]

    def __iter__(self):
        while (r := self.fetchone()) is not None:
            yield r

    def close(self):
        self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()


class Connection:
    def __init__(self, raw):
        self.raw = raw
        self.log = []

    def cursor(self, *_, **__):
        return Cursor(self)

    def commit(self):
        pass

    rollback = commit

    def close(self):
        self.raw.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass


def rows_of(t):
    rows = T.rows(t)
    for r in rows:
        r.update(TABLE_CATALOG=t["catalog"], TABLE_SCHEMA=t["schema"], TABLE_NAME=t["name"])
        if r.pop("COLUMN_TYPE_BYTES", False):
            r["COLUMN_TYPE"] = r["COLUMN_TYPE"].encode()
    return rows


def build(case) -> Connection:
    """case: dialect, catalogs, schemas [(catalog, schema)], tables, seed"""
    rng = random.Random(case["seed"])
    dialect = case["dialect"]
    case_of = str.lower if dialect == "postgresql" else str.upper
    raw = sqlite3.connect(":memory:")
    raw.create_aggregate("array_agg", -1, ArrayAgg)
    raw.execute("ATTACH ':memory:' AS information_schema")

    def table(db, name, columns, rows):
        raw.execute(f"CREATE TABLE {db}.{name} ({', '.join(columns)})")
        rows = list(rows)
        rng.shuffle(rows)
        raw.executemany(f"INSERT INTO {db}.{name} VALUES ({','.join('?' * len(columns))})", rows)

    up = lambda names: [case_of(n) for n in names]  # noqa: E731
    cols = COLUMNS + EXTRA[dialect]
    all_rows = [(t, r) for t in case["tables"] for r in rows_of(t)]
    table("information_schema", "columns", up(cols), [[r.get(c) for c in cols] for _, r in all_rows])
    table("information_schema", "tables", up(["TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE"]),
          [(t["catalog"], t["schema"], t["name"], "BASE TABLE") for t in case["tables"]])
    table("information_schema", "schemata", up(["CATALOG_NAME", "SCHEMA_NAME"]), [tuple(x) for x in case["schemas"]])
    if dialect == "snowflake":
        table("information_schema", "databases", up(["DATABASE_NAME", "DATABASE_OWNER"]), [(c, "o") for c in case["catalogs"]])
    if dialect == "postgresql":
        raw.execute("ATTACH ':memory:' AS pg_catalog")
        table("pg_catalog", "pg_database", ["oid", "datname", "datistemplate", "datallowconn"],
              [(i + 1, c, 0, 1) for i, c in enumerate(case["catalogs"])])
        spaces = {s: 2000 + i for i, (_, s) in enumerate(case["schemas"])}
        table("pg_catalog", "pg_namespace", ["oid", "nspname", "nspowner"], [(o, s, 10) for s, o in spaces.items()])
        classes, attributes, types, enums = [], [], {23: (23, "int4", 11, "b", 0)}, []
        oid = 16384
        for t in case["tables"]:
            oid += 1
            rel = oid
            classes.append((rel, t["name"], spaces[t["schema"]], "r"))
            for i, r in enumerate(rows_of(t)):
                typ = 23
                values = r.get("ENUM_VALUES")
                if values is not None:
                    oid += 1
                    typ = oid
                    types[typ] = (typ, r["UDT_NAME"], spaces[t["schema"]], "e", 0)
                    for k, v in enumerate(values):
                        oid += 1
                        # Labels added later lie between the others.
                        enums.append((oid, typ, 1.0 + k / 2, v))
                attributes.append((rel, r["COLUMN_NAME"], typ, i + 1, r["ATTNDIMS"], 0))
            attributes += [(rel, "ctid", 27, -1, 0, 0), (rel, "........pg.dropped.9........", 0, 99, 3, 1)]
        table("pg_catalog", "pg_class", ["oid", "relname", "relnamespace", "relkind"], classes)
        table("pg_catalog", "pg_attribute", ["attrelid", "attname", "atttypid", "attnum", "attndims", "attisdropped"], attributes)
        table("pg_catalog", "pg_type", ["oid", "typname", "typnamespace", "typtype", "typelem"], types.values())
        table("pg_catalog", "pg_enum", ["oid", "enumtypid", "enumsortorder", "enumlabel"], enums)
    return Connection(raw)
