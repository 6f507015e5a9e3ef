"""Generated Hive tables served through the real metastore client library."""
from __future__ import annotations

import copy

from hypothesis import strategies as st
from pymetastore.hive_metastore import ttypes
from pymetastore.metastore import HMS

from . import model as M

PLAIN = {
    "void": M.N("null"),
    "boolean": M.N("bool"),
    "tinyint": M.I(8), "smallint": M.I(16), "int": M.I(32), "bigint": M.I(64),
    "float": M.F(32), "double": M.F(64),
    "string": M.S(None),
    "binary": M.B(2147483647),
    "date": M.I(32, logical="build.recap.Date", unit="day"),
    "timestamp": M.I(64, logical="build.recap.Timestamp", unit="nanosecond", timezone="UTC"),
    "timestamp with local time zone": M.I(64, logical="build.recap.Timestamp", unit="nanosecond", timezone=None),
    "interval_year_month": M.B(12, logical="build.recap.Interval", signed=True, unit="month"),
    "interval_day_time": M.B(12, logical="build.recap.Interval", signed=True, unit="second"),
}

column_names = st.one_of(
    st.sampled_from(["id", "a", "b", "name", "type", "doc", "default", "_c0", "a.b", "A", "x y", "ünï", "union"]),
    st.text(alphabet=st.sampled_from("abAB_09.$ é"), min_size=1, max_size=6),
)
# Names inside a type string have to survive the client library's tokenizer.
inner_names = st.one_of(
    st.sampled_from(["id", "a", "b", "name", "type", "int", "struct", "_x", "a.b", "a b", "$", "É", "default"]),
    st.text(alphabet=st.sampled_from("abAB_09"), min_size=1, max_size=4),
)


@st.composite
def types(draw, depth=4, budget=None):
    budget = budget if budget is not None else [16]
    budget[0] -= 1
    ks = sorted(PLAIN) + ["decimal", "varchar", "char"] * 2
    if depth > 0 and budget[0] > 0:
        ks += ["array", "map", "struct", "uniontype"] * 7
    k = draw(st.sampled_from(ks))
    t = {"k": k}
    if k == "decimal":
        t["p"] = draw(st.one_of(st.none(), st.integers(1, 38)))
        t["s"] = draw(st.integers(0, t["p"])) if t["p"] else None
    elif k == "varchar":
        t["n"] = draw(st.sampled_from([1, 255, 256, 65535]) | st.integers(1, 65535))
    elif k == "char":
        t["n"] = draw(st.sampled_from([1, 255]) | st.integers(1, 255))
    elif k == "array":
        t["e"] = draw(types(depth - 1, budget))
    elif k == "map":
        t["key"] = draw(types(0, budget)) if draw(st.integers(0, 3)) else draw(types(depth - 1, budget))
        t["value"] = draw(types(depth - 1, budget))
    elif k == "struct":
        t["f"] = [{"name": n, "type": draw(types(depth - 1, budget))}
                  for n in draw(st.lists(inner_names, min_size=1, max_size=draw(st.sampled_from([3, 3, 3, 3, 12]))))]
    elif k == "uniontype":
        t["t"] = [draw(types(depth - 1, budget)) for _ in range(draw(st.integers(1, draw(st.sampled_from([3, 3, 3, 7])))))]
    return t


def render(t):
    k = t["k"]
    if k == "decimal":
        return "decimal" if t["p"] is None else f"decimal({t['p']},{t['s']})"
    if k in ("varchar", "char"):
        return f"{k}({t['n']})"
    if k == "array":
        return f"array<{render(t['e'])}>"
    if k == "map":
        return f"map<{render(t['key'])},{render(t['value'])}>"
    if k == "struct":
        return "struct<" + ",".join(f"{f['name']}:{render(f['type'])}" for f in t["f"]) + ">"
    if k == "uniontype":
        return "uniontype<" + ",".join(render(x) for x in t["t"]) + ">"
    return k


def bare(t):
    k = t["k"]
    if k in PLAIN:
        return copy.deepcopy(PLAIN[k])
    if k == "decimal":
        return M.B(16, False, logical="build.recap.Decimal", precision=t["p"] or 10, scale=t["s"] or 0)
    if k == "varchar":
        return M.S(t["n"])
    if k == "char":
        return M.S(t["n"], False)
    if k == "array":
        return M.N("list", values=nullable(t["e"]))
    if k == "map":
        return M.N("map", keys=nullable(t["key"]), values=nullable(t["value"]))
    if k == "struct":
        return M.N("struct", fields=[named(nullable(f["type"]), f["name"]) for f in t["f"]])
    raise AssertionError(k)


def alternatives(t):
    """What a union member contributes: nested unions are spread out."""
    if t["k"] != "uniontype":
        return [bare(t)]
    return [a for x in t["t"] for a in alternatives(x)]


def nullable(t):
    """Everything in Hive may be null, at every level."""
    if t["k"] == "void":
        return bare(t)
    alts = [M.N("null")]
    for a in alternatives(t):
        if a not in alts:
            alts.append(a)
    return M.N("union", types=alts, default=None)


def named(node, name):
    node["extra"]["name"] = name
    return node


@st.composite
def tables(draw, min_columns=0, max_columns=5, depth=4):
    cols, budget = [], [24]
    for n in draw(st.lists(column_names, min_size=min_columns, max_size=max_columns, unique=True)):
        cols.append({
            "name": n, "type": draw(types(depth, budget)),
            "comment": draw(st.one_of(st.none(), st.sampled_from(["", "about", "a, b <c>\n'd'"]), st.text(max_size=5))),
        })
    parts = [{"name": n, "type": {"k": "string"}, "comment": None}
             for n in draw(st.lists(st.sampled_from(["ds", "hour"]), max_size=2, unique=True))
             if n not in [c["name"] for c in cols]]
    return {"database": draw(st.sampled_from(["default", "db", "Ünï"])),
            "name": draw(st.sampled_from(["t", "my_table", "T.x"])), "columns": cols, "partitions": parts}


def want(table):
    fields = []
    for c in table["columns"]:
        n = named(nullable(c["type"]), c["name"])
        n["doc"] = c["comment"] or None
        fields.append(n)
    return M.N("struct", fields=fields, name=table["name"])


def thrift_table(t):
    def cols(cs):
        return [ttypes.FieldSchema(c["name"], render(c["type"]), c["comment"]) for c in cs]

    return ttypes.Table(
        tableName=t["name"], dbName=t["database"], owner="o", createTime=0, lastAccessTime=0, retention=0,
        sd=ttypes.StorageDescriptor(
            cols=cols(t["columns"]), location="/x", inputFormat="in", outputFormat="out", compressed=False,
            numBuckets=-1, bucketCols=[], sortCols=[], parameters={},
            serdeInfo=ttypes.SerDeInfo(name="s", serializationLib="lib", parameters={}),
        ),
        partitionKeys=cols(t["partitions"]), parameters={}, tableType="MANAGED_TABLE",
    )


class FakeMetastore:
    """The thrift service: answers for the tables it was given and nothing else."""

    def __init__(self, tables_, stats=None):
        self.tables = {(t["database"], t["name"]): t for t in tables_}
        self.stats = stats or {}
        self.databases = None

    def get_all_databases(self):
        return list(self.databases) if self.databases is not None else list(dict.fromkeys(d for d, _ in self.tables))

    def get_all_tables(self, db):
        return [n for d, n in self.tables if d == db]

    def get_table(self, db, name):
        if (db, name) not in self.tables:
            raise ttypes.NoSuchObjectException(f"{db}.{name}")
        return thrift_table(self.tables[db, name])

    def get_table_column_statistics(self, db, name, col):
        obj = self.stats.get((db, name, col))
        desc = ttypes.ColumnStatisticsDesc(isTblLevel=True, dbName=db, tableName=name, catName="hive")
        return ttypes.ColumnStatistics(statsDesc=desc, statsObj=copy.deepcopy(obj) if obj else [])


def hms(tables_, stats=None):
    return HMS(FakeMetastore(tables_, stats))
