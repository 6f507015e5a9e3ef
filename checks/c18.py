"""C18: Hive tables become the types the metastore declares."""
from hypothesis import strategies as st

from vlib import hive as H
from vlib import model as M
from vlib.harness import Facet, Property, call

from recap.clients.hive_metastore import HiveMetastoreClient
from recap.converters.hive_metastore import HiveMetastoreConverter


def depth(t):
    subs = [t.get("e"), t.get("key"), t.get("value"), *(f["type"] for f in t.get("f", ())), *t.get("t", ())]
    return 1 + max((depth(s) for s in subs if s), default=0)


def check(case, ctx):
    deep = max((depth(c["type"]) for c in case["columns"]), default=0)
    ctx.interesting(deep > 1 or len(case["columns"]) > 1)
    ctx.label(f"depth:{deep}", *{f"kind:{c['type']['k']}" for c in case["columns"]})
    client = H.hms([case])
    want = H.want(case)
    for how, got in (
        ("client", HiveMetastoreClient(client).schema(case["database"], case["name"])),
        ("converter", HiveMetastoreConverter().to_recap(client.get_table(case["database"], case["name"]))),
    ):
        d = M.diff(M.observe(got), want)
        ctx.require(d is None, lambda: f"{how}: {[(c['name'], H.render(c['type'])) for c in case['columns']]}: {d}")


def grid():
    """Every type at its limits, in every position, with and without a comment."""
    leaves = [{"k": k} for k in sorted(H.PLAIN)]
    leaves += [{"k": "decimal", "p": p, "s": s} for p, s in ((None, None), (1, 0), (1, 1), (10, 0), (10, 2), (38, 0), (38, 38), (5, 0))]
    leaves += [{"k": "varchar", "n": n} for n in (1, 255, 256, 65535)] + [{"k": "char", "n": n} for n in (1, 2, 254, 255)]
    string, integer = {"k": "string"}, {"k": "int"}
    places = [
        lambda x: x,
        lambda x: {"k": "array", "e": x},
        lambda x: {"k": "array", "e": {"k": "array", "e": x}},
        lambda x: {"k": "map", "key": string, "value": x},
        lambda x: {"k": "map", "key": x, "value": integer},
        lambda x: {"k": "map", "key": integer, "value": {"k": "array", "e": x}},
        lambda x: {"k": "struct", "f": [{"name": "a", "type": x}, {"name": "b", "type": string}]},
        lambda x: {"k": "struct", "f": [{"name": "b", "type": {"k": "struct", "f": [{"name": "a", "type": x}]}}]},
        lambda x: {"k": "array", "e": {"k": "struct", "f": [{"name": "a", "type": x}]}},
        lambda x: {"k": "uniontype", "t": [x]},
        lambda x: {"k": "uniontype", "t": [integer, x]},
        lambda x: {"k": "uniontype", "t": [x, string, x]},
        lambda x: {"k": "uniontype", "t": [{"k": "uniontype", "t": [x, integer]}, string]},
        lambda x: {"k": "array", "e": {"k": "uniontype", "t": [x, {"k": "array", "e": x}]}},
    ]
    nested = [p(leaf) for leaf in leaves for p in places]
    nested += [p(q(leaf)) for leaf in (leaves[0], {"k": "decimal", "p": 10, "s": 2}, {"k": "char", "n": 7}, {"k": "void"}) for p in places for q in places]
    for i, t in enumerate(nested):
        yield {"database": "db", "name": "t", "partitions": [{"name": "ds", "type": string, "comment": "p"}] if i % 5 == 0 else [],
               "columns": [{"name": "c", "type": t, "comment": ["about", None, ""][i % 3]}, {"name": "d", "type": integer, "comment": None}]}


def large():
    """Deep types and wide tables."""
    string = {"k": "string"}
    wraps = [lambda x, i: {"k": "array", "e": x}, lambda x, i: {"k": "map", "key": string, "value": x},
             lambda x, i: {"k": "struct", "f": [{"name": f"a{i}", "type": x}, {"name": f"b{i}", "type": string}]},
             lambda x, i: {"k": "uniontype", "t": [string, x]}]
    columns = []
    for depth in (6, 12):
        for how in range(5):
            t = {"k": "decimal", "p": 10, "s": 2}
            for i in range(depth):
                t = wraps[how if how < 4 else i % 4](t, i)
            columns.append({"name": f"c{depth}_{how}", "type": t, "comment": "deep"})
    columns.append({"name": "wide", "type": {"k": "struct", "f": [{"name": f"f{i}", "type": {"k": "varchar", "n": i + 1}} for i in range(200)]}, "comment": None})
    columns.append({"name": "many", "type": {"k": "uniontype", "t": [{"k": "varchar", "n": i + 1} for i in range(60)]}, "comment": None})
    yield {"database": "db", "name": "t", "partitions": [], "columns": columns}
    plain = sorted(H.PLAIN)
    yield {"database": "db", "name": "t", "partitions": [{"name": f"p{i}", "type": string, "comment": None} for i in range(10)],
           "columns": [{"name": f"c{i}", "type": {"k": plain[i % len(plain)]}, "comment": f"d{i}" if i % 3 else None} for i in range(400)]}


@st.composite
def catalogs(draw):
    ts = draw(st.lists(H.tables(max_columns=2, depth=1), max_size=5, unique_by=lambda t: (t["database"], t["name"])))
    return {"tables": ts, "empty": draw(st.booleans())}


def listing(case, ctx):
    ctx.interesting(len(case["tables"]) > 1)
    client = H.hms(case["tables"])
    dbs = list(dict.fromkeys(t["database"] for t in case["tables"])) + (["nothing"] if case["empty"] else [])
    client.client.databases = dbs
    c = HiveMetastoreClient(client)
    ctx.equal(sorted(c.ls()), sorted(dbs), "databases")
    for db in dbs:
        ctx.equal(sorted(c.ls(db)), sorted(t["name"] for t in case["tables"] if t["database"] == db), f"tables of {db!r}")
    for t in case["tables"]:
        d = M.diff(M.observe(c.schema(t["database"], t["name"])), H.want(t))
        ctx.require(d is None, lambda: f"{t['database']}.{t['name']}: {d}")
    missing = [("default", "absent"), ("absent", "t")]
    for db, name in missing:
        v, err = call(c.schema, db, name)
        ctx.require(err is not None, lambda: f"{db}.{name} does not exist but was read as {v!r}")


PROPERTY = Property(
    "C18",
    [
        Facet("tables", lambda: H.tables(), check, quick=900, thorough=15000,
              rule="random tables; non-trivial: several columns or a nested type"),
        Facet("grid", None, check, enumerate_all=lambda: list(grid()) + list(large()),
              rule="every type at its limits in every position; non-trivial: several columns or a nested type"),
        Facet("catalogs", lambda: catalogs(), listing, quick=150, thorough=2000,
              rule="several databases and tables; non-trivial: more than one table"),
    ],
    assumptions=["types are parsed by the installed pymetastore library; its thrift connection is replaced"],
)
