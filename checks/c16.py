"""C16: SQLite tables read back as what SQLite itself stores."""
import sqlite3

import hypothesis
from hypothesis import strategies as st

from vlib import model as M
from vlib.harness import Facet, Property, call

from recap.clients.sqlite import SQLiteClient

MAX = 2_147_483_647

WORDS = ["INT", "INTEGER", "BIGINT", "CHAR", "CHARACTER", "VARYING", "VARCHAR", "NVARCHAR", "TEXT", "CLOB", "BLOB", "REAL", "DOUBLE",
         "PRECISION", "FLOAT", "FLOATING", "POINT", "NUMERIC", "DECIMAL", "BOOLEAN", "DATE", "DATETIME", "STRING", "UNSIGNED", "BIG",
         "NATIVE", "MONEY", "JSON", "UUID", "TEX", "BLO", "FLO", "DOU", "REA", "INX", "NT", "CHA", "CLO", "TINTED", "BLOBINT", "CHARBLOB", "REALTEXT", "DOUBLOB"]
names = st.one_of(
    st.sampled_from(["id", "a", "b", "t", "order", "select", "a b", "a.b", "main.t", "x\"y", "x'y", "[x]", "`x`", "ünï", "t)", "t); DROP TABLE t; --", "1", "-", "%s", "?"]),
    st.text(st.characters(blacklist_characters="\0", blacklist_categories=("Cs",)), min_size=1, max_size=6),
)
# Default clauses in a form SQLite accepts.
default_clauses = st.sampled_from(["0", "-1", "1.5", "'x'", "'it''s'", "NULL", "CURRENT_TIMESTAMP", "(1 + 2)", "x'00'", "''", "'NULL'", "TRUE"])


def quote(name):
    return '"' + name.replace('"', '""') + '"'


@st.composite
def columns(draw, strict):
    if strict:
        t, size = draw(st.sampled_from(["INT", "INTEGER", "REAL", "TEXT", "BLOB", "ANY"])), None
    else:
        n = draw(st.sampled_from([0, 1, 1, 1, 2, 2, 3]))
        words = [draw(st.sampled_from(WORDS)) for _ in range(n)]
        words = [w if draw(st.booleans()) else w.lower() if draw(st.booleans()) else w.title() for w in words]
        t = " ".join(words)
        size = None
        if words and draw(st.booleans()):
            size = draw(st.one_of(st.sampled_from([1, 5, 22, 23, 24, 25, 53, 255]), st.integers(1, MAX)))
            second = draw(st.sampled_from([None, None, 0, 2, 30]))
            sp = [draw(st.sampled_from(["", "", " "])) for _ in range(4)]
            t += sp[0] + "(" + sp[1] + str(size) + (f",{sp[2]}{second}" if second is not None else "") + sp[3] + ")"
    return {
        "type": t, "size": size,
        "notnull": draw(st.booleans()),
        "pk": draw(st.integers(0, 4)) == 0,
        "default": draw(st.one_of(st.none(), default_clauses)),
        "generated": not strict and draw(st.integers(0, 9)) == 0,
    }


@st.composite
def databases(draw):
    tables = []
    seen = set()
    for name in draw(st.lists(names, min_size=1, max_size=4)):
        if name.lower() in seen or name.lower().startswith("sqlite_"):
            continue
        seen.add(name.lower())
        strict = draw(st.integers(0, 4)) == 0
        cols, cseen = [], set()
        for cn in draw(st.lists(names, min_size=1, max_size=6)):
            if cn.lower() not in cseen:
                cseen.add(cn.lower())
                cols.append(dict(draw(columns(strict)), name=cn))
        if all(c["generated"] for c in cols):
            cols[0]["generated"] = False
        for c in cols:
            if c["generated"]:
                c.update(pk=False, default=None)
        tables.append({
            "name": name, "strict": strict, "columns": cols,
            "rowid": draw(st.booleans()) or not any(c["pk"] for c in cols),
        })
    return {"tables": tables, "extras": draw(st.booleans())}


def grid():
    """Every word, pairs of words, every size, with every kind of mark."""
    words = [[]] + [[w] for w in WORDS] + [[a, b] for i, a in enumerate(WORDS) for b in WORDS[i % 3::3]]
    defaults = [None, "0", "NULL", "''", "(1 + 2)", "'x'"]
    cols = []
    for i, ws in enumerate(words):
        for j, size in enumerate([None, "1", "23", "24", "53,2", "255"] if len(ws) == 1 else [None, ["23", "24", "7,0"][i % 3]]):
            if size is not None and not ws:
                continue
            k = i + j
            t = " ".join([str.upper, str.lower, str.title][(k + n) % 3](w) for n, w in enumerate(ws))
            cols.append({"type": t + (f"({size})" if size else ""), "size": int(size.split(",")[0]) if size else None,
                         "notnull": k % 2 == 0, "pk": k % 5 == 0, "default": defaults[k % 6], "generated": k % 7 == 3})
    strict = [{"type": t, "size": None, "notnull": n, "pk": p, "default": d, "generated": False}
              for t in ("INT", "INTEGER", "REAL", "TEXT", "BLOB", "ANY") for n in (False, True) for p in (False, True) for d in defaults[:3]]
    for part, is_strict in [(cols[i::97], False) for i in range(97)] + [(strict[i::6], True) for i in range(6)]:
        part = [dict(c, name=f"c{n}") for n, c in enumerate(part)]
        for c in part:
            if c["generated"]:
                c.update(pk=False, default=None)
        yield {"tables": [{"name": "t", "strict": is_strict, "columns": part, "rowid": True}], "extras": False}
        # alone: an integer primary key stands for the row id
        for c in part[:3]:
            if not c["generated"]:
                yield {"tables": [{"name": "t", "strict": is_strict, "columns": [c], "rowid": True}], "extras": False}


def ddl(t):
    parts = []
    for c in t["columns"]:
        s = f"{quote(c['name'])} {c['type']}"
        if c["notnull"]:
            s += " NOT NULL"
        if c["default"] is not None:
            s += f" DEFAULT {c['default']}"
        if c["generated"]:
            s += " GENERATED ALWAYS AS (1) STORED"
        parts.append(s)
    pk = [quote(c["name"]) for c in t["columns"] if c["pk"]]
    if pk:
        parts.append(f"PRIMARY KEY ({', '.join(pk)})")
    opts = ([] if t["rowid"] else ["WITHOUT ROWID"]) + (["STRICT"] if t["strict"] else [])
    return f"CREATE TABLE {quote(t['name'])} ({', '.join(parts)}) {', '.join(opts)}"


def affinities(con, t):
    """What SQLite itself makes of the declared types."""
    con.execute(f"CREATE TEMP TABLE temp.probe__ AS SELECT * FROM main.{quote(t['name'])}")
    out = [r[2] for r in con.execute("PRAGMA temp.table_info(probe__)")]
    con.execute("DROP TABLE temp.probe__")
    return out


def want_type(affinity, c, strict):
    if strict and c["type"] == "ANY":
        affinity = "NUM"
    if affinity == "INT":
        return M.I(64)
    if affinity == "REAL":
        return M.F(32 if c["size"] and c["size"] <= 23 else 64)
    if affinity == "TEXT":
        return M.S(c["size"] or MAX)
    if affinity == "":
        return M.B(c["size"] or MAX)
    assert affinity == "NUM", affinity
    return M.N("union", types=[M.N("null"), M.I(64), M.F(64), M.S(MAX), M.B(MAX)])


def want_field(node, c, default):
    nullable = not c["notnull"] and not c["pk"]
    if node["t"] == "union":
        node["extra"]["name"] = c["name"]
        if nullable or default is not None:
            node["extra"]["default"] = default
        return node
    if nullable:
        return M.N("union", types=[M.N("null"), node], extra={"default": default, "name": c["name"]})
    node["extra"]["name"] = c["name"]
    if default is not None:
        node["extra"]["default"] = default
    return node


def check(case, ctx):
    con = sqlite3.connect(":memory:")
    try:
        for t in case["tables"]:
            try:
                con.execute(ddl(t))
            except sqlite3.OperationalError:
                # not a table that can be created
                hypothesis.assume(False)
        first = case["tables"][0]["name"]
        views = []
        if case["extras"]:
            con.execute(f'CREATE VIEW "a view" AS SELECT * FROM {quote(first)}')
            con.execute(f"CREATE INDEX \"an index\" ON {quote(first)} ({quote(case['tables'][0]['columns'][0]['name'])})")
            views = ["a view", "an index"]
        client = SQLiteClient(con)
        listed = client.ls()
        ctx.equal(sorted(n for n in listed if not n.startswith("sqlite_")), sorted(t["name"] for t in case["tables"]), "listed tables")
        for t in case["tables"]:
            ctx.label("strict" if t["strict"] else "affinity")
            ctx.interesting(len(t["columns"]) > 1)
            aff = affinities(con, t)
            got = M.observe(client.schema(t["name"]))
            fields = []
            for a, c in zip(aff, t["columns"]):
                ctx.label("affinity:" + (a or "BLOB"))
                # The default is the text of the clause; an expression loses its parentheses.
                default = None if c["default"] is None else "1 + 2" if c["default"] == "(1 + 2)" else c["default"]
                fields.append(want_field(want_type(a, c, t["strict"]), c, default))
            d = M.diff(got, M.N("struct", fields=fields))
            ctx.require(d is None, lambda: f"{ddl(t)}: {d}")
        existing = [t["name"] for t in case["tables"]]
        for n in views + ["no such table", first + "x", "", "%", "_%", "*", "_" * len(first), first[:-1] + "_", first + "%", first + "'", f"{first}' OR 'a'='a"]:
            # names of tables are the same in either case
            if n.lower() not in [x.lower() for x in existing]:
                value, err = call(client.schema, n)
                ctx.require(err is not None, lambda: f"{n!r} is not a table, but was read as {M.show(M.observe(value))}")
    finally:
        con.close()


def virtual(case, ctx):
    """Virtual tables have hidden columns, which a query does not show."""
    con = sqlite3.connect(":memory:")
    try:
        try:
            con.execute(f"CREATE VIRTUAL TABLE {quote(case['name'])} USING {case['module']}({', '.join(map(quote, case['columns']))})")
        except sqlite3.OperationalError:
            ctx.label("not available:" + case["module"])
            return
        ctx.interesting()
        ctx.label("module:" + case["module"])
        client = SQLiteClient(con)
        ctx.require(case["name"] in client.ls(), "the table is not listed")
        shown = [d[0] for d in con.execute(f"SELECT * FROM {quote(case['name'])}").description]
        fields = [want_field(want_type(a, {"size": None, "type": ""}, False), {"name": n, "notnull": False, "pk": False}, None)
                  for a, n in zip(affinities(con, case), shown)]
        d = M.diff(M.observe(client.schema(case["name"])), M.N("struct", fields=fields))
        ctx.require(d is None, lambda: f"{case}: {d}")
    finally:
        con.close()


def virtual_tables():
    for module in ("fts5", "fts4", "fts3", "rtree", "rtree_i32"):
        for name in ("t", "a b", "docs"):
            for columns in (["id", "lo", "hi"], ["x", "y z", "w"], ["id", "x0", "x1", "y0", "y1"]):
                yield {"module": module, "name": name, "columns": columns}


PROPERTY = Property(
    "C16",
    [Facet("tables", lambda: databases(), check, quick=800, thorough=12000, enumerate_all=grid,
           rule="databases of 1-4 tables that SQLite accepts; non-trivial: a table with several columns"),
     Facet("virtual", None, virtual, enumerate_all=lambda: list(virtual_tables()), rule="virtual tables of the modules SQLite has here; all non-trivial")],
    assumptions=["the affinity of a declared type is what the installed SQLite gives a copy of the column"],
)
