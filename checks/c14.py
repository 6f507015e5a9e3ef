"""C14: MySQL columns become the types the database declares."""
import copy

from hypothesis import strategies as st

from vlib import model as M, tables as T
from vlib.harness import Facet, Property, call

from recap.converters.mysql import MysqlConverter

INTS = {"bigint": 64, "int": 32, "integer": 32, "mediumint": 24, "smallint": 16, "tinyint": 8}
STRINGS = ["text", "json", "mediumtext", "longtext", "tinytext", "varchar"]
FIXED_STRINGS = ["char", "enum", "set"]
BLOBS = ["blob", "mediumblob", "longblob", "tinyblob", "varbinary"]
DEC = ["dec", "decimal", "numeric"]
UNSUPPORTED = ["date", "time", "geometry", "point", "linestring", "polygon", "geomcollection", "vector", "serial8", "int4", "money"]


@st.composite
def types(draw, bad=False):
    k = "unsupported" if bad else draw(st.sampled_from(
        ["int", "int", "float", "double", "string", "fixed", "blob", "binary", "bit", "stamp", "decimal", "year"]))
    row = {}
    tail = ""
    if k == "int":
        word = draw(st.sampled_from(sorted(INTS)))
        row.update(NUMERIC_PRECISION=draw(st.sampled_from([3, 5, 7, 10, 19, 20])), NUMERIC_SCALE=0)
        tail = draw(st.sampled_from(["", "", "(10)"])) + draw(st.sampled_from(["", "", " unsigned", " unsigned zerofill", " UNSIGNED"]))
    elif k == "float":
        word = "float"
        row.update(NUMERIC_PRECISION=draw(st.one_of(st.sampled_from([12, 22, 23, 24, 25, 53]), st.integers(1, 53))))
        tail = draw(st.sampled_from(["", " unsigned"]))
    elif k == "double":
        word = "double"
        row.update(NUMERIC_PRECISION=draw(st.sampled_from([22, 5, None])))
    elif k == "string":
        word = draw(st.sampled_from(STRINGS))
        row.update(CHARACTER_OCTET_LENGTH=draw(st.one_of(T.octets, st.none())), CHARACTER_MAXIMUM_LENGTH=11)
    elif k == "fixed":
        word = draw(st.sampled_from(FIXED_STRINGS))
        row.update(CHARACTER_OCTET_LENGTH=draw(T.octets), CHARACTER_MAXIMUM_LENGTH=11)
        tail = "('unsigned','b')" if word != "char" else "(11)"
    elif k == "blob":
        word = draw(st.sampled_from(BLOBS))
        row.update(CHARACTER_OCTET_LENGTH=draw(T.octets), CHARACTER_MAXIMUM_LENGTH=11)
    elif k == "binary":
        word = "binary"
        row.update(CHARACTER_OCTET_LENGTH=draw(T.octets), CHARACTER_MAXIMUM_LENGTH=11)
    elif k == "bit":
        word = "bit"
        row.update(NUMERIC_PRECISION=draw(st.integers(1, 64)))
    elif k == "stamp":
        word = draw(st.sampled_from(["timestamp", "datetime"]))
        row.update(DATETIME_PRECISION=draw(st.integers(0, 6)))
    elif k == "decimal":
        word = draw(st.sampled_from(DEC))
        row.update(NUMERIC_PRECISION=draw(st.integers(1, 65)), NUMERIC_SCALE=draw(st.integers(0, 30)))
        tail = draw(st.sampled_from(["(5,2)", "(5,2) unsigned"]))
    elif k == "year":
        word = "year"
    else:
        word = draw(st.sampled_from(UNSUPPORTED))
    row["DATA_TYPE"] = draw(T.spelled(word))
    if draw(st.integers(0, 5)) or "unsigned" in tail.lower():
        row["COLUMN_TYPE"] = word + tail
        if draw(st.integers(0, 4)) == 0:
            row["COLUMN_TYPE_BYTES"] = True
    return {"k": k, "row": row}


@st.composite
def cases(draw, bad=False):
    case = draw(T.tables(types()))
    if bad:
        c = dict(draw(types(bad=True)), name="bad one", nullable=draw(st.booleans()), default=None)
        case["columns"].insert(draw(st.integers(0, len(case["columns"]))), c)
    return case


def every_type():
    def some(k, word, tail=None, **row):
        for i, s in enumerate(T.spellings(word)):
            r = {**row, "DATA_TYPE": s}
            if tail is not None:
                r["COLUMN_TYPE"] = word + tail
                if i == 1:
                    r["COLUMN_TYPE_BYTES"] = True
            yield {"k": k, "row": r}

    for w in sorted(INTS):
        for tail in (None, "", "(10)", " unsigned", "(10) unsigned", " unsigned zerofill", " UNSIGNED", "(20) unsigned zerofill", " zerofill unsigned"):
            yield from some("int", w, tail, NUMERIC_PRECISION=10, NUMERIC_SCALE=0)
    for p in range(1, 54):
        yield from some("float", "float", "", NUMERIC_PRECISION=p)
    for p in (None, 5, 22, 53):
        yield from some("double", "double", "", NUMERIC_PRECISION=p)
    for w in STRINGS:
        for n in (None, 1, 255, 65535, 4294967295):
            yield from some("string", w, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=n and max(1, n // 4))
    for k, words in (("fixed", FIXED_STRINGS), ("blob", BLOBS), ("binary", ["binary"])):
        for w in words:
            for n in (1, 4, 255, 65535, 4294967295):
                yield from some(k, w, "('unsigned')" if w in ("enum", "set") else None, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=max(1, n // 4))
    for n in range(1, 65):
        yield from some("bit", "bit", f"({n})", NUMERIC_PRECISION=n)
    for w in ("timestamp", "datetime"):
        for p in range(7):
            yield from some("stamp", w, DATETIME_PRECISION=p)
    for w in DEC:
        for p, s in ((1, 0), (1, 1), (10, 2), (65, 30), (65, 0)):
            for tail in ("(5,2)", "(5,2) unsigned"):
                yield from some("decimal", w, tail, NUMERIC_PRECISION=p, NUMERIC_SCALE=s)
    for tail in (None, "", "(4)", " unsigned"):
        yield from some("year", "year", tail)


def want_type(c):
    k, r = c["k"], c["row"]
    if k == "int":
        return M.I(INTS[r["DATA_TYPE"].lower()], "unsigned" not in r.get("COLUMN_TYPE", "").lower())
    if k == "float":
        return M.F(32 if r["NUMERIC_PRECISION"] <= 23 else 64)
    if k == "double":
        return M.F(64)
    if k == "string":
        return M.S(r["CHARACTER_OCTET_LENGTH"])
    if k == "fixed":
        return M.S(r["CHARACTER_OCTET_LENGTH"], False)
    if k == "blob":
        return M.B(r["CHARACTER_OCTET_LENGTH"])
    if k == "binary":
        return M.B(r["CHARACTER_OCTET_LENGTH"], False)
    if k == "bit":
        return M.B(8, False)
    if k == "stamp":
        return M.I(64, logical="build.recap.Timestamp", unit=T.unit(r["DATETIME_PRECISION"]))
    if k == "decimal":
        return M.B(32, False, logical="build.recap.Decimal", precision=r["NUMERIC_PRECISION"], scale=r["NUMERIC_SCALE"])
    if k == "year":
        return M.I(16, False)
    raise AssertionError(k)


def rows_of(case):
    rows = T.rows(case)
    for r in rows:
        if r.pop("COLUMN_TYPE_BYTES", False):
            r["COLUMN_TYPE"] = r["COLUMN_TYPE"].encode()
    return rows


def check(case, ctx):
    for c in case["columns"]:
        ctx.label("type:" + c["k"])
    ctx.interesting(len(case["columns"]) > 1)
    rows = rows_of(case)
    before = copy.deepcopy(rows)
    got = M.observe(MysqlConverter().to_recap(rows))
    ctx.equal(rows, before, "the rows were modified")
    want = M.N("struct", fields=[T.field(want_type(c), c) for c in case["columns"]])
    d = M.diff(got, want)
    ctx.require(d is None, lambda: f"rows {rows}: {d}")


def rejects(case, ctx):
    ctx.interesting(len(case["columns"]) > 1)
    bad = [c for c in case["columns"] if c["name"] == "bad one"][0]
    ctx.label("bad:" + bad["row"]["DATA_TYPE"].lower())
    value, err = call(MysqlConverter().to_recap, rows_of(case))
    ctx.require(err is not None, lambda: f"{bad['row']} was read as {M.show(M.observe(value))}")


PROPERTY = Property(
    "C14",
    [
        Facet("columns", lambda: cases(), check, quick=1200, thorough=15000, rule="random tables; non-trivial: at least two columns"),
        Facet("grid", None, check, enumerate_all=lambda: list(T.grid(every_type())),
              rule="every type at its limits, with and without null and defaults; non-trivial: at least two columns"),
        Facet("rejects", lambda: cases(bad=True), rejects, quick=160, thorough=2000, rule="tables with one unsupported column; non-trivial: others besides"),
    ],
    assumptions=["rows have the columns of MySQL's information_schema.columns; float columns report a precision"],
)
