"""C15: Snowflake columns become the types the database declares."""
import copy

from hypothesis import strategies as st

from vlib import model as M, tables as T
from vlib.harness import Facet, Property, call

from recap.converters.snowflake import SnowflakeConverter

FLOATS = ["float", "float4", "float8", "double", "double precision", "real"]
NUMBERS = ["number", "decimal", "numeric", "int", "integer", "bigint", "smallint", "tinyint", "byteint"]
STRINGS = ["varchar", "string", "text", "nvarchar", "nvarchar2", "char varying", "nchar varying"]
CHARS = ["char", "nchar", "character"]
BINARIES = ["binary", "varbinary", "blob"]
STAMPS = ["timestamp", "timestamp_ntz", "timestamp_ltz", "timestamp_tz", "timestampntz", "datetime"]
UNSUPPORTED = ["variant", "object", "array", "geography", "geometry", "vector", "map", "interval", "json", "uuid", "bit"]


@st.composite
def types(draw, bad=False):
    k = "unsupported" if bad else draw(st.sampled_from(["float", "bool", "number", "number", "string", "char", "binary", "date", "stamp", "time"]))
    row = {}
    p = None
    if k == "float":
        word = draw(st.sampled_from(FLOATS))
    elif k == "bool":
        word = "boolean"
    elif k == "number":
        word = draw(st.sampled_from(NUMBERS))
        if draw(st.integers(0, 3)):
            row.update(NUMERIC_PRECISION=draw(st.integers(1, 38)), NUMERIC_SCALE=draw(st.integers(0, 37)))
        if word in NUMBERS[:3] and draw(st.booleans()):
            word += "(38,0)"
    elif k in ("string", "char"):
        word = draw(st.sampled_from(STRINGS if k == "string" else CHARS))
        if draw(st.integers(0, 3)):
            row.update(CHARACTER_OCTET_LENGTH=draw(T.octets), CHARACTER_MAXIMUM_LENGTH=3)
        if draw(st.booleans()):
            word += "(12)"
    elif k == "binary":
        word = draw(st.sampled_from(BINARIES))
        if draw(st.integers(0, 3)):
            row.update(CHARACTER_OCTET_LENGTH=draw(T.octets), CHARACTER_MAXIMUM_LENGTH=3)
    elif k == "date":
        word = "date"
    elif k in ("stamp", "time"):
        word = draw(st.sampled_from(STAMPS)) if k == "stamp" else "time"
        p = draw(st.one_of(st.none(), st.integers(0, 9)))
        if p is not None:
            word += draw(st.sampled_from(["(%d)", "( %d )"])) % p
    else:
        word = draw(st.sampled_from(UNSUPPORTED))
    row["DATA_TYPE"] = draw(T.spelled(word))
    return {"k": k, "row": row, "p": p}


@st.composite
def cases(draw, bad=False):
    case = draw(T.tables(types()))
    if bad:
        c = dict(draw(types(bad=True)), name="bad one", nullable=draw(st.booleans()), default=None)
        case["columns"].insert(draw(st.integers(0, len(case["columns"]))), c)
    return case


def every_type():
    def some(k, word, p=None, **row):
        for s in T.spellings(word):
            yield {"k": k, "p": p, "row": {**row, "DATA_TYPE": s}}

    for w in FLOATS:
        yield from some("float", w)
    yield from some("bool", "boolean")
    yield from some("date", "date")
    for w in NUMBERS:
        yield from some("number", w)
        for p, s in ((1, 0), (1, 1), (10, 2), (38, 0), (38, 37), (5, 0)):
            yield from some("number", w, NUMERIC_PRECISION=p, NUMERIC_SCALE=s)
    for k, words in (("string", STRINGS), ("char", CHARS), ("binary", BINARIES)):
        for w in words:
            yield from some(k, w)
            for n in (1, 4, 255, 16777216, 134217728):
                yield from some(k, w, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=max(1, n // 4))
    for k, words in (("stamp", STAMPS), ("time", ["time"])):
        for w in words:
            yield from some(k, w)
            for p in range(10):
                for form in ("(%d)", "( %d )"):
                    yield from some(k, w + form % p, p)


def unit(p):
    return "nanosecond" if p is None or p > 6 else T.unit(p)


def want_type(c):
    k, r = c["k"], c["row"]
    octets = r.get("CHARACTER_OCTET_LENGTH")
    if k == "float":
        return M.F(64)
    if k == "bool":
        return M.N("bool")
    if k == "number":
        return M.B(16, False, logical="build.recap.Decimal",
                   precision=r.get("NUMERIC_PRECISION", 38), scale=r.get("NUMERIC_SCALE", 0))
    if k == "string":
        return M.S(octets or 16_777_216)
    if k == "char":
        return M.S(octets or 1)
    if k == "binary":
        return M.B(octets or 8_388_608)
    if k == "date":
        return M.I(32, logical="build.recap.Date", unit="day")
    if k == "stamp":
        return M.I(64, logical="build.recap.Timestamp", unit=unit(c["p"]))
    if k == "time":
        return M.I(32, logical="build.recap.Time", unit=unit(c["p"]))
    raise AssertionError(k)


def check(case, ctx):
    for c in case["columns"]:
        ctx.label("type:" + c["k"])
    ctx.interesting(len(case["columns"]) > 1)
    rows = T.rows(case)
    before = copy.deepcopy(rows)
    got = M.observe(SnowflakeConverter().to_recap(rows))
    ctx.equal(rows, before, "the rows were modified")
    want = M.N("struct", fields=[T.field(want_type(c), c) for c in case["columns"]])
    d = M.diff(got, want)
    ctx.require(d is None, lambda: f"rows {rows}: {d}")


def rejects(case, ctx):
    ctx.interesting(len(case["columns"]) > 1)
    bad = [c for c in case["columns"] if c["name"] == "bad one"][0]
    ctx.label("bad:" + bad["row"]["DATA_TYPE"].lower())
    value, err = call(SnowflakeConverter().to_recap, T.rows(case))
    ctx.require(err is not None, lambda: f"{bad['row']} was read as {M.show(M.observe(value))}")


PROPERTY = Property(
    "C15",
    [
        Facet("columns", lambda: cases(), check, quick=1200, thorough=15000, rule="random tables; non-trivial: at least two columns"),
        Facet("grid", None, check, enumerate_all=lambda: list(T.grid(every_type())),
              rule="every type at its limits, with and without null and defaults; non-trivial: at least two columns"),
        Facet("rejects", lambda: cases(bad=True), rejects, quick=160, thorough=2000, rule="tables with one unsupported column; non-trivial: others besides"),
    ],
    assumptions=["rows have the columns of Snowflake's information_schema.columns"],
)
