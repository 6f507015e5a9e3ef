"""C13: PostgreSQL columns become the types the database declares."""
import copy

from hypothesis import strategies as st

from vlib import model as M, tables as T
from vlib.harness import Facet, Property, call

import recap.types as RT
from recap.converters.postgresql import PostgresqlConverter

GB = 1_073_741_824

PLAIN = {
    "bigint": M.I(64), "int8": M.I(64), "bigserial": M.I(64), "serial8": M.I(64),
    "integer": M.I(32), "int": M.I(32), "int4": M.I(32), "serial": M.I(32), "serial4": M.I(32),
    "smallint": M.I(16), "smallserial": M.I(16), "serial2": M.I(16),
    "double precision": M.F(64), "float8": M.F(64),
    "real": M.F(32), "float4": M.F(32),
    "boolean": M.N("bool"),
    "uuid": M.S(36, False, logical="build.recap.UUID"),
    "bytea": M.B(GB), "bit varying": M.B(GB),
}
TEXT = ["text", "json", "jsonb", "character varying", "varchar"]
CHAR = ["character", "char"]
STAMP = ["timestamp without time zone", "timestamp with time zone", "timestamp"]
DEC = ["numeric", "decimal"]
UNSUPPORTED = ["date", "time without time zone", "time with time zone", "interval", "money", "xml", "inet", "cidr",
               "macaddr", "point", "polygon", "tsvector", "tsquery", "oid", "name", "USER-DEFINED", "pg_lsn", "int4range"]

# What the values of an array are, by the element's internal name.
ELEMENTS = {
    "int2": M.I(16), "int4": M.I(32), "int8": M.I(64),
    "float4": M.F(32), "float8": M.F(64), "bool": M.N("bool"),
    "text": M.S(GB), "varchar": M.S(GB), "json": M.S(GB), "jsonb": M.S(GB), "bpchar": M.S(GB, False),
    "uuid": M.S(36, False, logical="build.recap.UUID"),
    "bytea": M.B(GB), "varbit": M.B(GB), "bit": M.B(GB, False),
    "timestamp": M.I(64, logical="build.recap.Timestamp", unit="microsecond"),
    "timestamptz": M.I(64, logical="build.recap.Timestamp", unit="microsecond"),
    "numeric": M.B(32, False, logical="build.recap.Decimal", precision=None, scale=None),
}
BAD_ELEMENTS = ["date", "interval", "inet", "money", "mood", "xml", "point"]


@st.composite
def types(draw, bad=False):
    k = draw(st.sampled_from(["unsupported", "array_bad"] if bad else
                             ["plain", "plain", "text", "char", "bit", "stamp", "decimal", "enum", "array", "array"]))
    row = {}
    word = None
    if k == "plain":
        word = draw(st.sampled_from(sorted(PLAIN)))
        # Integer and float columns report a binary precision, which means nothing here.
        if "int" in word or "serial" in word:
            row.update(NUMERIC_PRECISION=draw(st.sampled_from([16, 32, 64])), NUMERIC_SCALE=0)
    elif k == "text":
        word = draw(st.sampled_from(TEXT))
        n = draw(st.one_of(st.none(), T.octets))
        row.update(CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=draw(st.sampled_from([n, None, 7])))
    elif k == "char":
        word = draw(st.sampled_from(CHAR))
        n = draw(T.octets)
        row.update(CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=max(1, n // 4))
    elif k == "bit":
        word = "bit"
        row.update(CHARACTER_MAXIMUM_LENGTH=draw(st.one_of(st.sampled_from([1, 7, 8, 9, 15, 16, 17, 64, 83886080]), st.integers(1, 2**33))))
    elif k == "stamp":
        word = draw(st.sampled_from(STAMP))
        row.update(DATETIME_PRECISION=draw(st.integers(0, 6)))
    elif k == "decimal":
        word = draw(st.sampled_from(DEC))
        if draw(st.booleans()):
            row.update(NUMERIC_PRECISION=draw(T.precisions), NUMERIC_SCALE=draw(st.integers(0, 30)))
    elif k == "enum":
        word = "USER-DEFINED"
        row.update(ENUM_VALUES=draw(st.lists(st.text(max_size=5), min_size=1, max_size=draw(st.sampled_from([5, 5, 30])), unique=True)), UDT_NAME="mood")
    elif k in ("array", "array_bad"):
        word = "ARRAY"
        e = draw(st.sampled_from(sorted(ELEMENTS) if k == "array" else BAD_ELEMENTS))
        row.update(UDT_NAME="_" + e, ATTNDIMS=draw(st.integers(1, 5)))
    elif k == "unsupported":
        word = draw(st.sampled_from(UNSUPPORTED))
        row.update(UDT_NAME="whatever")
    row["DATA_TYPE"] = draw(T.spelled(word)) if word.islower() else word
    return {"k": k, "row": row}


@st.composite
def cases(draw, bad=False):
    case = draw(T.tables(types()))
    case["enforce"] = draw(st.booleans())
    case["namespace"] = draw(st.sampled_from([None, None, "ns", "com.acme"]))
    if bad:
        c = dict(draw(types(bad=True)), name="bad one", nullable=draw(st.booleans()), default=None)
        case["columns"].insert(draw(st.integers(0, len(case["columns"]))), c)
    return case


def every_type():
    def some(k, word, **row):
        for s in T.spellings(word) if word.islower() else [word]:
            yield {"k": k, "row": {**row, "DATA_TYPE": s}}

    for w in sorted(PLAIN):
        yield from some("plain", w, **({"NUMERIC_PRECISION": 32, "NUMERIC_SCALE": 0} if "int" in w else {}))
    for w in TEXT:
        for n in (None, 1, 4, 255, GB):
            yield from some("text", w, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=n and max(1, n // 4))
    for w in CHAR:
        for n in (1, 4, 255, GB):
            yield from some("char", w, CHARACTER_OCTET_LENGTH=n, CHARACTER_MAXIMUM_LENGTH=max(1, n // 4))
    for n in [*range(1, 70), 255, 256, 257, 83886080]:
        yield from some("bit", "bit", CHARACTER_MAXIMUM_LENGTH=n)
    for w in STAMP:
        for p in range(7):
            yield from some("stamp", w, DATETIME_PRECISION=p)
    for w in DEC:
        yield from some("decimal", w)
        for p, s in ((1, 0), (1, 1), (10, 2), (38, 0), (38, 38), (1000, 3), (5, 0)):
            yield from some("decimal", w, NUMERIC_PRECISION=p, NUMERIC_SCALE=s)
    for v in (["a"], ["b", "a"], [""], ["x y", "'", "é"], ["1", "2", "10"]):
        yield from some("enum", "USER-DEFINED", ENUM_VALUES=v, UDT_NAME="mood")
    for e in sorted(ELEMENTS):
        for n in (1, 2, 5):
            yield from some("array", "ARRAY", UDT_NAME="_" + e, ATTNDIMS=n)


def similar():
    """Arrays in columns whose names are the same but for what cannot be in an alias."""
    array = {"k": "array", "row": {"DATA_TYPE": "ARRAY", "UDT_NAME": "_int4", "ATTNDIMS": 1}}
    for names in (["a-b", "a_b", "a b", "a.b", "a/b"], ["a_b", "a__b", "a b", "a  b", "a_b_", "a_b_1", "a_b_2", "a-b"], ["1", "_1", "é", "_", "-", "?", "É"],
                  ["a.b", "a", "b", "a_b", "_a_b", "a_b_1", "a_b1", "a-b", "a:b"], ["x" + c for c in "-. /:;%$#@!"]):
        for names in (names, names[::-1]):
            for ns in (None, "com.acme"):
                yield {"columns": [dict(copy.deepcopy(array), name=n, nullable=i % 2 == 0, default=None) for i, n in enumerate(names)],
                       "enforce": False, "namespace": ns}


def grid():
    yield from similar()
    for enforce in (True, False):
        for ns in (None, "com.acme"):
            # only arrays depend on these
            types = [t for t in every_type() if t["k"] == "array" or enforce and ns is None]
            yield from T.grid(types, enforce=enforce, namespace=ns)


def want_type(c, enforce, alias):
    k, r = c["k"], c["row"]
    if k == "plain":
        return PLAIN[r["DATA_TYPE"].lower()]
    if k == "text":
        return M.S(r["CHARACTER_OCTET_LENGTH"])
    if k == "char":
        return M.S(r["CHARACTER_OCTET_LENGTH"], False)
    if k == "bit":
        return M.B(-(-r["CHARACTER_MAXIMUM_LENGTH"] // 8), False)
    if k == "stamp":
        return M.I(64, logical="build.recap.Timestamp", unit=T.unit(r["DATETIME_PRECISION"]))
    if k == "decimal":
        return M.B(32, False, logical="build.recap.Decimal", precision=r.get("NUMERIC_PRECISION"), scale=r.get("NUMERIC_SCALE"))
    if k == "enum":
        return M.N("enum", symbols=r["ENUM_VALUES"])
    e = ELEMENTS[r["UDT_NAME"][1:]]
    if enforce:
        node = M.N("union", types=[M.N("null"), e])
        for _ in range(r["ATTNDIMS"]):
            node = M.N("list", values=node)
        return node
    return M.N("list", alias=alias, values=M.N("union", types=[e, M.N("proxy", to=alias)]))


def make(case):
    kw = {"enforce_array_dimensions": case["enforce"]}
    if case["namespace"]:
        kw["namespace"] = case["namespace"]
    return PostgresqlConverter(**kw)


def check(case, ctx):
    for c in case["columns"]:
        ctx.label("type:" + c["k"])
    ctx.interesting(len(case["columns"]) > 1)
    rows = T.rows(case)
    before = copy.deepcopy(rows)
    struct = make(case).to_recap(rows)
    ctx.equal(rows, before, "the rows were modified")
    got = M.observe(struct)
    ctx.equal(len(got.get("fields", ())), len(rows), "number of fields")
    aliases = T.check_arrays(ctx, struct, got)
    want = M.N("struct", fields=[
        T.field(want_type(c, case["enforce"], a), c) for c, a in zip(case["columns"], aliases)])
    for c, a in zip(case["columns"], aliases):
        if c["k"] == "array" and not case["enforce"]:
            ns = case["namespace"] or "_root"
            ctx.require(a is not None and a.startswith(ns + "."), lambda: f"alias {a!r} of {c['name']!r} is not in namespace {ns}")
    d = M.diff(got, want)
    ctx.require(d is None, lambda: f"rows {rows}: {d}")
    # and it is a type that can be written down and read back
    d = M.diff(M.observe(RT.from_dict(RT.to_dict(struct))), want)
    ctx.require(d is None, lambda: f"the document of the struct says something else: {d}")


def rejects(case, ctx):
    ctx.interesting(len(case["columns"]) > 1)
    bad = [c for c in case["columns"] if c["name"] == "bad one"][0]
    ctx.label("bad:" + bad["row"]["DATA_TYPE"].lower())
    value, err = call(make(case).to_recap, T.rows(case))
    ctx.require(err is not None, lambda: f"{bad['row']} was read as {M.show(M.observe(value))}")


PROPERTY = Property(
    "C13",
    [
        Facet("columns", lambda: cases(), check, quick=900, thorough=12000, rule="random tables; non-trivial: at least two columns"),
        Facet("grid", None, check, enumerate_all=lambda: list(grid()),
              rule="every type at its limits, with and without null and defaults; non-trivial: at least two columns"),
        Facet("rejects", lambda: cases(bad=True), rejects, quick=160, thorough=2000, rule="tables with one unsupported column; non-trivial: others besides"),
    ],
    assumptions=["rows have the columns the client's query returns"],
)
