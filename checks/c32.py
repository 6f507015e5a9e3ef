"""C32: Hive statistics describe the column they are attached to."""
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st
from pymetastore.hive_metastore import ttypes
from pymetastore.metastore import HMS

from vlib import hive as H
from vlib import model as M
from vlib.harness import Facet, Property

from recap.clients.hive_metastore import HiveMetastoreClient

longs = st.one_of(st.sampled_from([0, 1, -1, 2**63 - 1, -(2**63)]), st.integers(-(2**63), 2**63 - 1))
counts = st.one_of(st.just(0), st.integers(0, 2**40))
doubles = st.one_of(st.sampled_from([0.0, -1.5, 1e308]), st.floats(allow_nan=False))
maybe = lambda s: st.one_of(st.none(), s)  # noqa: E731


@st.composite
def decimals(draw):
    """An unscaled value and a scale, as the metastore has them."""
    top = draw(st.sampled_from([10, 1000, 10**18, 10**38]))
    return [draw(st.one_of(st.sampled_from([0, 1, -1, 127, 128, -128, 255, 10**38 - 1, 1 - 10**38, -(2**119), -(2**120)]), st.integers(1 - top, top - 1))), draw(st.integers(0, 38))]


@st.composite
def stats(draw):
    k = draw(st.sampled_from(["long", "double", "date", "string", "boolean", "binary", "decimal", "none"]))
    s = {"k": k}
    if k == "none":
        return s
    s["nulls"] = draw(counts)
    if k in ("long", "date"):
        s.update(low=draw(maybe(longs)), high=draw(maybe(longs)), dvs=draw(counts))
    elif k == "double":
        s.update(low=draw(maybe(doubles)), high=draw(maybe(doubles)), dvs=draw(counts))
    elif k == "decimal":
        s.update(low=draw(maybe(decimals())), high=draw(maybe(decimals())), dvs=draw(counts))
    elif k == "string":
        s.update(max=draw(counts), avg=draw(st.floats(0, 1e6)), dvs=draw(counts))
    elif k == "binary":
        s.update(max=draw(counts), avg=draw(st.floats(0, 1e6)))
    else:
        s.update(trues=draw(counts), falses=draw(counts))
    return s


def thrift(name, s):
    def some(v, make):
        return None if v is None else make(v)

    k = s["k"]
    d = ttypes.ColumnStatisticsData()
    if k == "long":
        d.longStats = ttypes.LongColumnStatsData(lowValue=s["low"], highValue=s["high"], numNulls=s["nulls"], numDVs=s["dvs"])
    elif k == "double":
        d.doubleStats = ttypes.DoubleColumnStatsData(lowValue=s["low"], highValue=s["high"], numNulls=s["nulls"], numDVs=s["dvs"])
    elif k == "date":
        d.dateStats = ttypes.DateColumnStatsData(
            lowValue=some(s["low"], ttypes.Date), highValue=some(s["high"], ttypes.Date), numNulls=s["nulls"], numDVs=s["dvs"])
    elif k == "decimal":
        # Java's BigInteger.toByteArray
        dec = lambda v: ttypes.Decimal(scale=v[1], unscaled=v[0].to_bytes((8 + (v[0] + (v[0] < 0)).bit_length()) // 8, "big", signed=True))  # noqa: E731
        d.decimalStats = ttypes.DecimalColumnStatsData(
            lowValue=some(s["low"], dec), highValue=some(s["high"], dec), numNulls=s["nulls"], numDVs=s["dvs"])
    elif k == "string":
        d.stringStats = ttypes.StringColumnStatsData(maxColLen=s["max"], avgColLen=s["avg"], numNulls=s["nulls"], numDVs=s["dvs"])
    elif k == "binary":
        d.binaryStats = ttypes.BinaryColumnStatsData(maxColLen=s["max"], avgColLen=s["avg"], numNulls=s["nulls"])
    elif k == "boolean":
        d.booleanStats = ttypes.BooleanColumnStatsData(numTrues=s["trues"], numFalses=s["falses"], numNulls=s["nulls"])
    return ttypes.ColumnStatisticsObj(colName=name, colType="x", statsData=d)


def want(s):
    """The attributes these statistics become; limits that are not recorded may
    be left out or null."""
    k = s["k"]
    if k == "none":
        return {}
    out = {"null_count": s["nulls"]}
    if k in ("long", "double", "date"):
        out.update(low=s["low"], high=s["high"], cardinality=s["dvs"])
    elif k == "decimal":
        exact = lambda v: v and Fraction(v[0], 10 ** v[1])  # noqa: E731
        out.update(low=exact(s["low"]), high=exact(s["high"]), cardinality=s["dvs"])
    elif k == "string":
        out.update(average_length=s["avg"], max_length=s["max"], cardinality=s["dvs"])
    elif k == "binary":
        out.update(average_length=s["avg"], max_length=s["max"])
    else:
        out.update(true_count=s["trues"], false_count=s["falses"])
    return out


class Reordered(HMS):
    """A metastore library that answers in an order of its own."""

    def __init__(self, client, order):
        super().__init__(client)
        self.order = order

    def get_table_stats(self, table, *args, **kw):
        got = super().get_table_stats(table, *args, **kw)
        place = {c.name: self.order[i] for i, c in enumerate(table.columns)}
        return sorted(got, key=lambda s: place.get(s.columnName, -1))


KEYS = {"null_count", "low", "high", "cardinality", "average_length", "max_length", "true_count", "false_count"}


def value(v):
    """Decimals may be numbers or numerals, but have to be exact."""
    if isinstance(v, ttypes.Decimal):
        return Fraction(int.from_bytes(v.unscaled, "big", signed=True), 10**v.scale)
    return Fraction(v) if isinstance(v, (str, Decimal)) else v


@st.composite
def cases(draw):
    t = draw(H.tables(min_columns=1, max_columns=6, depth=1))
    names = [c["name"] for c in t["columns"]]
    t["stats"] = {n: draw(stats()) for n in draw(st.lists(st.sampled_from(names), unique=True, max_size=6))}
    # The metastore may answer for other columns in the same breath; order is up to it.
    t["other"] = draw(st.booleans())
    if draw(st.booleans()):
        # every column has statistics
        t["stats"] = {n: draw(stats()) for n in names}
    t["order"] = draw(st.one_of(st.none(), st.permutations(range(len(names)))))
    return t


def check(case, ctx):
    n = sum(1 for s in case["stats"].values() if s["k"] != "none")
    ctx.interesting(n > 1 or (n == 1 and len(case["columns"]) > 1))
    ctx.label(*{f"stats:{s['k']}" for s in case["stats"].values()})
    where = (case["database"], case["name"])
    recorded = {(*where, name): [thrift(name, s)] for name, s in case["stats"].items()}
    if case["other"]:
        # statistics of another table with the same columns
        for c in case["columns"]:
            recorded[where[0], where[1] + "2", c["name"]] = [thrift(c["name"], {"k": "long", "low": 1, "high": 2, "nulls": 3, "dvs": 4})]
    served = H.hms([case, dict(case, name=case["name"] + "2")], recorded)
    if case.get("order"):
        served = Reordered(served.client, case["order"])
    client = HiveMetastoreClient(served)
    plain = H.want(case)
    got = M.observe(client.schema(*where, True))
    ctx.equal([f["extra"].get("name") for f in got["fields"]], [c["name"] for c in case["columns"]], "columns")
    for c, f in zip(case["columns"], got["fields"]):
        attrs = {k: value(v) for k, v in f["extra"].items() if k in KEYS}
        w = want(case["stats"].get(c["name"], {"k": "none"}))
        for k in [k for k in ("low", "high") if k in w and w[k] is None and k not in attrs]:
            del w[k]
        if attrs != w:
            ctx.fail(f"column {c['name']!r} with {case['stats'].get(c['name'])} got {attrs}, want {w}")
        f["extra"] = {k: v for k, v in f["extra"].items() if k not in KEYS}
    d = M.diff(got, plain)
    ctx.require(d is None, lambda: f"statistics changed the schema: {d}")
    for flag in ((), (False,)):
        d = M.diff(M.observe(client.schema(*where, *flag)), plain)
        ctx.require(d is None, lambda: f"without statistics: {d}")


PROPERTY = Property(
    "C32",
    [Facet("statistics", lambda: cases(), check, quick=900, thorough=12000,
           rule="random tables and statistics; non-trivial: statistics for some of several columns")],
    assumptions=["the metastore's thrift connection is replaced by a stand-in"],
)
