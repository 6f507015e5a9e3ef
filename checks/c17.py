"""C17: BigQuery fields become the types the table declares."""
import copy

from google.cloud import bigquery
from hypothesis import strategies as st

from vlib import model as M
from vlib.harness import Facet, Property, call

from recap.converters.bigquery import BigQueryConverter

PLAIN = {
    **{k: M.I(64) for k in ("INT64", "INTEGER", "INT", "SMALLINT", "TINYINT", "BYTEINT")},
    **{k: M.F(64) for k in ("FLOAT", "FLOAT64")},
    **{k: M.N("bool") for k in ("BOOLEAN", "BOOL")},
    **{k: M.I(64, logical="build.recap.Timestamp", unit="microsecond") for k in ("TIMESTAMP", "DATETIME")},
    "TIME": M.I(32, logical="build.recap.Time", unit="microsecond"),
    "DATE": M.I(32, logical="build.recap.Date", unit="day"),
}
SIZED = ["STRING", "JSON", "BYTES"]
DECIMALS = {"NUMERIC": (16, 38), "DECIMAL": (16, 38), "BIGNUMERIC": (32, 76), "BIGDECIMAL": (32, 76)}
UNSUPPORTED = ["GEOGRAPHY", "INTERVAL", "RANGE", "FOREIGN", "UUID", "VARCHAR", "ARRAY"]

names = st.one_of(st.sampled_from(["id", "a", "b", "name", "type", "doc", "_x", "Ünï"]), st.text(min_size=1, max_size=6))


@st.composite
def trees(draw, depth, budget):
    t = draw(st.sampled_from(sorted(PLAIN) + SIZED * 3 + sorted(DECIMALS) * 2 + (["RECORD", "STRUCT"] * 6 if depth else [])))
    f = {
        "name": draw(names), "type": t,
        "mode": draw(st.sampled_from(["NULLABLE", "REQUIRED", "REPEATED"])),
        "description": draw(st.one_of(st.none(), st.sampled_from(["", "about", "a\nb"]), st.text(max_size=5))),
        "default": draw(st.one_of(st.none(), st.none(), st.sampled_from(["1", "'x'", "CURRENT_TIMESTAMP()", "NULL"]))),
    }
    if t in SIZED:
        f["max_length"] = draw(st.one_of(st.none(), st.sampled_from([1, 255, 65536]), st.integers(1, 10_485_760)))
    elif t in DECIMALS:
        f["precision"] = draw(st.one_of(st.none(), st.integers(1, DECIMALS[t][1])))
        f["scale"] = draw(st.one_of(st.none(), st.integers(0, 38))) if f["precision"] else None
    elif t in ("RECORD", "STRUCT"):
        f["fields"] = draw(fields(depth - 1, budget))
    return f


@st.composite
def fields(draw, depth, budget=None):
    budget = budget if budget is not None else [14]
    out = []
    for _ in range(draw(st.integers(0 if depth == 4 else 1, draw(st.sampled_from([4, 4, 4, 4, 14]))))):
        if budget[0] <= 0 and out:
            break
        budget[0] -= 1
        out.append(draw(trees(depth if budget[0] > 0 else 0, budget)))
    return out


def grid():
    """Every type at its limits, in every mode, at every depth, with every attribute."""
    leaves = [{"type": t} for t in sorted(PLAIN)]
    leaves += [{"type": t, "max_length": n} for t in SIZED for n in (None, 1, 255, 10_485_760)]
    leaves += [{"type": t, "precision": p, "scale": s} for t in sorted(DECIMALS)
               for p, s in ((None, None), (1, 0), (1, 1), (10, 2), (10, None), (29, 0), (38, 9), (38, 38))]
    leaves += [{"type": t, "fields": [{"name": "x", "type": "INT64", "mode": m, "description": "d", "default": None}]}
               for t in ("RECORD", "STRUCT") for m in ("NULLABLE", "REQUIRED", "REPEATED")]
    modes = ("NULLABLE", "REQUIRED", "REPEATED")
    for leaf in leaves:
        for mode in modes:
            for d, v in ((None, None), ("about", None), ("", None), (None, "1"), (None, "NULL"), ("about", "''")):
                f = {"name": "f", "mode": mode, "description": d, "default": v, **copy.deepcopy(leaf)}
                other = {"name": "f2", "type": "STRING", "mode": "REQUIRED", "description": None, "default": None, "max_length": None}
                yield [f, other]
                for outer in modes:
                    yield [other, {"name": "r", "type": "RECORD", "mode": outer, "description": None, "default": None, "fields": [other, f]}]
                if d is None and v is None:
                    for m1 in modes:
                        for m2 in modes:
                            yield [{"name": "r", "type": "STRUCT", "mode": m1, "description": None, "default": None, "fields": [
                                {"name": "s", "type": "RECORD", "mode": m2, "description": "in", "default": None, "fields": [f]}]}]


def large():
    """Deep records (BigQuery allows 15 levels) and wide tables."""
    leaves = [{"type": t} for t in sorted(PLAIN)] + [{"type": t, "max_length": 7} for t in SIZED] + [{"type": t, "precision": 20, "scale": 3} for t in sorted(DECIMALS)]
    modes = ("NULLABLE", "REQUIRED", "REPEATED")
    for k in range(3):
        f = {"name": "leaf", "mode": modes[k], "description": "deep", "default": None, **leaves[k]}
        for i in range(14):
            other = {"name": f"x{i}", "mode": modes[(i + k) % 3], "description": None, "default": None, "type": "STRING", "max_length": i + 1}
            f = {"name": f"r{i}", "type": ("RECORD", "STRUCT")[i % 2], "mode": modes[(i + k) % 3 if k else 1], "description": f"d{i}", "default": None,
                 "fields": [f, other] if i % 2 else [other, f]}
        yield [f]
    yield [{"name": f"c{i}", "mode": modes[i % 3], "description": f"d{i}" if i % 5 else None, "default": None, **leaves[i % len(leaves)]} for i in range(400)]


def build(f):
    kw = {}
    for k in ("max_length", "precision", "scale"):
        if f.get(k) is not None:
            kw[k] = f[k]
    if f["default"] is not None:
        kw["default_value_expression"] = f["default"]
    if f["description"] is not None:
        kw["description"] = f["description"]
    return bigquery.SchemaField(f["name"], f["type"], mode=f["mode"], fields=[build(x) for x in f.get("fields", ())], **kw)


def want(f):
    t = f["type"]
    if t in PLAIN:
        n = copy.deepcopy(PLAIN[t])
    elif t == "BYTES":
        n = M.B(f["max_length"])
    elif t in SIZED:
        n = M.S(f["max_length"])
    elif t in DECIMALS:
        b, p = DECIMALS[t]
        n = M.B(b, False, logical="build.recap.Decimal", precision=f["precision"] or p, scale=f["scale"] or 0)
    else:
        n = M.N("struct", fields=[want(x) for x in f["fields"]])
    if f["mode"] == "REPEATED":
        n = M.N("list", values=n)
    elif f["mode"] == "NULLABLE":
        n = M.N("union", types=[M.N("null"), n], default=None)
    n["extra"]["name"] = f["name"]
    n["doc"] = f["description"] or None
    if f["default"]:
        n["extra"]["default"] = f["default"]
    return n


def depth(fs):
    return 1 + max((depth(f["fields"]) for f in fs if "fields" in f), default=0) if fs else 0


def check(fs, ctx):
    ctx.interesting(len(fs) > 1 or depth(fs) > 1)
    ctx.label(f"depth:{depth(fs)}")
    schema = [build(f) for f in fs]
    before = [f.to_api_repr() for f in schema]
    got = M.observe(BigQueryConverter().to_recap(schema))
    ctx.equal([f.to_api_repr() for f in schema], before, "the fields were modified")
    d = M.diff(got, M.N("struct", fields=[want(f) for f in fs]))
    ctx.require(d is None, lambda: f"fields {fs}: {d}")


@st.composite
def bad_cases(draw):
    fs = draw(fields(2))
    bad = {"name": "bad", "type": draw(st.sampled_from(UNSUPPORTED)), "mode": draw(st.sampled_from(["NULLABLE", "REQUIRED", "REPEATED"])),
           "description": None, "default": None}
    for _ in range(draw(st.integers(0, 2))):
        bad = {"name": "r", "type": "RECORD", "mode": "NULLABLE", "description": None, "default": None, "fields": [bad]}
    fs.insert(draw(st.integers(0, len(fs))), bad)
    return fs


def rejects(fs, ctx):
    ctx.interesting(len(fs) > 1)
    value, err = call(BigQueryConverter().to_recap, [build(f) for f in fs])
    ctx.require(err is not None, lambda: f"unsupported fields {fs} were read as {M.show(M.observe(value))}")


PROPERTY = Property(
    "C17",
    [
        Facet("fields", lambda: fields(4), check, quick=800, thorough=12000, rule="random field trees; non-trivial: several fields or nested"),
        Facet("grid", None, check, enumerate_all=lambda: list(grid()) + list(large()),
              rule="every type at its limits in every mode at every depth; non-trivial: several fields or nested"),
        Facet("rejects", lambda: bad_cases(), rejects, quick=120, thorough=2000, rule="trees with one unsupported type; non-trivial: others besides"),
    ],
)
