"""C35: a part of Recap needs only its own optional packages."""
from hypothesis import strategies as st

from vlib import docs as D, gen, model as M, parts as P
from vlib.harness import Facet, HarnessError, Property, short

AVRO = '{"type": "record", "name": "R", "fields": [{"name": "a", "type": "int"}]}'
JSON = '{"type": "object", "properties": {"a": {"type": "string"}, "b": {"type": "integer"}}, "required": ["b"]}'
PROTO = 'syntax = "proto3";\nmessage A { int32 a = 1; repeated string b = 2; }'
TEXTS = {"avsc": AVRO, "csr-avro": AVRO, "schema.json": JSON, "csr-json": JSON, "proto": PROTO, "csr-proto": PROTO}
ENTRIES = ("library", "client", "cli", "gateway")
# what has a name, as messages need
NAMED = ("avsc", "csr-avro", "proto", "csr-proto")


def every_op():
    yield from (["types", {"type": "struct", "fields": [{"type": "int32", "name": "a", "optional": True}]}], ["avro", AVRO], ["json", JSON], ["proto", PROTO])
    yield from (["rows", d, "x"] for d in ("postgresql", "mysql", "snowflake", "sqlite"))
    yield from (["hive", "x"], ["bigquery", "x"], ["storage", "int32"], ["registry", {"type": "struct", "fields": []}])
    yield from (["root", e] for e in ("library", "cli", "gateway"))
    for system in P.URLS:
        for entry in ENTRIES:
            yield ["url", entry, "ls", system, "recap", TEXTS.get(system)]
            for fmt in ["recap", "avro", "json"] + ["protobuf"] * (system in NAMED):
                if entry != "client" or fmt == "recap":
                    yield ["url", entry, "schema", system, fmt, TEXTS.get(system)]


OPS = list(every_op())


def minimal():
    """Each operation alone, with what it needs; and with all but one of the rest."""
    for i, op in enumerate(OPS):
        needs = P.needs(op)
        yield {"groups": sorted(set(needs)), "ops": [op]}
    for g in P.GROUPS:
        rest = [x for x in P.GROUPS if x != g]
        ops = [op for op in OPS if g not in P.needs(op)]
        yield {"groups": rest, "ops": ops[::2]}
        yield {"groups": rest, "ops": ops[1::2][::-1]}


@st.composite
def ops(draw):
    kind = draw(st.sampled_from(["one", "one", "one", "types", "text"]))
    if kind == "one":
        return draw(st.sampled_from(OPS))
    if kind == "types":
        return [draw(st.sampled_from(["types", "storage", "registry"])), draw(gen.nodes(max_depth=2).map(M.explicit_doc))]
    d = draw(D.documents())
    text, system = D.text(d), draw(st.sampled_from(["converter", "file", "csr"]))
    if system == "converter":
        return [d["format"], text]
    system = {"avro": "avsc", "json": "schema.json", "proto": "proto"}[d["format"]] if system == "file" else "csr-" + d["format"]
    entry = draw(st.sampled_from(ENTRIES))
    fmt = "recap" if entry == "client" else draw(st.sampled_from(["recap", "avro", "json", "protobuf"]))
    return ["url", entry, "schema", system, fmt, text]


@st.composite
def cases(draw):
    some = draw(st.lists(ops(), min_size=1, max_size=8))
    # what some of the operations need, and perhaps something else
    groups = set()
    for op in some:
        if draw(st.integers(0, 3)):
            groups |= set(P.needs(op))
    groups |= set(draw(st.lists(st.sampled_from(P.GROUPS), max_size=2)))
    return {"groups": sorted(groups), "ops": some}


def check(case, ctx):
    full, err = P.run(list(P.GROUPS), case["ops"])
    if err is not None:
        raise HarnessError(f"with everything installed: {err}")
    got, err = P.run(case["groups"], case["ops"])
    have = ", ".join(case["groups"]) or "no optional packages"
    ctx.require(err is None, lambda: f"with {have}, the process fails: {err}")
    for i, (op, a, b) in enumerate(zip(case["ops"], got, full)):
        met = set(P.needs(op)) <= set(case["groups"])
        ctx.label(op[0], "enough installed" if met else "not enough installed")
        if "answer" not in b:
            ctx.label("not an answer anyway")
            ctx.require("answer" not in a, lambda: f"with {have}, operation {i} ({short(op)}) answers {short(a)}, but with everything installed {short(b)}")
        elif met:
            ctx.interesting(len(case["groups"]) < len(P.GROUPS))
            ctx.require("answer" in a, lambda: f"with {have}, operation {i} ({short(op)}) fails: {a['error']}")
            ctx.require(a == b, lambda: f"with {have}, operation {i} ({short(op)}) answers {short(a)}, but with everything installed {short(b)}")
        else:
            ctx.require("answer" not in a or a == b, lambda: f"with {have}, operation {i} ({short(op)}) answers {short(a)}, but with everything installed {short(b)}")


PROPERTY = Property(
    "C35",
    [
        Facet("each", None, check, enumerate_all=lambda: list(minimal()),
              rule="every operation with exactly what it needs, and with everything but one group; non-trivial: an answer with something missing"),
        Facet("some", lambda: cases(), check, quick=20, thorough=800,
              rule="random operations in random order with random groups of packages; non-trivial: an answer with something missing"),
    ],
    assumptions=["services are stand-ins; a package that is not installed is one that can't be imported; groups are those of pyproject.toml, and the three database drivers"],
)
