"""C22: The schema registry client reads the latest schema of the subject asked for."""
from hypothesis import strategies as st

from vlib import docs as D, model as M
from vlib.harness import Facet, Property, call
from vlib.stubs import FakeRegistry

from recap.clients.confluent_registry import ConfluentRegistryClient

KIND = {"avro": "AVRO", "json": "JSON", "proto": "PROTOBUF"}
bases = st.one_of(
    st.sampled_from(["orders", "a", "b", "a-key", "a-value", "key", "value", "a.b", "a b", "ünï", "a/b", "%41", "-key", "a-key-value", "a-VALUE", "akey", ":.ctx:a"]),
    st.text(min_size=1, max_size=6),
)


@st.composite
def cases(draw):
    pool = draw(st.lists(bases, min_size=1, max_size=3, unique=True))
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(["register", "register", "read", "read", "ls"]))
        s = {"op": op}
        if op == "register":
            s["subject"] = draw(st.sampled_from(pool)) + draw(st.sampled_from(["", "-value", "-value", "-key"]))
            s["doc"] = draw(D.documents())
            # Types the client does not know.
            s["kind"] = draw(st.sampled_from([KIND[s["doc"]["format"]]] * 9 + ["XML", "avro"]))
        elif op == "read":
            s["subject"] = draw(st.sampled_from(pool)) + draw(st.sampled_from(["", "", "-value", "-key"]))
            s["client"] = draw(st.integers(0, 1))
        steps.append(s)
    return {"steps": steps}


def asked(subject):
    return subject if subject.endswith(("-key", "-value")) else subject + "-value"


def check(case, ctx):
    registry = FakeRegistry()
    clients = [ConfluentRegistryClient(registry), ConfluentRegistryClient(registry)]
    model: dict = {}
    reads = 0
    # everything is also read at the end
    tail = [{"op": "read", "subject": s["subject"], "client": 0} for s in case["steps"] if s["op"] == "register"]
    for i, s in enumerate(case["steps"] + [{"op": "ls"}] + tail):
        if s["op"] == "register":
            registry.register(s["subject"], s["kind"], D.text(s["doc"]))
            model.setdefault(s["subject"], []).append(s)
        elif s["op"] == "ls":
            ctx.equal(sorted(clients[0].ls()), sorted(model), f"step {i}: subjects")
        else:
            name = asked(s["subject"])
            value, err = call(clients[s["client"]].schema, s["subject"])
            if name not in model:
                ctx.require(err is not None, lambda: f"step {i}: {s['subject']!r} is not registered, but was read as {M.show(M.observe(value))}")
                continue
            last = model[name][-1]
            if last["kind"] not in KIND.values():
                ctx.require(err is not None, lambda: f"step {i}: a schema of type {last['kind']} was read as {M.show(M.observe(value))}")
                continue
            ctx.require(err is None, lambda: f"step {i}: reading {s['subject']!r} fails: {err!r}")
            D.check(ctx, last["doc"], value, f"step {i}, subject {s['subject']!r}")
            reads += 1
            if len(model[name]) > 1:
                ctx.label("several versions")
            ctx.label("kind:" + last["kind"])
    ctx.interesting(reads > 1)


PARTS = ["a", "orders", "key", "value", "-key", "-value", "-", "-Key", "-VALUE", ".", "_", " ", "-keys", "-valued", "s"]
names = st.lists(st.sampled_from(PARTS), min_size=1, max_size=4).map("".join)


@st.composite
def subjects(draw):
    """Names around the suffixes; every neighbouring subject exists or not, each with a schema of its own."""
    asked_for = draw(names)
    near = {asked_for, asked_for + "-value", asked_for + "-key", asked_for + "-value-value", asked_for.removesuffix("-value"),
            asked_for.removesuffix("-key"), asked_for.removesuffix("-key") + "-value", asked_for.lower(), asked_for + "s"}
    present = draw(st.lists(st.sampled_from(sorted(near - {""})), min_size=1, max_size=6, unique=True))
    return {"ask": asked_for, "present": [[n, draw(st.sampled_from(["AVRO", "JSON", "PROTOBUF"])), draw(st.integers(1, 3))] for n in present]}


def plain(kind, field):
    return {
        "AVRO": '{"type": "record", "name": "R", "fields": [{"name": "%s", "type": "int"}]}',
        "JSON": '{"type": "object", "properties": {"%s": {"type": "integer"}}}',
        "PROTOBUF": 'syntax = "proto3";\nmessage R { int32 %s = 1; }',
    }[kind] % field


def check_subjects(case, ctx):
    registry = FakeRegistry()
    for i, (name, kind, versions) in enumerate(case["present"]):
        for v in range(versions):
            registry.register(name, kind, plain(kind, f"f{i}_v{v}"))
    client = ConfluentRegistryClient(registry)
    ctx.equal(sorted(client.ls()), sorted(n for n, _, _ in case["present"]), "subjects")
    at = {n: (i, v) for i, (n, _, v) in enumerate(case["present"])}
    for ask in [case["ask"]] + [n for n, _, _ in case["present"]]:
        want = asked(ask)
        value, err = call(client.schema, ask)
        if want not in at:
            ctx.require(err is not None, lambda: f"{ask!r}: {want!r} is not registered, but {M.show(M.observe(value))} was read")
            ctx.label("absent")
            continue
        ctx.require(err is None, lambda: f"reading {ask!r} ({want!r} is registered) fails: {err!r}")
        i, v = at[want]
        ctx.equal([f.extra_attrs.get("name") for f in value.fields], [f"f{i}_v{v - 1}"], f"fields of {ask!r}")
        ctx.label("suffix added" if want != ask else "as asked")
    ctx.interesting(len(case["present"]) > 1)


PROPERTY = Property(
    "C22",
    [Facet("histories", lambda: cases(), check, quick=500, thorough=8000,
           rule="random registrations and reads; non-trivial: at least two successful reads"),
     Facet("subjects", lambda: subjects(), check_subjects, quick=500, thorough=8000,
           rule="names made of key, value, hyphens and more, with some of the neighbouring subjects registered; non-trivial: at least two subjects")],
    assumptions=["the registry is a stand-in for confluent_kafka's SchemaRegistryClient"],
)
