"""C05: two types are equal exactly if nothing observable differs."""
import copy

from hypothesis import strategies as st

from vlib import gen, model as M
from vlib.harness import Facet, Property

import recap.types as T


@st.composite
def pairs(draw):
    a = draw(gen.nodes())
    if draw(st.integers(0, 5)) == 0:
        return {"a": a, "b": copy.deepcopy(a), "how": "copy"}
    b = copy.deepcopy(a)
    places = list(M.walk(b))
    # deep places first, half of the time
    n = places[-1] if draw(st.booleans()) else draw(st.sampled_from(places))
    options = ["doc", "logical", "extra+", "extraname"]
    if n["t"] != "proxy":
        options.append("alias")
    if n["extra"]:
        options += ["extra-", "extra~"]
    options += [k for k in M.OWN[n["t"]]]
    options.append("kind")
    how = draw(st.sampled_from(options))
    if how in ("doc", "logical", "alias"):
        n[how] = "q.Q" if n[how] is None else None
    elif how == "extra+":
        n["extra"]["zz"] = draw(st.sampled_from([None, 0, "x"]))
    elif how == "extraname":
        n["extra"]["name"] = n["extra"].get("name", "") + "_"
    elif how == "extra-":
        n["extra"].pop(sorted(n["extra"])[0])
    elif how == "extra~":
        n["extra"][sorted(n["extra"])[0]] = "~~~"
    elif how == "kind":
        new = M.N("bool") if n["t"] != "bool" else M.N("null")
        for k in ("doc", "logical", "extra"):
            new[k] = n[k]
        n.clear()
        n.update(new)
    elif how == "bits":
        n["bits"] = n["bits"] + 1 if n["bits"] < M.MAX32 else 8
    elif how in ("signed", "variable"):
        n[how] = not n[how]
        if how == "variable" and not n[how]:
            key = "length" if n["t"] == "list" else "bytes"
            n[key] = n[key] or 5
    elif how in ("bytes", "length"):
        n[how] = 17 if n[how] != 17 else 18
    elif how == "to":
        n["to"] = "int8" if n["to"] != "int8" else "int16"
    elif how == "symbols":
        s = n["symbols"]
        n["symbols"] = s[::-1] if s != s[::-1] and draw(st.booleans()) else s + ["ZZZ"]
    elif how in ("fields", "types"):
        v = n[how]
        k = draw(st.integers(0, 2))
        if k == 0 and v:
            v.pop()
        elif k == 1 and len(v) > 1 and M.diff(v[0], v[1]):
            v[0], v[1] = v[1], v[0]
        else:
            v.append(M.N("bool"))
    elif how in ("values", "keys"):
        n[how] = M.N("list", values=n[how])
    return {"a": a, "b": b, "how": how}


KINDS = [(t, k) for t in sorted(M.OWN) for k in M.OWN[t]] + [
    (t, k) for t in sorted(M.OWN) for k in ("doc", "logical", "alias", "extra", "kind") if not (t == "proxy" and k == "alias")]
SYMBOLS = ["A", "B", "C", "a", "AB", "", "A "]


def _leaf(draw, t):
    """A node of kind t with attributes worth changing."""
    if t in ("null", "bool"):
        n = M.N(t)
    elif t == "int":
        n = M.I(draw(gen.bits), draw(st.booleans()))
    elif t == "float":
        n = M.F(draw(gen.bits))
    elif t in ("string", "bytes"):
        n = M.N(t, bytes=draw(gen.lengths), variable=draw(st.booleans()))
    elif t == "list":
        n = M.N(t, values=M.N("bool"), length=draw(gen.lengths), variable=draw(st.booleans()))
    elif t == "map":
        n = M.N(t, keys=M.N("string", bytes=None, variable=True), values=M.N("bool"))
    elif t in ("struct", "union"):
        n = M.N(t, **{"fields" if t == "struct" else "types": draw(st.lists(st.sampled_from(
            [M.N("bool"), M.N("null"), M.I(8, True), M.I(8, False)]), max_size=4).map(copy.deepcopy))})
    elif t == "enum":
        n = M.N(t, symbols=draw(st.lists(st.sampled_from(SYMBOLS), max_size=5)))
    else:
        n = M.N("proxy", to=draw(st.sampled_from(sorted(M.BUILTINS))))
    if draw(st.booleans()):
        n["extra"] = {k: draw(gen.json_values) for k in draw(st.lists(gen.extra_names, max_size=3, unique=True))}
    for k in ("doc", "logical", "alias"):
        if draw(st.integers(0, 3)) == 0 and not (t == "proxy" and k == "alias"):
            n[k] = "p.P"
    return n


def _reorder(draw, v):
    how = draw(st.integers(0, 4))
    if how == 0:
        return list(draw(st.permutations(v)))
    if how == 1 and v:
        i = draw(st.integers(0, len(v) - 1))
        return v[:i] + [v[i]] + v[i:]  # twice
    if how == 2 and v:
        i = draw(st.integers(0, len(v) - 1))
        return v[:i] + v[i + 1:]
    if how == 3:
        return sorted(v, key=repr)
    return v[::-1]


@st.composite
def attributes(draw):
    """One kind, one attribute, a changed value; then the same wrapped alike."""
    t, k = draw(st.sampled_from(KINDS))
    a = _leaf(draw, t)
    b = copy.deepcopy(a)
    if k in ("doc", "logical", "alias"):
        b[k] = draw(st.sampled_from([None, "", "p.P", "q.Q", "p.P "] if k != "alias" else [None, "p.P", "q.Q"]))
    elif k == "extra":
        names = sorted(b["extra"])
        if names and draw(st.booleans()):
            key = draw(st.sampled_from(names))
            if draw(st.booleans()):
                b["extra"][key] = draw(gen.json_values)
            else:
                del b["extra"][key]
        else:
            b["extra"][draw(st.sampled_from(["name", "default", "precision", "scale", "unit", "zz"]))] = draw(gen.json_values)
    elif k == "kind":
        t2 = draw(st.sampled_from(sorted(M.OWN)))
        other = _leaf(draw, t2)
        for key in ("doc", "logical", "extra"):
            other[key] = copy.deepcopy(a[key])
        for key in M.OWN[t2]:
            if key in M.OWN[t]:
                other[key] = copy.deepcopy(a[key])
        b = other
    elif k in ("symbols", "fields", "types"):
        b[k] = copy.deepcopy(_reorder(draw, b[k]))
    elif k in ("signed", "variable"):
        b[k] = not b[k]
    elif k == "bits":
        b[k] = draw(st.sampled_from([max(1, b[k] - 1), min(M.MAX32, b[k] + 1), 8, 64]))
    elif k in ("bytes", "length"):
        b[k] = draw(st.sampled_from([max(1, b[k] - 1), min(M.MAX64, b[k] + 1), 5]))
        if b["variable"] and draw(st.booleans()):
            b[k] = None
    elif k == "to":
        b[k] = draw(st.sampled_from(sorted(M.BUILTINS)))
    else:
        b[k] = draw(st.sampled_from([M.N("bool"), M.N("null"), M.I(8, True), M.N("proxy", to="int8")]))
    for _ in range(draw(st.integers(0, 3))):
        wrap = draw(st.sampled_from(["list", "keys", "values", "struct", "union"]))
        pair = []
        for n in (a, b):
            o = M.N("bool")
            pair.append(
                M.N("list", values=n, length=None, variable=True) if wrap == "list"
                else M.N("map", keys=n, values=o) if wrap == "keys"
                else M.N("map", keys=o, values=n) if wrap == "values"
                else M.N("struct", fields=[o, n]) if wrap == "struct"
                else M.N("union", types=[M.N("null"), n, o]))
        a, b = pair
    return {"a": a, "b": b, "how": f"{t}.{k}"}


def equal(x, y):
    """Values as Python compares them (True is 1)."""
    return x == y


def same(a, b):
    if a["t"] != b["t"]:
        return False
    for k in ("alias", "doc", "logical", "extra"):
        if not equal(a[k], b[k]):
            return False
    for k in M.OWN[a["t"]]:
        x, y = a[k], b[k]
        if k in M.CHILD_KEYS:
            x, y = (x, y) if isinstance(x, list) else ([x], [y])
            if len(x) != len(y) or not all(same(p, q) for p, q in zip(x, y)):
                return False
        elif x != y:
            return False
    return True


def check(case, ctx):
    a, b = M.build(case["a"]), M.build(case["b"])
    want = same(case["a"], case["b"])
    ctx.interesting(M.size(case["a"]) > 1)
    ctx.label("how:" + case["how"], "equal" if want else "different")
    ctx.equal(a == b, want, f"== after {case['how']}: {M.show(case['a'])} vs {M.show(case['b'])}")
    ctx.equal(b == a, want, f"reflected == after {case['how']}")
    ctx.equal(a != b, not want, f"!= after {case['how']}")
    ctx.require(a == a, "a type is not equal to itself")
    ctx.require(a != "int32" and not (a == 5) and a != None, "equal to something that is no type")  # noqa: E711
    c = copy.deepcopy(a)
    ctx.require(c == a and a == c, "a deep copy is not equal to the original")
    # documents of equal types are equal, and of different types different
    ctx.equal(T.to_dict(a, clean=False, alias=False) == T.to_dict(b, clean=False, alias=False), want,
              "whether the explicit documents are equal")


PROPERTY = Property(
    "C05",
    [Facet("equality", pairs, check, quick=900, thorough=12000,
           rule="a random schema and a copy with at most one attribute changed anywhere; non-trivial: more than one node"),
     Facet("attributes", attributes, check, quick=1200, thorough=20000,
           rule="every attribute of every kind changed in turn (values, order, repetition), nested up to 3 deep; non-trivial: nested")],
)
