"""Generators of model nodes and schema documents."""
from __future__ import annotations

import copy
from typing import Any

from .boot import boot

boot()
from hypothesis import strategies as st  # noqa: E402

from . import model as M  # noqa: E402

LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"


def ident(max_size=8):
    return st.builds(
        lambda a, b: a + b,
        st.sampled_from(LETTERS),
        st.text(alphabet=LETTERS + "0123456789", max_size=max_size - 1),
    )


# Names users really have in tables and documents, odd ones included.
field_names = st.one_of(
    st.sampled_from(["id", "name", "value", "a", "b", "c", "type", "default", "doc", "x y", "ünï", "A", "optional"]),
    ident(),
    st.text(min_size=1, max_size=6),
)

docs = st.one_of(
    st.sampled_from(["d", "the doc", "", "null", "multi\nline \"quoted\" [bold]x[/bold]"]),
    st.text(max_size=12),
)

json_scalars = st.one_of(
    st.none(),
    st.booleans(),
    st.integers(-(2**63), 2**63 - 1),
    st.sampled_from([0, 1, -1, 0.5, -2.25, 1e300, "", "x", "null", "0"]),
    st.text(max_size=6),
)
json_values = st.recursive(
    json_scalars,
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=4), c, max_size=3)),
    max_leaves=5,
)

extra_names = st.sampled_from(
    ["precision", "scale", "unit", "timezone", "charset", "comment", "null", "custom", "x-attr", "with space", "size", "symbols_"]
)
# Attributes some types have, with the values they have by default, are just
# extra attributes of the other types.
foreign_names = st.sampled_from(["signed", "variable", "length"])


bits = st.one_of(
    st.sampled_from([8, 16, 32, 64, 1, 7, 24, 128, M.MAX32]), st.integers(1, M.MAX32)
)
lengths = st.one_of(
    st.sampled_from([1, 2, 16, 32, 36, 255, 65535, M.MAX32, M.MAX32 + 1, M.MAX64]),
    st.integers(1, M.MAX64),
)
logicals = st.sampled_from(
    ["build.recap.Timestamp", "build.recap.Decimal", "build.recap.UUID", "com.acme.Thing", "x"]
)


@st.composite
def symbols(draw, one):
    """The symbols of an enum, now and then many."""
    if draw(st.integers(0, 5)):
        return draw(st.lists(one, max_size=4))
    more = [f"S{i}" for i in range(draw(st.integers(8, 40)))]
    return draw(st.lists(one, max_size=2)) + (more if draw(st.booleans()) else more[::-1])


class GenState:
    def __init__(self, aliases: bool):
        self.aliases = aliases
        self.defined: list[str] = []
        self.budget = 14


@st.composite
def nodes(
    draw,
    max_depth=4,
    aliases=True,
    proxies=True,
    kinds=("null", "bool", "int", "float", "string", "bytes", "list", "map", "struct", "enum", "union"),
    top=None,
    attrs=True,
    names=field_names,
):
    state = GenState(aliases)
    nest = [k for k in kinds if k in ("list", "map", "struct", "union")]
    if top is None and nest and max_depth > 1 and draw(st.integers(0, 4)) != 0:
        top = nest
    return _node(draw, state, max_depth, proxies, kinds, top, attrs, names, False)


def _node(draw, state, max_depth, proxies, kinds, top, attrs, names, named):
    state.budget -= 1
    leaf_kinds = [k for k in kinds if k not in ("list", "map", "struct", "union")]
    if proxies:
        leaf_kinds = leaf_kinds + ["builtin", "builtin"]
        if state.defined:
            leaf_kinds.append("ref")
    nest = [k for k in kinds if k in ("list", "map", "struct", "union")]
    if top is not None:
        t = draw(st.sampled_from(top))
    elif max_depth <= 1 or state.budget <= 0 or not nest:
        t = draw(st.sampled_from(leaf_kinds))
    else:
        t = draw(st.sampled_from(leaf_kinds + nest + nest))

    alias = None
    if (
        state.aliases
        and t not in ("builtin", "ref")
        and len(state.defined) < 4
        and draw(st.integers(0, 5)) == 0
    ):
        alias = draw(st.sampled_from(["a", "com.acme", "p_1", "_x"])) + "." + draw(
            st.sampled_from(["B", "Thing", "T1", "_y"])
        ) + (str(len(state.defined)) if state.defined else "")
        # inside its own definition the alias may already be referred to
        state.defined.append(alias)

    def sub(**kw):
        return _node(
            draw, state, max_depth - 1, proxies, kinds, kw.get("top"), attrs, names, kw.get("named", False)
        )

    if t == "null":
        node = M.N("null")
    elif t == "bool":
        node = M.N("bool")
    elif t == "int":
        node = M.I(draw(bits), draw(st.booleans()))
    elif t == "float":
        node = M.F(draw(bits))
    elif t in ("string", "bytes"):
        variable = draw(st.integers(0, 3)) != 0
        b = draw(lengths) if not variable or draw(st.booleans()) else None
        node = M.N(t, bytes=b, variable=variable)
    elif t == "list":
        variable = draw(st.integers(0, 3)) != 0
        ln = draw(lengths) if not variable or draw(st.integers(0, 3)) == 0 else None
        node = M.N("list", values=sub(), length=ln, variable=variable)
    elif t == "map":
        node = M.N("map", keys=sub(), values=sub())
    elif t == "struct":
        n = draw(st.integers(0, 4)) if draw(st.integers(0, 15)) else draw(st.integers(8, 14))
        node = M.N("struct", fields=[sub(named=True) for _ in range(n)])
    elif t == "enum":
        node = M.N("enum", symbols=draw(symbols(ident(4))))
    elif t == "union":
        n = draw(st.integers(0, 3)) if draw(st.integers(0, 9)) else draw(st.integers(4, 7))
        types = [sub() for _ in range(n)]
        shape = draw(st.integers(0, 5))
        if shape <= 2:
            types = [M.N("null")] + (types[:2] if n < 4 else types)
        elif shape == 3:
            types = (types[:2] if n < 4 else types) + [M.N("null")]
        elif shape == 4 and n >= 4:
            types.insert(2, M.N("null"))
        node = M.N("union", types=types)
        if draw(st.booleans()):
            node["extra"]["default"] = None if draw(st.booleans()) else draw(json_values)
    elif t == "builtin":
        node = M.N("proxy", to=draw(st.sampled_from(sorted(M.BUILTINS))))
        if draw(st.integers(0, 2)) == 0:
            node = copy.deepcopy(M.BUILTINS[node["to"]])
    elif t == "ref":
        node = M.N("proxy", to=draw(st.sampled_from(state.defined)))
    else:
        raise AssertionError(t)
    node["alias"] = alias
    if named and draw(st.integers(0, 9)) != 0 or draw(st.integers(0, 14)) == 0:
        node["extra"]["name"] = draw(names)
    if attrs:
        if draw(st.integers(0, 4)) == 0:
            node["doc"] = draw(docs)
        if node["t"] != "proxy" and node["logical"] is None and draw(st.integers(0, 9)) == 0:
            node["logical"] = draw(logicals)
        if draw(st.integers(0, 7)) == 0:
            node["extra"].setdefault("default", draw(json_values))
        if draw(st.integers(0, 7)) == 0:
            for k in draw(st.lists(extra_names, min_size=1, max_size=2, unique=True)):
                node["extra"].setdefault(k, draw(json_values))
        if node["t"] != "proxy" and draw(st.integers(0, 14)) == 0:
            k = draw(foreign_names)
            if k not in M.OWN[node["t"]]:
                node["extra"].setdefault(k, draw(st.sampled_from([True, None, False, 1])))
    return node


# ------------------------------------------------------------ sugared documents


@st.composite
def sugared(draw, node_strategy):
    """(node, document): a document in which sugar is used at random, together
    with the node it means by the documented rules."""
    node = draw(node_strategy)
    return {"node": node, "doc": sugar(draw, node)}


def sugar(draw, node: dict) -> Any:
    coin = lambda: draw(st.booleans())  # noqa: E731
    t = node["t"]
    d: dict[str, Any] = {}
    if t == "proxy":
        d["type"] = node["to"]
    else:
        d["type"] = t
        if node["alias"] is not None:
            d["alias"] = node["alias"]
        elif coin() and coin():
            d["alias"] = None
    for k in ("logical", "doc"):
        if node[k] is not None:
            d[k] = node[k]
        elif draw(st.integers(0, 7)) == 0:
            d[k] = None
    d.update(copy.deepcopy(node["extra"]))
    defaults = M.DEFAULTS.get(t, {})
    for k in M.OWN[t]:
        if k == "to":
            continue
        v = node[k]
        if k in M.CHILD_KEYS:
            d[k] = [sugar(draw, c) for c in v] if isinstance(v, list) else sugar(draw, v)
        elif k in defaults and M.same_json(defaults[k], v) and coin():
            pass
        else:
            d[k] = copy.deepcopy(v)
    # Use an alias instead of spelling a builtin out
    if t != "proxy" and t in ("int", "float", "string", "bytes") and node["alias"] is None and coin():
        for name, b in M.BUILTINS.items():
            # every attribute that makes up the builtin is there; the rest stays
            if (
                b["t"] == t
                and all(M.same_json(b[k], node[k]) for k in M.OWN[t])
                and b["logical"] == node["logical"]
                and all(k in node["extra"] and M.same_json(node["extra"][k], v) for k, v in b["extra"].items())
            ):
                d = {k: v for k, v in d.items() if k not in M.OWN[t] and k not in b["extra"]}
                d.pop("logical", None)
                d.pop("alias", None)
                d["type"] = name
                break
    # "optional": true stands for a union with null first and a default
    if (
        t == "union"
        and node["types"]
        and _plain_null(node["types"][0])
        and not any(_plain_null(x) for x in node["types"][1:])
        and "default" in node["extra"]
        and coin()
    ):
        rest = d["types"][1:]
        if (
            len(rest) == 1
            and coin()
            and node["alias"] is None
            and node["logical"] is None
            and set(node["extra"]) <= {"name", "default"}
            and node["types"][1]["t"] != "union"
            and node["types"][1]["doc"] is None
            and not set(node["types"][1]["extra"]) & {"name", "default", "optional"}
        ):
            inner = rest[0]
            inner = {"type": inner} if isinstance(inner, str) else dict(inner)
            for k in ("name", "default"):
                if k in d:
                    inner[k] = d[k]
            if node["doc"] is not None:
                inner["doc"] = node["doc"]
            d = inner
        else:
            d["types"] = rest
        d["optional"] = True
        if d.get("default", 0) is None and coin():
            del d["default"]
    elif t == "union" and "null" in d["types"] and "default" in d and coin():
        # there is one already
        d["optional"] = True
        if d["default"] is None and coin():
            del d["default"]
    elif t == "union":
        if coin():
            d["type"] = d.pop("types")
    if coin():
        if set(d) == {"type"} and isinstance(d["type"], str):
            return d["type"]
        if set(d) == {"type", "types"} and d["type"] == "union":
            return d["types"]
        if set(d) == {"type"} and isinstance(d["type"], list):
            return d["type"]
    return d


def _plain_null(n):
    return n["t"] == "null" and not n["extra"] and all(n[k] is None for k in ("alias", "doc", "logical"))
