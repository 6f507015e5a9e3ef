"""Information-schema rows of generated tables, shared by the database checks."""
from __future__ import annotations

import copy
import re

from hypothesis import strategies as st

from . import model as M

ALIAS = re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*(\.[a-zA-Z_][a-zA-Z0-9_]*)+")

column_names = st.one_of(
    st.sampled_from(["id", "name", "a", "b", "a_b", "a.b", "a b", "a-b", "1st", "A", "ünï", "select", "_", "x.y.z", "x_y_z", "%s", "a\"b", "root", "o'k"]),
    st.text(min_size=1, max_size=8),
)
defaults = st.one_of(
    st.none(),
    st.sampled_from(["NULL", "0", "''::character varying", "nextval('t_id_seq'::regclass)", "'a''b'", "CURRENT_TIMESTAMP", "", "false", "{}"]),
    st.text(max_size=8),
)
precisions = st.one_of(st.sampled_from([1, 5, 10, 18, 38, 65]), st.integers(1, 1000))
octets = st.one_of(st.sampled_from([1, 4, 20, 255, 1020, 65535, 16777215, 1073741824, 4294967295]), st.integers(1, 2**40))


def unit(p):
    """The time unit of a fractional seconds precision."""
    return "second" if p == 0 else "millisecond" if p <= 3 else "microsecond"


@st.composite
def spelled(draw, word):
    """Catalogs report types in any letter case."""
    how = draw(st.integers(0, 3))
    return word if how < 2 else word.upper() if how == 2 else word.title()


@st.composite
def tables(draw, types, max_columns=6):
    """types: strategy of {"k": kind, "row": {...}, ...}"""
    cols = []
    names = draw(st.lists(column_names, max_size=max_columns, unique=True))
    if not draw(st.integers(0, 19)):
        names = list(dict.fromkeys(names + [f"column {i}" for i in range(draw(st.integers(8, 30)))]))
    for name in names:
        cols.append(dict(
            draw(types),
            name=name,
            nullable=draw(st.booleans()),
            default=draw(defaults),
        ))
    return {"columns": cols}


def spellings(word):
    return list(dict.fromkeys([word, word.upper(), word.title()]))


def grid(types, **more):
    """Every type with every kind of default, alone, twice and next to all others."""
    types = list(types)
    for i, t in enumerate(types):
        for j, (nullable, default) in enumerate([(n, d) for n in (False, True) for d in (None, "0", "NULL", "", "now()")]):
            cols = [dict(copy.deepcopy(t), name="a b", nullable=nullable, default=default)]
            if j % 3 == 0:
                cols.append(dict(copy.deepcopy(t), name="a_b", nullable=not nullable, default=None))
                cols.insert(0, dict(copy.deepcopy(types[(i * 7 + j) % len(types)]), name="z", nullable=True, default="1"))
            yield {"columns": cols, **more}
    step = 40
    for i in range(0, len(types), step):
        yield {"columns": [dict(copy.deepcopy(t), name=f"c{k}", nullable=k % 2 == 0, default=None) for k, t in enumerate(types[i:i + step])], **more}


def rows(case):
    out = []
    for i, c in enumerate(case["columns"]):
        out.append({
            "TABLE_CATALOG": "cat", "TABLE_SCHEMA": "sch", "TABLE_NAME": "tab",
            "COLUMN_NAME": c["name"], "ORDINAL_POSITION": i + 1,
            "COLUMN_DEFAULT": c["default"], "IS_NULLABLE": "YES" if c["nullable"] else "NO",
            "CHARACTER_MAXIMUM_LENGTH": None, "CHARACTER_OCTET_LENGTH": None,
            "NUMERIC_PRECISION": None, "NUMERIC_SCALE": None, "DATETIME_PRECISION": None,
            "UDT_NAME": None, "ATTNDIMS": 0, "ENUM_VALUES": None,
            **copy.deepcopy(c["row"]),
        })
    return out


def field(node, c):
    """The field a column of this type becomes."""
    if c["nullable"]:
        return M.N("union", types=[M.N("null"), node], extra={"default": c["default"], "name": c["name"]})
    node = copy.deepcopy(node)
    node["extra"]["name"] = c["name"]
    if c["default"] is not None:
        node["extra"]["default"] = c["default"]
    return node


def check_arrays(ctx, struct, got):
    """References of array columns are valid, unique and resolve to the array;
    returns the alias of every column."""
    aliases = []
    for f, node in zip(struct.fields, got["fields"]):
        types = f.types if node["t"] == "union" else [f]
        alias = None
        for t in types:
            if M.observe(t)["t"] == "list" and t.alias is not None:
                alias = t.alias
                ctx.require(ALIAS.fullmatch(alias), lambda: f"alias {alias!r} is not a qualified name")
                ctx.require(alias not in aliases, lambda: f"alias {alias!r} is used for two columns")
                # follow the reference a few times
                cur = t
                for _ in range(3):
                    proxies = [x for x in cur.values.types if M.observe(x)["t"] == "proxy"]
                    ctx.equal([p.alias for p in proxies], [alias], "reference of an array to itself")
                    cur = proxies[0].resolve()
                    o, w = M.observe(cur), M.observe(t)
                    d = M.diff(dict(o, extra={}, alias=None), dict(w, extra={}, alias=None))
                    ctx.require(d is None, lambda: f"the array refers to something else: {d}")
        aliases.append(alias)
    return aliases
