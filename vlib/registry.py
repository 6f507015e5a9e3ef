"""A model of the registry: name -> version -> type."""
from __future__ import annotations

import contextlib
import os
import shutil
import tempfile

from hypothesis import strategies as st

from . import gen, model as M
from .guard import guard
from .stubs import memory

# Names that could be taken for one another, or for something else.
TRICKY = [
    "a", "A", "a/b", "a%2Fb", "a%2fb", "a b", "a+b", "a%20b", "a%2Bb", "a%252Fb", ".", "..", "...", "%2E", "%2e", "%2E%2E",
    "../a", "a/..", "/a", "a/", "//", "/", "a/versions", "versions", "1", "1.json", "a/1.json", "a.json", "1.json.tmp", ".tmp",
    "*", "a*", "?", "[a]", "[ab]", "{a}", "~", "~root", "$HOME", "a\\b", "\\", "C:", "a:b", "memory://a", "file:///a", "é", "e\u0301",
    "\u2024", "\uff0e\uff0e", "日本", "\U0001f600", " ", "a ", " a", "+", "%", "%%", "%zz", "\n", "a\tb", "\x00", "a\x00b", "\x7f", "null", "0", "-", "--",
    "'", '"', "a;b", "a,b", "a&b=c", "a#b", "a?b", "a=b", "@", "con", ".hidden", "a..b", ". .", "._.",
]
def _long(stem, n, tail):
    return (stem * n)[:n] + tail


# As long as a directory's name may be (255 bytes), and the same at first.
long_names = st.builds(_long, st.sampled_from(["a", "com.acme.", "ab-"]), st.sampled_from([31, 63, 64, 100, 127, 128, 150, 199, 250, 254]), st.sampled_from("abc0"))
names = st.one_of(
    st.sampled_from(TRICKY), st.sampled_from(TRICKY), st.sampled_from(["a", "b", "orders", "com.acme.Order"]),
    st.text(alphabet=st.sampled_from("./%+ 2EeFfab\\~*"), min_size=1, max_size=6),
    st.text(st.characters(blacklist_categories=("Cs",)), min_size=1, max_size=6),
)


def small_nodes(**kw):
    return gen.nodes(max_depth=3, **kw)


# Bare and shorthand types are types, too.
types = st.one_of(small_nodes(), small_nodes(), st.sampled_from([M.I(32), M.S(), M.N("null"), M.N("struct", fields=[]), M.N("list", values=M.I(8))]))


@contextlib.contextmanager
def places(kind, tail=""):
    """A scratch place for a registry: its URL, fsspec's filesystem and root."""
    if kind == "memory":
        with memory() as (fs, root):
            yield f"memory://{root}/registry{tail}", fs, root
    else:
        import fsspec

        root = tempfile.mkdtemp(prefix="registry-", dir=os.environ.get("VERIF_WORK"))
        try:
            url = {"file": f"file://{root}/registry{tail}", "path": f"{root}/registry{tail}"}[kind]
            with guard(root):
                yield url, fsspec.filesystem("file"), root
        finally:
            shutil.rmtree(root, ignore_errors=True)


class Model:
    def __init__(self):
        self.types: dict[str, dict[int, dict]] = {}

    def next(self, name):
        return max(self.types.get(name, {0: None})) + 1

    def put(self, name, version, node):
        self.types.setdefault(name, {})[version] = node

    def verify(self, ctx, storage, absent=(), what=""):
        """Everything the storage shows is what the model holds."""
        ctx.equal(sorted(storage.ls()), sorted(self.types), f"{what}names")
        ctx.equal(storage.ls(), sorted(storage.ls()), f"{what}names are sorted")
        for name, versions in self.types.items():
            ctx.equal(list(storage.versions(name) or []), sorted(versions), f"{what}versions of {name!r}")
            ctx.equal(storage.latest(name), max(versions), f"{what}latest version of {name!r}")
            for v, node in versions.items():
                same(ctx, storage.get(name, v), node, v, f"{what}version {v} of {name!r}")
            same(ctx, storage.get(name), versions[max(versions)], max(versions), f"{what}{name!r}")
            for v in {0, max(versions) + 1, 10 * max(versions), -1} - set(versions):
                ctx.equal(storage.get(name, v), None, f"{what}version {v} of {name!r}, which was never stored")
        for name in absent:
            if name not in self.types:
                ctx.equal(storage.get(name), None, f"{what}{name!r}, which was never stored")
                ctx.equal(storage.get(name, 1), None, f"{what}version 1 of {name!r}, which was never stored")
                ctx.require(not storage.versions(name), lambda: f"{what}{name!r}, which was never stored, has versions {storage.versions(name)}")
                ctx.equal(storage.latest(name), None, f"{what}latest version of {name!r}, which was never stored")


def same(ctx, got, node, version, what):
    ctx.require(got is not None, lambda: f"{what} is not found")
    rt, v = got
    ctx.equal(v, version, f"{what}: version number")
    d = M.diff(M.observe(rt), node, M.definitions(node))
    ctx.require(d is None, lambda: f"{what} reads back as another type: {d}")
