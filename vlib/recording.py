"""A filesystem in memory that notes every path it is given."""
from __future__ import annotations

import inspect
import threading

import fsspec
from fsspec.implementations.memory import MemoryFileSystem

SKIP = {"_strip_protocol", "unstrip_protocol", "_parent", "_get_kwargs_from_urls", "start_transaction", "end_transaction"}


def paths(method, args, kw):
    """The arguments that name files, by fsspec's names for them."""
    try:
        given = inspect.signature(method).bind(*args, **kw).arguments
    except TypeError:
        given = kw
    given = {**given, **given.get("kwargs", {})}
    out = []
    for k, v in given.items():
        if "path" in k or k in ("root", "old", "new", "src", "dst"):
            out += [p for p in (v if isinstance(v, (list, tuple, dict)) else [v]) if isinstance(p, str)]
    return out


class RecordingFileSystem(MemoryFileSystem):
    protocol = "recording"
    store: dict = {}
    pseudo_dirs = [""]
    calls: list = []
    _depth = threading.local()

    def __getattribute__(self, name):
        value = super().__getattribute__(name)
        if name.startswith("__") or name in SKIP or not inspect.ismethod(value):
            return value
        depth = RecordingFileSystem._depth

        def wrapped(*args, **kw):
            outer = getattr(depth, "n", 0) == 0
            if outer:
                RecordingFileSystem.calls.append((name, paths(value, args, kw)))
            depth.n = getattr(depth, "n", 0) + 1
            try:
                return value(*args, **kw)
            finally:
                depth.n -= 1

        return wrapped

    @classmethod
    def _strip_protocol(cls, path):
        path = path.removeprefix("recording://")
        return "/" + path.strip("/") if path.strip("/") else ""

    @classmethod
    def clear(cls):
        cls.store.clear()
        cls.pseudo_dirs[:] = [""]
        cls.calls.clear()


fsspec.register_implementation("recording", RecordingFileSystem, clobber=True)
