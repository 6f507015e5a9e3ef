"""A filesystem in memory, an operation of which fails."""
from __future__ import annotations

import errno
import inspect
import threading

import fsspec
from fsspec.implementations.memory import MemoryFileSystem

SKIP = {"_strip_protocol", "unstrip_protocol", "_parent", "_get_kwargs_from_urls", "to_json"}


class Crash(BaseException):
    """The process is gone: nothing it does afterwards has any effect."""


ERRORS = {
    "io": lambda: OSError(errno.EIO, "injected: input/output error"),
    "space": lambda: OSError(errno.ENOSPC, "injected: no space left on device"),
    "permission": lambda: PermissionError(errno.EACCES, "injected: permission denied"),
    "timeout": lambda: TimeoutError("injected: timed out"),
    "crash": lambda: Crash("injected: crash"),
}


class Plan:
    """What fails: the `at`-th operation from now on (None: nothing)."""

    at: int | None = None
    error = "io"
    n = 0
    fired: str | None = None
    dead = False

    @classmethod
    def arm(cls, at, error):
        cls.at, cls.error, cls.n, cls.fired, cls.dead = at, error, 0, None, False

    @classmethod
    def disarm(cls):
        cls.arm(None, "io")

    @classmethod
    def step(cls, what):
        """True if this operation fails (raise with `cls.die()`)."""
        if cls.dead:
            raise ERRORS["crash"]()
        k = cls.n
        cls.n += 1
        if k == cls.at:
            cls.fired = what
            return True
        return False

    @classmethod
    def die(cls):
        if cls.error == "crash":
            cls.dead = True
        raise ERRORS[cls.error]()


class FaultyFile:
    def __init__(self, f, path):
        self._f, self._path, self._closed = f, path, False

    def write(self, data):
        if Plan.step(f"write {self._path}"):
            # the disk is full half way through
            self._f.write(data[: len(data) // 2])
            self._flush()
            Plan.die()
        return self._f.write(data)

    def _flush(self):
        self._f.flush()
        raw = getattr(self._f, "buffer", self._f)
        commit = getattr(raw, "commit", None)
        if commit:
            commit()

    def read(self, *a):
        if Plan.step(f"read {self._path}"):
            Plan.die()
        return self._f.read(*a)

    def flush(self):
        if Plan.step(f"flush {self._path}"):
            Plan.die()
        self._flush()

    def close(self):
        if self._closed:
            return
        self._closed = True
        if Plan.step(f"close {self._path}"):
            if self._f.writable():
                # what was buffered is lost in part
                self._f.flush()
                size = self._f.tell() if not hasattr(self._f, "buffer") else self._f.buffer.tell()
                raw = getattr(self._f, "buffer", self._f)
                raw.seek(size // 2)
                raw.truncate()
            Plan.die()
        self._f.close()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def __iter__(self):
        return iter(self._f)

    def __getattr__(self, name):
        return getattr(self._f, name)


class FaultyFileSystem(MemoryFileSystem):
    protocol = "faulty"
    store: dict = {}
    pseudo_dirs = [""]
    _depth = threading.local()

    def __getattribute__(self, name):
        value = super().__getattribute__(name)
        if name.startswith("__") or name in SKIP or not inspect.ismethod(value):
            return value
        depth = FaultyFileSystem._depth

        def wrapped(*args, **kw):
            outer = getattr(depth, "n", 0) == 0
            if outer and Plan.step(f"{name} {args}"):
                if name in ("pipe", "pipe_file", "write_text", "write_bytes"):
                    # half of it is written
                    half = lambda v: v[: len(v) // 2] if isinstance(v, (str, bytes)) else v  # noqa: E731
                    depth.n = 1
                    try:
                        value(*args[:1], *map(half, args[1:2]), *args[2:], **{k: half(v) if k == "value" else v for k, v in kw.items()})
                    finally:
                        depth.n = 0
                Plan.die()
            depth.n = getattr(depth, "n", 0) + 1
            try:
                r = value(*args, **kw)
            finally:
                depth.n -= 1
            if outer and name in ("open", "_open"):
                return FaultyFile(r, args[0] if args else kw.get("path"))
            return r

        return wrapped

    @classmethod
    def _strip_protocol(cls, path):
        path = path.removeprefix("faulty://")
        return "/" + path.strip("/") if path.strip("/") else ""

    @classmethod
    def clear(cls):
        cls.store.clear()
        cls.pseudo_dirs[:] = [""]
        Plan.disarm()


fsspec.register_implementation("faulty", FaultyFileSystem, clobber=True)
