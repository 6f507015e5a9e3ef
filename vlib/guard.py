"""Keeps what the code under test writes inside a scratch directory.

The containment of names is one of the properties that are checked, so it must
not be what protects the sandbox: while a guard is armed, the interpreter itself
refuses to create, change or remove files elsewhere.
"""
from __future__ import annotations

import contextlib
import os
import sys

_roots: list[str] = []
_installed = False
_WRITE = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
_PATHS = {
    "os.mkdir": 1, "os.rename": 2, "os.remove": 1, "os.rmdir": 1, "os.link": 2, "os.symlink": 2, "os.truncate": 1,
    "os.chmod": 1, "os.chown": 1, "os.utime": 1, "shutil.rmtree": 1, "shutil.move": 2, "shutil.copyfile": 2, "shutil.copytree": 2,
}


class Escaped(PermissionError):
    """Something outside the scratch directory would have been changed."""


escapes: list[str] = []


def _inside(path):
    p = os.path.realpath(os.path.join(os.getcwd(), os.fsdecode(path)))
    return any(p == r or p.startswith(r + os.sep) for r in _roots)


def _hook(event, args):
    if not _roots:
        return
    if event == "open":
        path, mode, flags = args
        paths = [path] if flags is not None and flags & _WRITE else []
    elif event in _PATHS:
        paths = args[: _PATHS[event]]
    else:
        return
    for path in paths:
        if isinstance(path, (str, bytes, os.PathLike)) and os.fspath(path) not in ("/dev/null", b"/dev/null") and not _inside(path):
            escapes.append(f"{event} {path!r}")
            raise Escaped(f"{event} outside the scratch directory: {path!r}")


@contextlib.contextmanager
def guard(root):
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    _roots.append(os.path.realpath(root))
    try:
        yield
    finally:
        _roots.pop()
