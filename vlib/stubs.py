"""Stand-ins for services, and scratch filesystems."""
from __future__ import annotations

import contextlib
import itertools
from types import SimpleNamespace

from .boot import boot

boot()

_count = itertools.count()


@contextlib.contextmanager
def memory():
    """A directory of its own on fsspec's memory filesystem."""
    import fsspec

    fs = fsspec.filesystem("memory")
    root = f"/verif-{next(_count)}"
    fs.makedirs(root)
    try:
        yield fs, root
    finally:
        with contextlib.suppress(FileNotFoundError):
            fs.rm(root, recursive=True)


class NotFound(Exception):
    pass


class FakeRegistry:
    """confluent_kafka's SchemaRegistryClient over a dictionary."""

    def __init__(self):
        self.subjects: dict = {}
        self.asked: list = []

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_):
        pass

    def register(self, subject, kind, text):
        # Deleted versions leave gaps, and ids say nothing about the order.
        versions = self.subjects.setdefault(subject, {})
        n = max(versions, default=0) + (8 if len(versions) % 3 == 2 else 1)
        versions[n] = (kind, text)
        return n

    def _version(self, subject, n):
        kind, text = self.subjects[subject][n]
        return SimpleNamespace(
            schema_id=1000 - n, subject=subject, version=n,
            schema=SimpleNamespace(schema_type=kind, schema_str=text, references=[]),
        )

    def get_subjects(self, *_, **__):
        return list(self.subjects)

    def get_latest_version(self, subject, *_, **__):
        self.asked.append(subject)
        if subject not in self.subjects:
            raise NotFound(subject)
        return self._version(subject, max(self.subjects[subject]))

    def get_version(self, subject, version="latest", *_, **__):
        if version in ("latest", -1):
            return self.get_latest_version(subject)
        if subject not in self.subjects or int(version) not in self.subjects[subject]:
            raise NotFound(subject)
        self.asked.append(subject)
        return self._version(subject, int(version))

    def get_versions(self, subject, *_, **__):
        if subject not in self.subjects:
            raise NotFound(subject)
        return sorted(self.subjects[subject])
