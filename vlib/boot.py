"""Make `recap` come from /repo and `hypothesis` from the tooling venv.

Only hypothesis itself is taken from the tooling venv; every other import keeps
resolving in the interpreter /repo was built for.
"""
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
_NAMES = ("hypothesis", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector", "_hypothesis_globals")


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name in _NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


class _Source(importlib.machinery.SourceFileLoader):
    """Compiles the source as it is now; a cached compilation is not trusted."""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _FromSource:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.partition(".")[0] != "recap":
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and type(spec.loader) is importlib.machinery.SourceFileLoader:
            spec.loader = _Source(spec.loader.name, spec.loader.path)
        return spec


def boot():
    if not any(f is _FromSource for f in sys.meta_path):
        sys.meta_path.insert(0, _FromSource)
    if not any(f is _Finder for f in sys.meta_path):
        try:
            import hypothesis  # noqa: F401
        except ImportError:
            sys.meta_path.append(_Finder)
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import recap

    where = list(recap.__path__)[0]
    if os.path.realpath(where) != os.path.realpath(os.path.join(REPO, "recap")):
        raise SystemExit(f"recap was imported from {where}, not {REPO}")
