"""Compare a Recap type with a model node, following references."""
from . import model as M
from .harness import Violation, call


def unroll(rt, node, defs, fuel, path="$", ignore_alias=False):
    """Follow references `fuel` levels deep; returns how many were chained.

    `defs` maps an alias to the node a reference to it stands for."""
    import recap.types as T

    if fuel <= 0:
        return 0
    if node["t"] == "proxy" and node["to"] in defs:
        if not isinstance(rt, T.ProxyType):
            raise Violation(f"{path}: {rt!r} instead of a reference to {node['to']}")
        res, err = call(rt.resolve)
        if err is not None:
            raise Violation(f"{path}: the reference to {node['to']} does not resolve: {err!r}")
        want = M.apply_overrides(defs[node["to"]], node)
        return 1 + unroll(res, want, defs, fuel - 1, path + "->" + node["to"], ignore_alias)
    if isinstance(rt, T.ProxyType) and node["t"] != "proxy":
        # a definition may be written as a reference to an identical alias
        rt, err = call(rt.resolve)
        if err is not None:
            raise Violation(f"{path}: unresolvable reference: {err!r}")
    got = M.observe(rt)

    def shallow(x):
        return {
            k: v
            for k, v in x.items()
            if k not in M.CHILD_KEYS and not (ignore_alias and k == "alias")
        }

    if node["t"] != "proxy" and not M.same_json(shallow(got), shallow(node)):
        raise Violation(f"{path}: {shallow(got)} instead of {shallow(node)}")
    kids = list(M.children(node))
    sut = []
    for k in ("keys", "values", "fields", "types"):
        if k in M.OWN[node["t"]]:
            v = getattr(rt, k)
            sut += v if isinstance(v, list) else [v]
    if len(sut) != len(kids):
        raise Violation(f"{path}: {len(sut)} children instead of {len(kids)}")
    deepest = 0
    for ((k, i), c), s in zip(kids, sut):
        deepest = max(
            deepest,
            unroll(s, c, defs, fuel - 1, f"{path}.{k}" + (f"[{i}]" if i is not None else ""), ignore_alias),
        )
    return deepest
