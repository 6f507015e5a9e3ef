from __future__ import annotations

import argparse
import importlib
import json
import os
import pickle
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# Work is split over processes, each with a seed of its own derived from VERIF_SEED.
SHARDS = {"quick": 8, "thorough": 8}
# How much of a facet's number of cases the quick tier generates; checks that
# start processes or servers for each case generate what they say.
QUICK = {"C33": 1, "C31": 1}


def load(pid):
    mod = importlib.import_module(f"checks.{pid.lower()}")
    return mod.PROPERTY


def run_shard(prop, tier, seed, shard, only=None, scale=1.0):
    from .harness import KNOWN_SEEN, HarnessError, Stats, facet_seed, run_facet

    stats = Stats()
    per_facet = {}
    failures = []
    error = None
    for f in prop.facets:
        if only and f.name != only:
            continue
        n = f.quick * QUICK.get(prop.pid, 3)
        n = min(n, max(f.quick, f.thorough)) if tier == "quick" else max(n, f.thorough)
        n = -(-int(n * scale) // SHARDS[tier])
        before = (stats.evaluations, len(stats.nontrivial))
        t = time.time()
        try:
            fail = run_facet(f, n, facet_seed(seed, f.name, shard), stats, shard, SHARDS[tier])
        except HarnessError as e:
            error = str(e)
            fail = None
        except Exception:
            error = traceback.format_exc()
            fail = None
        per_facet[f.name] = {
            "evaluations": stats.evaluations - before[0],
            "distinct_nontrivial": len(stats.nontrivial) - before[1],
            "wall_s": round(time.time() - t, 2),
            "rule": f.rule,
        }
        if fail is not None:
            failures.append(fail)
            break
    return stats, per_facet, failures, error, set(KNOWN_SEEN)


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--shard", type=int, default=None, help=argparse.SUPPRESS)
    ap.add_argument("--out", help=argparse.SUPPRESS)
    args = ap.parse_args(argv)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = args.property
    start = time.time()

    from . import harness

    try:
        prop = load(pid)
    except Exception as e:
        # Importing the check imports the code under test: a tree that does not
        # import breaks the property for every input.
        if harness.in_repo(e.__traceback__):
            path = write_replay(pid, "import", None, traceback.format_exc())
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        traceback.print_exc()
        return 2

    if args.replay:
        with open(args.replay) as fh:
            rep = json.load(fh)
        facet = next((f for f in prop.facets if f.name == rep["facet"]), None)
        if facet is None:
            print("no such facet", rep["facet"])
            return 2
        v = harness.evaluate(facet, rep["case"], None)
        if v is None:
            print("the property holds on this case")
            return 0
        print(v)
        print(f"VIOLATION property={pid} replay={args.replay}")
        return 1

    if args.shard is not None:
        res = run_shard(prop, tier, seed, args.shard, args.facet, args.scale)
        with open(args.out, "wb") as fh:
            pickle.dump(res, fh)
        return 0

    results = []
    procs = []
    work = os.environ["VERIF_WORK"]
    for k in range(SHARDS[tier]):
        out = os.path.join(work, f"shard{k}.pkl")
        cmd = [sys.executable, "-B", "-m", "vlib.main", pid, "--shard", str(k), "--out", out]
        cmd += ["--scale", str(args.scale)]
        if args.facet:
            cmd += ["--facet", args.facet]
        env = dict(os.environ, RECAP_HOME=os.path.join(work, f"recap-home-{k}"))
        env["VERIF_WORK"] = os.path.join(work, f"work-{k}")
        os.makedirs(env["VERIF_WORK"])
        procs.append((subprocess.Popen(cmd, env=env), out))
    for p, out in procs:
        p.wait()
        if p.returncode != 0 or not os.path.exists(out):
            print(f"a worker of {pid} ended with {p.returncode}", file=sys.stderr)
            return 2
        with open(out, "rb") as fh:
            results.append(pickle.load(fh))

    stats, per_facet, failures, errors, known = results[0][0], {}, [], [], set()
    for k, (st, pf, fl, er, kn) in enumerate(results):
        if k:
            stats.evaluations += st.evaluations
            stats.nontrivial |= st.nontrivial
            stats.distinct |= st.distinct
            stats.labels.update(st.labels)
            if len(stats.samples) < 12:
                stats.samples += st.samples[:2]
        for name, d in pf.items():
            if name in per_facet:
                per_facet[name]["evaluations"] += d["evaluations"]
                per_facet[name]["wall_s"] += d["wall_s"]
                per_facet[name].pop("distinct_nontrivial", None)
            else:
                per_facet[name] = dict(d)
        failures += fl
        known |= kn
        if er:
            errors.append(er)
    for name, d in per_facet.items():
        d["distinct_nontrivial"] = sum(1 for k in stats.nontrivial if k.startswith(name + ":"))

    failures.sort(key=lambda f: len(json.dumps(f.case, default=repr)))
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": stats.evaluations,
            "distinct_nontrivial": len(stats.nontrivial),
            "distinct": len(stats.distinct),
            "rule": " | ".join(f"{f.name}: {f.rule}" for f in prop.facets),
            "samples": stats.samples[:12],
            "labels": {k: v for k, v in sorted(stats.labels.items()) if not k.startswith("seconds:")},
            "facets": per_facet,
            "known_findings_seen": sorted(known),
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - start, 2),
        "violations": len(failures),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", f".{pid}.{os.getpid()}")
    with open(tmp, "w") as fh:
        json.dump(evidence, fh, indent=1, default=repr, sort_keys=True)
    os.replace(tmp, os.path.join(HERE, "evidence", f"{pid}.json"))

    for line in sorted(known):
        print(f"KNOWN-FINDING: property={pid} {line}")
    if failures:
        f = failures[0]
        path = write_replay(pid, f.facet, f.case, f.message)
        print(f"facet {f.facet}: {harness.short(f.message, 3000)}")
        print(f"case: {harness.short(json.dumps(f.case, default=repr), 3000)}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    print(
        f"{pid}: held on {stats.evaluations} cases, {len(stats.nontrivial)} distinct non-trivial,"
        f" {evidence['wall_s']} s"
    )
    return 0


def write_replay(pid, facet, case, message):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{facet}.json")
    with open(path, "w") as fh:
        json.dump(
            {"property": pid, "facet": facet, "case": case, "message": message,
             "how": f"cd /verif && python3 run.py {pid} --replay {path}"},
            fh, indent=1, default=repr,
        )
    return path


if __name__ == "__main__":
    sys.exit(main())
