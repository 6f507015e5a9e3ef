#!/usr/bin/env python3
"""Entry point of every check:  run.py <PROPERTY-ID> [--replay FILE]

Tier and seed come from VERIF_TIER (quick|thorough) and VERIF_SEED.
The interpreter is re-executed as the one /repo is built for, with a fixed
hash seed, no bytecode, TZ=UTC and a private RECAP_HOME that is removed at exit.
"""
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def main() -> int:
    work = tempfile.mkdtemp(prefix="verif-")
    env = {
        k: v
        for k, v in os.environ.items()
        # Nothing of the caller's environment may configure the code under test.
        if not k.upper().startswith(("RECAP_", "PYTHON", "PG", "SNOWFLAKE", "GOOGLE"))
    }
    env.update(
        PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=HERE,
        TZ="UTC",
        LC_ALL="C.UTF-8",
        RECAP_HOME=os.path.join(work, "recap-home"),
        VERIF_WORK=work,
        VERIF_REPO=REPO,
        VERIF_SEED=os.environ.get("VERIF_SEED", "1"),
        VERIF_TIER=os.environ.get("VERIF_TIER", "quick"),
        HOME=work,
        NO_COLOR="1",
    )
    try:
        return subprocess.call([PY, "-B", "-m", "vlib.main", *sys.argv[1:]], cwd=work, env=env)
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
