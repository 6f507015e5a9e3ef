#!/usr/bin/env python3
"""Mutation campaign: python3 tools/mutate.py OUT.jsonl [FILE-REGEX] [--only N/M]

Makes one small change at a time to copies of /repo (in a scratch directory),
drops those the repository's tests notice, and runs the checks on the rest.
Every line of OUT.jsonl is one mutant: where, what, and which check caught it.
Only used while developing the checks; no check depends on it.
"""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ORDER = {
    "types.py": "C01 C02 C05 C04 C03 C12 C26 C07 C08 C06 C11 C09 C10 C30 C27 C20",
    "converters/avro.py": "C06 C07 C12 C30 C22 C20 C21",
    "converters/json_schema.py": "C08 C09 C12 C30 C22 C20 C21",
    "converters/protobuf.py": "C10 C11 C12 C30 C22 C20 C21",
    "converters/postgresql.py": "C13 C20 C19",
    "converters/mysql.py": "C14 C20 C19",
    "converters/snowflake.py": "C15 C20 C19",
    "converters/sqlite.py": "C16 C20",
    "converters/dbapi.py": "C13 C14 C15 C16 C20",
    "converters/bigquery.py": "C17 C20 C19",
    "converters/hive_metastore.py": "C18 C32 C20",
    "clients/__init__.py": "C23 C25 C30 C19",
    "clients/bigquery.py": "C23 C19 C17 C30",
    "clients/confluent_registry.py": "C22 C23 C25 C30",
    "clients/dbapi.py": "C19 C23 C13 C14 C15 C25",
    "clients/fs.py": "C21 C23 C25 C30",
    "clients/hive_metastore.py": "C32 C18 C23 C25",
    "clients/mysql.py": "C19 C23 C14 C25",
    "clients/postgresql.py": "C19 C23 C13 C25",
    "clients/snowflake.py": "C19 C23 C15 C25",
    "clients/sqlite.py": "C16 C23 C30 C25",
    "cli.py": "C30 C24",
    "commands.py": "C30 C24 C25",
    "settings.py": "C25 C24 C23 C30 C28",
    "server/gateway.py": "C30 C24 C25",
    "server/registry.py": "C27 C29 C28",
    "server/app.py": "C27 C30",
    "storage/registry.py": "C26 C31 C28 C29 C27",
}
SWAPS = {"rpartition": "partition", "partition": "rpartition", "startswith": "endswith", "endswith": "startswith",
         "max": "min", "min": "max", "rsplit": "split", "lstrip": "strip", "rstrip": "strip", "sorted": "list",
         "quote_plus": "quote", "unquote_plus": "unquote", "upper": "lower", "lower": "upper", "removeprefix": "lstrip",
         "fullmatch": "match", "search": "match", "ceil": "int", "setdefault": "get"}
CMP = {ast.Lt: ["<=", "!="], ast.LtE: ["<", ">="], ast.Gt: [">=", "!="], ast.GtE: [">", "=="], ast.Eq: ["!=", ">="],
       ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    out = []

    def put(n, new, why):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, f"{os.path.basename(path)}:{n.lineno} {why}"))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) and n.body:
            f = n.body[0]
            if isinstance(f, ast.Expr) and isinstance(f.value, ast.Constant):
                doc.add(id(f)); doc.add(id(f.value))
        if isinstance(n, (ast.AnnAssign, ast.arg)) and n.annotation is not None:
            for m in ast.walk(n.annotation):
                doc.add(id(m))
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n.returns is not None:
            for m in ast.walk(n.returns):
                doc.add(id(m))
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                if m is not n:
                    doc.add(id(m))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            doc.add(id(n))
        if isinstance(n, ast.If) and False:
            pass
    for n in ast.walk(tree):
        if id(n) in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            for op in CMP.get(type(n.ops[0]), []):
                put(n, f"{l} {op} {r}", f"{text(n)[:60]} -> {op}")
        elif isinstance(n, ast.BoolOp):
            vals = [text(v) for v in n.values]
            op = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + op.join(f"({v})" for v in vals) + ")", "and<->or " + text(n)[:60])
            for i in range(len(vals)):
                rest = vals[:i] + vals[i + 1:]
                keep = " and " if isinstance(n.op, ast.And) else " or "
                put(n, "(" + keep.join(f"({v})" for v in rest) + ")", f"drop operand {vals[i][:60]}")
        elif isinstance(n, ast.IfExp):
            put(n, f"({text(n.body)})", "ifexp: always body " + text(n)[:60])
            put(n, f"({text(n.orelse)})", "ifexp: always else " + text(n)[:60])
        elif isinstance(n, (ast.If, ast.While)) and not (isinstance(n.test, ast.NamedExpr)):
            put(n.test, f"not ({text(n.test)})", "negate " + text(n.test)[:60])
            if not any(isinstance(m, ast.NamedExpr) for m in ast.walk(n.test)):
                put(n.test, "False", "if False: " + text(n.test)[:60])
                if isinstance(n, ast.If):
                    put(n.test, "True", "if True: " + text(n.test)[:60])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, f"({text(n.operand)})", "drop not " + text(n)[:60])
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                put(n, str(not v), f"{v} -> {not v}")
            elif isinstance(v, int):
                put(n, str(v + 1), f"{v} -> {v + 1}")
                if v > 0:
                    put(n, str(v - 1), f"{v} -> {v - 1}")
            elif isinstance(v, str) and "\n" not in v and text(n)[:1] in "\"'":
                put(n, repr(v + "_x"), f"{v!r} changed")
        elif isinstance(n, ast.BinOp):
            ops = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "*"}
            if type(n.op) in ops and not isinstance(n.left, ast.Constant):
                put(n, f"{text(n.left)} {ops[type(n.op)]} {text(n.right)}", "operator " + text(n)[:60])
            if isinstance(n.op, (ast.BitOr, ast.Add)):
                put(n, f"({text(n.left)})", "left only " + text(n)[:60])
                put(n, f"({text(n.right)})", "right only " + text(n)[:60])
            if isinstance(n.op, ast.BitOr):
                put(n, f"({text(n.right)} | {text(n.left)})", "swap | " + text(n)[:60])
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in SWAPS:
                put(n, f"{text(n.func.value)}.{SWAPS[n.func.attr]}({', '.join(text(a) for a in n.args)})", f"{n.func.attr} -> {SWAPS[n.func.attr]}")
            if isinstance(n.func, ast.Name) and n.func.id in SWAPS:
                put(n.func, SWAPS[n.func.id], f"{n.func.id} -> {SWAPS[n.func.id]}")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip", "lower", "upper", "copy", "resolve", "removeprefix", "decode"):
                put(n, text(n.func.value), f"drop .{n.func.attr}() of {text(n)[:40]}")
            if isinstance(n.func, ast.Name) and n.func.id in ("dict", "list", "unquote", "sorted", "int", "str", "quote_plus", "unquote_plus", "clean_dict", "alias_dict") and len(n.args) == 1:
                put(n, f"({text(n.args[0])})", f"drop {n.func.id}() of {text(n)[:40]}")
            if text(n.func).endswith("deepcopy"):
                put(n, f"({text(n.args[0])})", "no deepcopy")
                put(n, f"copy.copy({text(n.args[0])})", "shallow copy")
            for i, k in enumerate(n.keywords):
                a = [text(x) for x in n.args] + [(f"{q.arg}=" if q.arg else "**") + text(q.value) for j, q in enumerate(n.keywords) if j != i]
                put(n, f"{text(n.func)}({', '.join(a)})", f"drop argument {k.arg or '**'} of {text(n.func)}")
        elif isinstance(n, ast.Dict) and len(n.keys) > 0:
            for i in range(len(n.keys)):
                items = [(f"{text(k)}: {text(v)}" if k is not None else f"**{text(v)}") for j, (k, v) in enumerate(zip(n.keys, n.values)) if j != i]
                put(n, "{" + ", ".join(items) + "}", f"drop key {text(n.keys[i])[:30] if n.keys[i] is not None else '**'}")
        elif isinstance(n, (ast.List, ast.Set)) and len(n.elts) > 1 and isinstance(getattr(n, "ctx", ast.Load()), ast.Load):
            o, c = ("[", "]") if isinstance(n, ast.List) else ("{", "}")
            for i in range(len(n.elts)):
                put(n, o + ", ".join(text(e) for j, e in enumerate(n.elts) if j != i) + c, f"drop element {text(n.elts[i])[:30]}")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            put(n, text(n.value), "drop slice " + text(n)[:40])
        elif isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in n.generators:
                for c in g.ifs:
                    put(c, "True", "comprehension filter off: " + text(c)[:60])
        elif isinstance(n, ast.match_case):
            if n.guard is not None:
                put(n.guard, "True", "guard off: " + text(n.guard)[:60])
            p = n.pattern
            if isinstance(p, ast.MatchClass):
                for i in range(len(p.kwd_attrs)):
                    kw = [f"{a}={text(q)}" for j, (a, q) in enumerate(zip(p.kwd_attrs, p.kwd_patterns)) if j != i]
                    put(p, f"{text(p.cls)}({', '.join(kw)})", f"drop pattern attribute {p.kwd_attrs[i]}")
            if isinstance(p, ast.MatchOr):
                for i in range(len(p.patterns)):
                    put(p, " | ".join(text(q) for j, q in enumerate(p.patterns) if j != i), f"drop alternative {text(p.patterns[i])[:40]}")
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) and not isinstance(getattr(n, "value", None), (ast.Yield, ast.Constant)):
            put(n, "pass", "delete: " + text(n)[:70])
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            if not text(n).startswith("self."):
                put(n, "pass", "delete: " + text(n)[:70])
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            name = n.targets[0].id
            if any(isinstance(m, ast.Name) and m.id == name for m in ast.walk(n.value)):
                put(n, "pass", "delete: " + text(n)[:70])
        elif isinstance(n, (ast.Raise, ast.Assert, ast.Continue, ast.Break)):
            put(n, "pass", "delete: " + text(n)[:70])
    return raw, out


def main():
    out_path = sys.argv[1]
    pattern = re.compile(sys.argv[2] if len(sys.argv) > 2 else ".")
    share = (0, 1)
    workers = int(os.environ.get("MUT_WORKERS", "7"))
    for a in sys.argv[3:]:
        if a.startswith("--only="):
            share = tuple(int(x) for x in a[7:].split("/"))
    done = set()
    if os.path.exists(out_path):
        done = {(j["file"], j["a"], j["b"], j["new"]) for j in map(json.loads, open(out_path))}
    todo = []
    for rel in sorted(ORDER):
        if not pattern.search(rel):
            continue
        raw, ms = mutants(f"/repo/recap/{rel}")
        for a, b, new, why in ms:
            if (rel, a, b, new) in done:
                continue
            code = raw[:a] + new.encode() + raw[b:]
            try:
                compile(code, rel, "exec")
            except (SyntaxError, ValueError):
                continue
            todo.append((rel, a, b, new, why, code))
    random.Random(7).shuffle(todo)
    todo = [t for i, t in enumerate(todo) if i % share[1] == share[0]]
    print(len(todo), "mutants", flush=True)
    base = tempfile.mkdtemp(prefix="mutants-")
    free = queue.Queue()
    for i in range(workers):
        d = f"{base}/{i}"
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", f"{d}/repo"], check=True)
        shutil.copytree(HERE, f"{d}/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "__pycache__"))
        os.makedirs(f"{d}/verif/evidence", exist_ok=True)
        free.put(d)

    def one(t):
        rel, a, b, new, why, code = t
        d = free.get()
        path = f"{d}/repo/recap/{rel}"
        clean = open(path, "rb").read()
        rec = dict(file=rel, a=a, b=b, new=new, why=why)
        try:
            open(path, "wb").write(code)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", RECAP_HOME=f"{d}/home")
            try:
                r = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "--timeout=60", f"--basetemp={d}/base",
                                    "tests/unit", "tests/integration/clients/test_fs.py"], cwd=f"{d}/repo", env=env, capture_output=True, timeout=120)
                tests = r.returncode
            except subprocess.TimeoutExpired:
                tests = 99
            if tests:
                rec["result"] = "tests"
                return rec
            rec["result"] = "survived"
            for c in ORDER[rel].split():
                try:
                    r = subprocess.run([sys.executable, f"{d}/verif/run.py", c], capture_output=True, text=True, timeout=900,
                                       env=dict(os.environ, VERIF_REPO=f"{d}/repo", VERIF_SEED="1", VERIF_TIER="quick"))
                except subprocess.TimeoutExpired:
                    rec["result"] = f"timeout {c}"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    rec["result"] = c
                    break
                if r.returncode not in (0, 1):
                    rec.setdefault("noanswer", []).append(c)
            return rec
        finally:
            open(path, "wb").write(clean)
            free.put(d)

    try:
        with ThreadPoolExecutor(workers) as ex, open(out_path, "a") as out:
            for rec in ex.map(one, todo):
                out.write(json.dumps(rec) + "\n")
                out.flush()
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == "__main__":
    main()
