#!/usr/bin/env python3
"""Mutation runs: python3 tools/mutate.py SEED N [file ...]   results in /tmp/mut/results.jsonl
Every mutant (one changed token in one source file of a scratch copy) is shown to the checks of the properties
that name the file; mutants that no check sees are reported for inspection."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
SRC = os.environ.get("MUT_SRC", "/tmp/w")
S = "BayesicFitting/source/"
OUT = "/tmp/mut"
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
BY = {}
for p in props:
    for f in p["anchors"]["files"]:
        BY.setdefault(os.path.basename(f), []).append(p["id"])
EXTRA = json.load(open("/verif/tools/mutmap.json"))
SKIP = {"Formatter.py", "Plotter.py", "__init__.py"}


def sites(src):
    t = ast.parse(src)
    lines = src.split("\n")
    out = []
    skipspan = []
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and n.name in ("__str__", "_toString", "baseName", "toString", "shortName", "report", "plotResult",
                                                         "plotReport", "iterReport", "lastReport", "initReport", "printclass", "main"):
            skipspan.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.Raise):
            skipspan.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print")):
            skipspan.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.If) and "verbose" in (ast.get_source_segment(src, n.test) or "") or isinstance(n, ast.If) and "plot" in (ast.get_source_segment(src, n.test) or ""):
            skipspan.append((n.lineno, n.end_lineno))
    ok = lambda n: not any(a <= n.lineno <= b for a, b in skipspan)
    infunc = set()
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef):
            for m in ast.walk(n):
                if m is not n:
                    infunc.add(id(m))
            for m in ast.walk(n.args):
                infunc.discard(id(m))

    def between(a, b):
        """ text span between two nodes """
        return (a.end_lineno, a.end_col_offset, b.lineno, b.col_offset)
    for n in ast.walk(t):
        if id(n) not in infunc or not hasattr(n, "lineno") or not ok(n):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "=="}.get(type(n.ops[0]))
            if m:
                out.append((between(n.left, n.comparators[0]), r"<=|>=|==|!=|<|>", m))
        elif isinstance(n, ast.BinOp):
            m = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*")}.get(type(n.op))
            if m and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                out.append((between(n.left, n.right), re.escape(m[0]), m[1]))
        elif isinstance(n, ast.AugAssign):
            m = {ast.Add: (r"\+=", "-="), ast.Sub: ("-=", "+="), ast.Mult: (r"\*=", "/="), ast.Div: ("/=", "*=")}.get(type(n.op))
            if m:
                out.append((between(n.target, n.value), m[0], m[1]))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = repr(n.value + 1) if type(n.value) is int else repr(n.value * 1.25 if n.value else 1.0)
            out.append(((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset), r".+", v))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append(((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset), r".+", repr(not n.value)))
        elif isinstance(n, ast.If):
            out.append(((n.test.lineno, n.test.col_offset, n.test.end_lineno, n.test.end_col_offset), None, "not"))
        elif isinstance(n, ast.BoolOp):
            m = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            out.append((between(n.values[0], n.values[1]), r"\b%s\b" % m[0], m[1]))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            out.append(((n.lineno, n.col_offset, n.operand.lineno, n.operand.col_offset), r"-", ""))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if n.lineno == n.end_lineno:
                out.append(((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset), None, "pass"))
    return lines, out


def apply(lines, site):
    (l1, c1, l2, c2), pat, new = site
    if l1 != l2:
        return None
    s = lines[l1 - 1].encode()
    a, mid, b = s[:c1].decode(), s[c1:c2].decode(), s[c2:].decode()
    if pat is None:
        if new == "not":
            mid2 = "not ( " + mid + " )"
        else:
            mid2 = "pass"
    else:
        mid2 = re.sub(pat, new.replace("\\", ""), mid, count=1)
    if mid2 == mid:
        return None
    out = list(lines)
    out[l1 - 1] = a + mid2 + b
    return l1, lines[l1 - 1].strip(), out[l1 - 1].strip(), "\n".join(out)


def worker(k, jobs, results):
    w = "%s/w%d" % (OUT, k)
    v = "%s/v%d" % (OUT, k)
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(v, ignore_errors=True)
    subprocess.run(["cp", "-a", SRC, w], check=True)
    os.makedirs(v)
    for d in ("checks", "lib", "run.py", "known-findings.txt", "properties.jsonl"):
        subprocess.run(["cp", "-a", "/verif/" + d, v], check=True)
    for d in ("evidence", "replay"):
        os.makedirs(v + "/" + d)
    while jobs:
        f, ln, old, new, text = jobs.pop()
        path = os.path.join(w, S, f)
        orig = open(path).read()
        open(path, "w").write(text)
        ids = EXTRA.get(f) or BY.get(f) or []
        seen = None
        t0 = time.time()
        for c in ids:
            e = dict(os.environ, VERIF_REPO=w, VERIF_PROCS="1", VERIF_FAST="1", PYTHONDONTWRITEBYTECODE="1")
            try:
                r = subprocess.run([PY, "-W", "ignore", "run.py", c], cwd=v, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                seen = (c, rc)
                break
        open(path, "w").write(orig)
        d = dict(file=f, line=ln, old=old, new=new, seen=seen, checks=ids, secs=round(time.time() - t0))
        with open(OUT + "/results.jsonl", "a") as fh:
            fh.write(json.dumps(d) + "\n")
        results.append(d)


if __name__ == "__main__":
    seed, n = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or [f for f in sorted(os.listdir(os.path.join(SRC, S))) if f.endswith(".py") and f not in SKIP]
    os.makedirs(OUT, exist_ok=True)
    rng = random.Random(seed)
    jobs = []
    for f in files:
        src = open(os.path.join(SRC, S, f)).read()
        try:
            lines, st = sites(src)
        except SyntaxError:
            continue
        rng.shuffle(st)
        k = 0
        for s in st:
            m = apply(lines, s)
            if m is None:
                continue
            try:
                compile(m[3], f, "exec")
            except SyntaxError:
                continue
            jobs.append((f,) + m)
            k += 1
            if k >= n:
                break
    rng.shuffle(jobs)
    print(len(jobs), "mutants")
    res = []
    with ThreadPoolExecutor(8) as ex:
        for k in range(int(os.environ.get("MUT_PROCS", "8"))):
            ex.submit(worker, k, jobs, res)
    print("not seen:", sum(r["seen"] is None for r in res), "of", len(res))
