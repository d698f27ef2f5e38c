#!/usr/bin/env python3
"""mutate.py OUT [count] [seed] [file...]: mechanical changes to a copy of /repo, the stable tests and the checks against each.

Prints, per change, which check reported it; for finding gaps only, nothing is kept in /repo.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    "daemon.py": "C03 C04 C10 C05 C01 C02 C12 C14 C11 C08 C06 C07 C09 C15 C16 C17 C18 C13 C34 C61".split(),
    "config.py": "C31 C32 C30 C35 C36 C33 C34 C12 C57".split(),
    "croniter_hash.py": "C40 C41 C42 C34".split(),
    "utils.py": "C42 C43 C56 C35 C50 C41 C07 C05 C31 C32 C54 C03 C14".split(),
    "database.py": "C20 C21 C22 C23 C24 C08 C52".split(),
    "info.py": "C57 C60 C61 C56".split(),
    "prometheus_exporter.py": "C50 C51 C52 C53".split(),
    "render.py": "C54 C58 C55 C56".split(),
    "__init__.py": "C03 C01 C36 C21 C31 C08 C20 C57".split(),
}
SKIP_FUNCS = {"parse_args", "cmd_shell", "sigquit_status", "__repr__"}
SKIP_CLASSES = {"MySQLDatabase", "PostgreSQLDatabase", "MongoDBDatabase"}
FUNC = {
    "process_run_execution_time": ["C10", "C11"], "monitor_shutdown": ["C11"], "begin_shutdown": ["C11"], "process_next_child": ["C08", "C18", "C09"],
    "run_child_executor": ["C15", "C16", "C17"], "process_trigger_job": ["C05", "C06", "C07"], "reset_jobs": ["C12", "C04"], "wait_deadline": ["C09", "C14", "C08"],
    "backoff": ["C03"], "process_wakeups": ["C14"], "loop": ["C14", "C11"],
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, new, what, func):
        s, e = pos(n)
        out.append((s, e, new, "{}:{} {}".format(func, n.lineno, what), func))

    def text(n):
        s, e = pos(n)
        return b[s:e].decode()

    def logs(n):
        t = text(n)
        return "logger" in t or "warnings" in t

    def walk(n, func, doc=False):
        if isinstance(n, ast.ClassDef) and n.name in SKIP_CLASSES:
            return
        if isinstance(n, ast.FunctionDef):
            if n.name in SKIP_FUNCS:
                return
            func = n.name
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if func and isinstance(n, ast.stmt):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                if logs(n):
                    return
                add(n, "pass", "delete " + text(n)[:60], func)
            if isinstance(n, ast.Assign) and (isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
                add(n, "pass", "delete " + text(n)[:60], func)
            if isinstance(n, (ast.Continue, ast.Break)):
                add(n, "pass", "delete " + text(n), func)
            if isinstance(n, ast.AugAssign):
                add(n, "pass", "delete " + text(n)[:60], func)
            if isinstance(n, ast.If):
                add(n.test, "(not ({}))".format(text(n.test)) if False else "True", "if True: " + text(n.test)[:60], func)
                add(n.test, "False", "if False: " + text(n.test)[:60], func)
            if isinstance(n, ast.Return) and n.value is None:
                add(n, "pass", "delete return", func)
        if func and isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = text(n.left), text(n.comparators[0])
            add(n, "({} {} {})".format(l, CMP[type(n.ops[0])], r), "cmp {} -> {}".format(text(n)[:60], CMP[type(n.ops[0])]), func)
        if func and isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("({})".format(text(v)) for v in n.values) + ")", "bool {}{}".format(op, text(n)[:60]), func)
        if func and isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "({})".format(text(n.operand)), "unnot " + text(n)[:60], func)
        if func and isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            op = "-" if isinstance(n.op, ast.Add) else "+"
            add(n, "({} {} {})".format(text(n.left), op, text(n.right)), "arith {} {}".format(op, text(n)[:60]), func)
        if func and isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const {} l".format(n.value), func)
            elif isinstance(n.value, (int, float)):
                add(n, str(n.value + 1), "const {}".format(n.value), func)
        for c in ast.iter_child_nodes(n):
            walk(c, func)

    walk(tree, None)
    return out


def main():
    out = open(sys.argv[1], "a")
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 20
    rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 0)
    files = sys.argv[4:] or list(FILES)
    base = "/tmp/mut{}".format(os.getpid())
    pool = []
    for f in files:
        src = open("/repo/dsari/" + f).read()
        for m in mutants(src):
            pool.append((f, m))
    rnd.shuffle(pool)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    env = dict(os.environ, PYTHONPATH=base + "/r", DSARI_REPO=base + "/r", VERIF_TIER="quick")
    done = 0
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base + "/v")
    subprocess.check_call(["cp", "-a"] + [VERIF + "/" + x for x in ("check", "checks", "vt", "tools", "known_findings.json", "MANIFEST.json", "properties.jsonl")] + [base + "/v/"])
    for f, (s, e, new, what, func) in pool:
        if done >= count:
            break
        shutil.rmtree(base + "/r", ignore_errors=True)
        subprocess.check_call(["cp", "-a", "/repo", base + "/r"])
        p = base + "/r/dsari/" + f
        b = open(p, "rb").read()
        open(p, "wb").write(b[:s] + new.encode() + b[e:])
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"], cwd=base + "/r", env=env, capture_output=True, text=True, timeout=300)
        if t.returncode != 0:
            continue
        done += 1
        props = FUNC.get(func, []) + [c for c in FILES[f] if c not in FUNC.get(func, [])]
        verdict, notes = None, []
        for c in props:
            try:
                r = subprocess.run(["./check", c, "quick"], cwd=base + "/v", env=env, capture_output=True, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                notes.append(c + " timeout")
                continue
            if r.returncode == 1:
                label = [l for l in r.stdout.split("\n") if l.startswith("  ")][:1]
                verdict = c + " " + (label[0].strip()[:90] if label else "")
                break
            if r.returncode != 0:
                notes.append("{} rc={} {}".format(c, r.returncode, (r.stdout.strip().split("\n") or [""])[0][:150]))
        out.write("{}\t{}\t{}\t{}\t{}\n".format("CAUGHT" if verdict else "SURVIVED", f, what.replace("\n", " "), verdict or "", "; ".join(notes)))
        out.flush()
    shutil.rmtree(base, ignore_errors=True)


main()
