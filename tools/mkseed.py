#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ (patch.diff, demo.sh, demo.py, lib.py, meta.json) from a spec.

A spec defines BUGS = {id: dict(prop, file, edits=[(old, new)...], needs, breaks, demo)}.
"""
import difflib
import json
import os
import shutil
import subprocess
import sys

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for bid, b in ns["BUGS"].items():
    if only and bid not in only:
        continue
    d = os.path.join(BASE, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = b["files"] if "files" in b else {b["file"]: b["edits"]}
    for fn, edits in files.items():
        src = open(os.path.join("/repo", fn)).read()
        new = src
        for old, rep in edits:
            assert new.count(old) == 1, (bid, fn, new.count(old), old)
            new = new.replace(old, rep)
        patch += "".join(
            difflib.unified_diff(src.splitlines(True), new.splitlines(True), "a/" + fn, "b/" + fn)
        )
    open(d + "/patch.diff", "w").write(patch)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy(os.path.join(BASE, "tools/demolib.py"), d + "/lib.py")
    open(d + "/demo.py", "w").write("from lib import *\n\n" + b["demo"].strip() + "\n")
    open(d + "/demo.sh", "w").write(
        '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\n'
        'exec "$PY" "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'
    )
    os.chmod(d + "/demo.sh", 0o755)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    base = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep", "^fix:", "--invert-grep", "-1"], text=True).strip()
    for fn in files:
        old = subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + fn], text=True).split("\n")
        gone = [l[1:] for l in patch.split("\n") if l.startswith("-") and not l.startswith("---")]
        if any(l not in old for l in gone):
            print(bid, "CHANGES LINES OF A FIX", [l for l in gone if l not in old])
    print(bid)
