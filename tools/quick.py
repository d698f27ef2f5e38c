"""tools/quick.py FILE [IDS]: try changes (id, property, file, old, new[, count]) without demonstrations.

Each is applied to a scratch copy of /repo and the property's quick check is run on it.
"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]


def run(t):
    name, prop, file, edits = t
    d = tempfile.mkdtemp(prefix="qk")
    try:
        # The committed tree: somebody else may have a change applied there
        subprocess.run("mkdir {0}/r && git -C {1} archive HEAD | tar -x -C {0}/r".format(d, os.environ.get("QREPO", "/repo")), shell=True, check=True)
        os.mkdir(d + "/v")
        for x in ("check", "checks", "vt", "known_findings.json", "MANIFEST.json", "properties.jsonl"):
            (shutil.copytree if os.path.isdir("/verif/" + x) else shutil.copy)("/verif/" + x, d + "/v/" + x)
        for old, new in edits:
            f = file
            if isinstance(old, tuple):
                f, old = old
            p = d + "/r/dsari/" + f
            s = open(p).read()
            if s.count(old) < 1:
                return "{} {} NOT FOUND {!r}".format(name, prop, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        env = dict(os.environ, PYTHONPATH=d + "/r", DSARI_REPO=d + "/r")
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider"], cwd=d + "/r", env=env, capture_output=True, text=True)
        res = []
        for c in prop.split():
            r = subprocess.run(["timeout", "900", "./check", c, "quick"], cwd=d + "/v", env=env, capture_output=True, text=True)
            m = re.search(r"VIOLATION.*\n(.*)", r.stdout)
            res.append("{} rc={} {}".format(c, r.returncode, (m.group(1) if m else r.stdout.strip()[-300:] + r.stderr[-200:]).strip()[:260]))
        return "{} tests={} {}".format(name, t.returncode, " | ".join(res))
    finally:
        shutil.rmtree(d)


todo = [t for t in ns["Q"] if not only or t[0] in only]
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run, todo):
        print(r, flush=True)
