"""Runs the harnesses of one property, replays counterexamples, writes evidence."""
import concurrent.futures
import glob
import json
import os
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = "/opt/veriftools/pyvenv/bin/python"


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("PYTHON", "DSARI", "WSGI", "LC_")):
            if k != "DSARI_REPO":
                del e[k]
    e.update(
        HOME="/root", LANG="C.UTF-8", TZ="UTC", PYTHONHASHSEED="0",
        PYTHONDONTWRITEBYTECODE="1", COLUMNS="1000",
    )
    return e


TOKENS = None


def run_worker(args, timeout):
    e = env()
    fds = ()
    if TOKENS and args[0] == "symbolic":
        e["VT_TOKENS"] = "{},{}".format(*TOKENS)
        fds = TOKENS
    p = subprocess.Popen(
        [PY, "-m", "vt.worker"] + args, cwd=VERIF, env=e, pass_fds=fds,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
    )
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise
    return subprocess.CompletedProcess(args, p.returncode, out, err)


def same(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b


def strip_none(a, b):
    """Observed values the engine renders as opaque (None) are not compared."""
    if a is None:
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [strip_none(x, y) for x, y in zip(a, b)]
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        return {k: strip_none(a[k], b[k]) for k in a}
    return b


def one(prop, h, tier, tmp):
    out = os.path.join(tmp, "sym-{}.json".format(abs(hash(h.name)) % 10**9))
    t0 = time.time()
    try:
        p = run_worker(["symbolic", prop, h.name, tier, out], h.max_seconds + 120)
    except subprocess.TimeoutExpired:
        return {"harness": h.name, "fatal": "symbolic run timed out"}
    if TOKENS:
        os.write(TOKENS[1], b"t")
    if not os.path.exists(out):
        return {"harness": h.name, "fatal": "symbolic run failed: " + p.stderr[-3000:]}
    with open(out) as f:
        r = json.load(f)
    vals = [x["values"] for x in r["findings"]] + [x["values"] for x in r["witnesses"]] + [
        x["values"] for x in r["samples"]
    ]
    r["replays"] = []
    if vals:
        inp, rout = out + ".in", out + ".rep"
        with open(inp, "w") as f:
            json.dump({"prop": prop, "harness": h.name, "values": vals, "tier": tier}, f)
        try:
            p = run_worker(["replay", inp, rout], 300)
        except subprocess.TimeoutExpired:
            return {"harness": h.name, "fatal": "replay timed out"}
        if not os.path.exists(rout):
            return {"harness": h.name, "fatal": "replay failed: " + p.stderr[-3000:]}
        with open(rout) as f:
            r["replays"] = json.load(f)
    r["wall_total_s"] = round(time.time() - t0, 3)
    return r


def check(prop, tier, seed, only=None, verbose=False):
    from . import registry

    registry.load()
    hs = [
        h
        for h in registry.HARNESSES.get(prop, [])
        if (tier == "thorough" or h.tier == "quick") and (only is None or only in h.name)
    ]
    if not hs:
        print("no harness for", prop)
        return 2
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vtrun")
    results = []
    global TOKENS
    workers = int(os.environ.get("VT_JOBS", "8"))
    TOKENS = os.pipe()
    os.set_blocking(TOKENS[0], False)
    os.write(TOKENS[1], b"t" * max(0, workers - len(hs)))
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [ex.submit(one, prop, h, tier, tmp) for h in hs]
        for f in futs:
            results.append(f.result())
    for fn in glob.glob(tmp + "/*"):
        os.unlink(fn)
    os.rmdir(tmp)
    violations, errors, notes = [], [], []
    by_name = {h.name: h for h in hs}
    rep_dir = os.path.join(VERIF, "evidence", "replays")
    validated = 0
    for r in results:
        h = by_name[r["harness"]]
        if "fatal" in r:
            errors.append("{}: {}".format(h.name, r["fatal"]))
            continue
        nf, nw = len(r["findings"]), len(r["witnesses"])
        for i, f in enumerate(r["findings"]):
            rep = r["replays"][i]
            if rep["status"] in ("found", "uncaught"):
                violations.append((h, f, rep))
            elif f["label"].startswith("uncaught ") or f.get("approximate"):
                # an operation the proxies do not support: decided for this model only
                notes.append(
                    "{}: {} did not reproduce; path decided for one model only\n{}".format(
                        h.name, f["label"], f["detail"]
                    )
                )
            else:
                errors.append(
                    "{}: counterexample to {!r} does not reproduce on the real code ({}) values={}".format(
                        h.name, f["label"], rep.get("label", rep["status"]), f["values"]
                    )
                )
        for i, w in enumerate(r["witnesses"]):
            rep = r["replays"][nf + i]
            if rep["status"] in ("found", "uncaught"):
                violations.append((h, {"label": rep["label"], "values": w["values"], "detail": ""}, rep))
            else:
                notes.append("{}: {} (decided for one model only)".format(h.name, w["why"]))
        for i, s in enumerate(r["samples"]):
            rep = r["replays"][nf + nw + i]
            if rep["status"] in ("found", "uncaught"):
                violations.append((h, {"label": rep["label"], "values": s["values"], "detail": ""}, rep))
            elif rep["status"] != "ok":
                notes.append("{}: sample replay ended with {}".format(h.name, rep))
            else:
                obs = rep["observations"]
                exp = s["observations"]
                obs2 = strip_none(exp, obs)
                if not same(exp, obs2):
                    errors.append(
                        "{}: symbolic and real executions disagree: {} vs {} values={}".format(
                            h.name, exp, obs, s["values"]
                        )
                    )
                else:
                    validated += 1
        for p in r["problems"]:
            if p.startswith("limit:"):
                # what was explored up to there counts; the rest is outside the bounds
                notes.append("{}: {}: the paths beyond it were not explored".format(h.name, p))
                continue
            errors.append("{}: {}".format(h.name, p))
        if not any(v[0] is h for v in violations):
            missing = [c for c in h.covers if c not in r["covers"]]
            # paths outside the encoding may be the ones which are missing
            cut = any(p.startswith("limit:") for p in r["problems"])
            out = notes if r["stats"]["degraded_paths"] or cut else errors
            if missing:
                out.append("{}: never reached {}".format(h.name, missing))
            if r["stats"]["obligations"] == 0:
                out.append("{}: no obligation was reached".format(h.name))
    known = load_known()
    out_v, said = [], set()
    for h, f, rep in violations:
        k = match_known(known, prop, h.name, rep)
        if k:
            if k["what"] not in said:
                said.add(k["what"])
                print("KNOWN-FINDING: property={} {}".format(prop, k["what"]))
            continue
        out_v.append((h, f, rep))
    paths = []
    seen = set()
    for i, (h, f, rep) in enumerate(out_v):
        key = (h.name, rep["label"])
        if key in seen:
            continue
        seen.add(key)
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, "{}-{}.json".format(prop, len(paths)))
        with open(path, "w") as fo:
            json.dump(
                {
                    "prop": prop, "harness": h.name, "values": [f["values"]], "tier": tier,
                    "label": rep["label"], "detail": rep.get("detail", ""),
                },
                fo, indent=1, default=repr,
            )
        paths.append(path)
        print("VIOLATION property={} replay={}".format(prop, path))
        print("  {}: {}".format(h.name, rep["label"]))
        if rep.get("detail"):
            print("  " + rep["detail"].replace("\n", "\n  "))
        print("  values: {}".format(json.dumps(f["values"])[:1500]))
    write_evidence(prop, tier, seed, hs, results, validated, out_v, errors, notes, time.time() - t0)
    for n in sorted(set(notes)):
        print("NOTE:", n)
    for e in errors:
        print("ERROR:", e)
    if verbose:
        for r in results:
            if "fatal" not in r:
                print(r["harness"], r["stats"], "wall", r["wall_total_s"], "covers", [c for c in r["covers"] if not c.startswith("prove:")])
    if paths:
        return 1
    if errors:
        return 2
    n = sum(r["stats"]["obligations"] for r in results)
    print(
        "OK property={} harnesses={} paths={} obligations={} queries={} replays={} wall={:.1f}s".format(
            prop, len(results), sum(r["stats"]["paths"] for r in results), n,
            sum(r["stats"]["queries"] for r in results), validated, time.time() - t0,
        )
    )
    return 0


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("known", [])


def match_known(known, prop, hname, rep):
    for k in known:
        if k["property"] == prop and k["harness"] == hname and k["label"] == rep["label"]:
            return k
    return None


def write_evidence(prop, tier, seed, hs, results, validated, viol, errors, notes, wall):
    good = [r for r in results if "fatal" not in r]
    tot = lambda k: sum(r["stats"][k] for r in good)
    ex = sorted({e for r in good for e in r["executed"]})
    samples = []
    for r in good:
        for s in r["samples"][:2]:
            samples.append({"harness": r["harness"], "model": s["values"], "observed": s["observations"]})
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("branches"),
            "traces_validated_against_impl": validated,
            "samples": samples[:12],
            "states_meaning": "feasible symbolic paths of the real code explored to the end or to a stated bound",
            "transitions_meaning": "branch points on symbolic conditions decided by the solver",
            "paths_cut_at_bounds_or_assumptions": tot("cut_paths"),
            "obligations": tot("obligations"),
            "obligations_discharged": tot("discharged"),
            "obligations_true_by_construction": tot("trivially_true"),
            "solver_queries": tot("queries"),
            "solver_unknowns": tot("unknowns"),
            "solver_time_s": round(tot("solver_time_s"), 3),
            "solver": "z3 " + (good[0]["z3"] if good else "?"),
            "functions_encoded": ex,
            "properties_checked": sorted({l for r in good for l in r["labels"]}),
            "paths_outside_the_encoding_decided_for_one_model": tot("degraded_paths"),
            "harnesses": [
                {
                    "name": h.name,
                    "bounds": h.bounds,
                    "stubs": h.stubs,
                    **({k: r["stats"][k] for k in ("paths", "cut_paths", "obligations", "queries", "solver_time_s")} if "fatal" not in r else {"fatal": r["fatal"]}),
                }
                for h, r in zip(hs, results)
            ],
            "errors": errors[:20],
            "notes": sorted({n.split("\n")[0] for n in notes})[:20],
        },
        "assumptions": sorted({s for h in hs for s in h.stubs}),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)


def main(argv):
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            job = json.load(f)
        fd, out = tempfile.mkstemp()
        os.close(fd)
        p = run_worker(["replay", os.path.abspath(argv[1]), out], 300)
        print(p.stderr[-2000:])
        with open(out) as f:
            print(json.dumps(json.load(f), indent=1))
        os.unlink(out)
        return 0
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "-v":
            verbose = True
        else:
            only = a
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return check(prop, tier, seed, only, verbose)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
