"""One harness in one process: 'symbolic' explores it, 'replay' runs it concretely."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
os.environ["Z3DEBUG"] = "0"


def jdefault(o):
    return repr(o)


def norm_obs(o):
    return json.loads(json.dumps(o, default=jdefault))


def setup(cron_stub, symbolic, yields=False):
    from vt import instrument, world

    world.install()
    if cron_stub:
        world.install_cron_stub()
    if symbolic:
        instrument.install()
    else:
        instrument.install_plain(yields)


def symbolic(prop, name, tier, out):
    from vt import registry

    h = registry.find(prop, name)
    setup(h.cron_stub, True)
    from vt import core, rt

    t0 = time.time()
    tok = os.environ.get("VT_TOKENS")
    eng = core.Engine(
        h.query_ms, h.max_paths, h.max_seconds,
        tokens=tuple(int(x) for x in tok.split(",")) if tok else None,
    )
    eng.tier = tier
    core.TIER = tier
    eng.explore(h.run, out + ".paths", n_samples=h.samples)
    os.unlink(out + ".paths")
    import z3

    res = {
        "harness": name,
        "prop": prop,
        "findings": eng.findings,
        "problems": eng.problems,
        "witnesses": eng.witnesses,
        "samples": [
            {"values": s["values"], "observations": s["observations"]}
            for s in eng.samples
        ],
        "stats": eng.stats(),
        "covers": sorted(eng.covers),
        "labels": sorted(eng.labels),
        "executed": sorted(eng.executed),
        "wall_s": round(time.time() - t0, 3),
        "z3": z3.get_version_string(),
    }
    with open(out, "w") as f:
        json.dump(res, f, default=jdefault)


def run_concrete(h, values):
    from vt import core
    from vt.sym import conc_eval

    c = core.ConcCtx(values)
    core.set_ctx(c)
    r = {"status": "ok"}
    try:
        try:
            h.run(c)
        except core.Found as f:
            r = {"status": "found", "label": f.label, "detail": str(f.detail)[:2000]}
        except core.PathEnd as e:
            r = {"status": "cut", "label": str(e)}
        except core.EngineSignal as e:
            r = {"status": "error", "label": repr(e)}
        except (Exception, SystemExit) as e:
            r = {
                "status": "uncaught",
                "label": "uncaught {}".format(type(e).__name__),
                "detail": traceback.format_exc(limit=-6),
            }
        try:
            r["observations"] = [(k, conc_eval(v)) for k, v in c.observations]
        except Exception as e:
            r["observations"] = []
            r["obs_error"] = repr(e)
        r["missing"] = c.missing
    finally:
        c.finish()
        core.set_ctx(None)
    return r


def replay(inp, out):
    from vt import registry

    with open(inp) as f:
        job = json.load(f)
    h = registry.find(job["prop"], job["harness"])
    setup(h.cron_stub, False, h.yields)
    from vt import core

    core.TIER = job.get("tier", "quick")
    res = []
    for values in job["values"]:
        r = run_concrete(h, values)
        r["observations"] = norm_obs(r["observations"])
        res.append(r)
    with open(out, "w") as f:
        json.dump(res, f, default=jdefault)


def main():
    if sys.argv[1] == "symbolic":
        symbolic(*sys.argv[2:6])
    else:
        replay(sys.argv[2], sys.argv[3])


if __name__ == "__main__":
    main()
