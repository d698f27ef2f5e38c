"""Debugging aid: replay a counterexample printing the events.  trace.py FILE"""
import json, os, sys
os.environ["TZ"] = "UTC"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vt import worker, registry, core
job = json.load(open(sys.argv[1]))
h = registry.find(job["prop"], job["harness"])
worker.setup(h.cron_stub, False, h.yields)
core.TIER = job.get("tier", "quick")
import vt.world as W
oi = W.World.event
def event(self, kind, **d):
    if kind not in ("db", "wait0"):
        print(self.now/1e6 if isinstance(self.now, int) else self.now, kind, {k: v for k, v in d.items() if k not in ("child", "run", "level")})
    return oi(self, kind, **d)
W.World.event = event
print(worker.run_concrete(h, job["values"][0]))
