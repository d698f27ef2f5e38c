"""Drives the real scheduler daemon inside a World, against a specification monitor."""
import datetime
import json
import signal
import zlib

from vt import world as W
from vt.core import Found, PathEnd
from vt.sym import And, Implies, Ite, Not, Or, Sym, us_of, td_us_of

STUBS = [
    "clock: arbitrary instants between 2001 and 2096, non-decreasing, constant during a pass of the daemon, moved by symbolic amounts at every sleep",
    "croniter replaced by its contract (next instant strictly after the start, whole seconds, answers about one schedule consistent with each other)",
    "os.fork/wait4/kill/exec, signals, random.shuffle, uuid4: arbitrary outcomes allowed by POSIX / the library contract, nothing real is touched",
    "file system: in-memory tree with the daemon's paths; SQLite: in-memory SQL engine with sqlite's transaction rules (real sqlite3 in replays)",
    "logging output discarded; floats modelled as reals",
]
SEC = 10**6
REC = ("C08", "C11", "C12", "C13")
SIGNUM = {n: int(getattr(signal, "SIG" + n)) for n in ("HUP", "INT", "TERM", "QUIT", "USR1", "KILL")}


class Args:
    def __init__(self, **k):
        self.config_dir = "/vworld/etc"
        self.debug = False
        self.fork = False
        self.__dict__.update(k)


class Sim:
    def __init__(self, ctx, config, free_clock=False, max_idle=1, **k):
        self.ctx = ctx
        self.w = W.World(ctx, free_clock=free_clock, **k)
        self.config = dict(config)
        self.config.setdefault("data_dir", "/vworld/data")
        self.set_config(self.config)
        self.idle = 0
        self.max_idle = max_idle
        self.env_step = None  # called at each sleep: environment actions
        self.steps = 0
        self.max_steps = 3
        self.max_jump = 4 * 10**12
        self.coarse = False
        self.after_sleep = False  # limits where a child may be found to have exited
        self.fresh = False
        self.jump = None
        self.w.on_sleep = self.slept
        self.w.on_fs = self.fs
        self.w.on_wait = self.wait
        self.exits = None  # fn(live) -> (child, status) or None
        self.reaps = 0
        self.sched = None
        self.spec = None
        self.deliveries = 0

    def set_config(self, config):
        self.w.put("/vworld/etc/dsari.json", config, fmt="json")

    def start(self):
        import dsari.daemon

        self.sched = dsari.daemon.Scheduler(Args())
        if self.spec:
            self.spec.started()
        return self.sched

    def fs(self, op, path):
        self.idle = 0
        if self.spec and path.startswith("/vworld/data/trigger"):
            self.spec.look()

    def slept(self, d):
        self.idle += 1
        self.fresh = True
        # the sleep may overshoot: time jumps forward by any amount
        self.w.advance(
            self.jump if self.jump is not None else self.ctx.int("jump", 0, self.max_jump)
        )
        if self.idle > self.max_idle:
            raise PathEnd("idle bound")
        self.steps += 1
        if self.steps > self.max_steps:
            raise W.StopSim("steps")
        if self.env_step:
            self.env_step(self.steps)
        self.far()

    def far(self):
        """coarse: nothing falls due within the minute after a look (see C03, C14 for that)."""
        if not self.coarse:
            return
        now = self.w.now
        ts = [e.time for e in self.spec.pending]
        for p, n in self.w.fs.items():
            if p.startswith("/vworld/data/trigger/") and isinstance(n.data, dict):
                ts.append(self.spec.trigger_time(n))
        for t in ts:
            if t is not None:
                self.ctx.assume(Or(t <= now, t > now + 62 * SEC))

    def wait(self, live):
        if self.exits is None:
            return None
        r = self.exits(live)
        if r is not None:
            self.idle = 0
        return r

    def loop(self, steps=3):
        """Run the daemon's main loop for a number of waits; True if it returned."""
        self.max_steps = steps
        try:
            try:
                self.sched.loop()
            except SystemExit:
                pass  # the daemon ends either way
            self.w.event("loop_returned")
            return True
        except W.StopSim:
            return False

    # -- helpers -------------------------------------------------------------
    def trigger(self, job, data, mtime=None, fmt="json"):
        self.w.put(
            "/vworld/data/trigger/{}/trigger.{}".format(job, fmt), data, mtime=mtime, fmt=fmt
        )

    def exit_any(self, status=0, limit=99):
        """Scenario: any live child, or none, is reaped."""

        def f(live):
            if self.reaps >= limit or (self.after_sleep and not self.fresh):
                return None
            self.fresh = False
            c = self.ctx.choice("reap", [None] + live)
            if c is None:
                return None
            self.reaps += 1
            return (c, status(c) if callable(status) else status)

        self.exits = f

    def signal(self, name):
        self.deliveries += 1
        if self.spec:
            self.spec.signalled(name)
        self.w.deliver(SIGNUM[name])

    def signal_in_wait(self, name):
        """A signal while the daemon sleeps; the sleep goes on unless the handler ends it."""
        self.signal(name)
        self.spec.check(
            "C14", self.w.evs("sleep")[-1].data["us"] <= 2 * SEC, "a signal is noticed within about a second"
        )


def crc_us(name):
    """Sub-second offset of a job, in microseconds (as documented: 0..1 s from crc32)."""
    crc = zlib.crc32(name.encode("utf-8")) & 0xFFFFFFFF
    return crc * 10**6 // 2**32


class Entry:
    def __init__(self, job, time, kind, tag=None, recurring=False):
        self.job, self.time, self.kind, self.tag, self.recurring = job, time, kind, tag, recurring

    def __repr__(self):
        return "<{} {} {}>".format(self.job, self.kind, self.tag)


class Spec:
    """Specification of the scheduler over observable events.

    Tracks which runs have to be pending (schedule occurrences and consumed triggers)
    from file removals and schedule answers, and compares process starts, signals,
    sleeps and database rows with it.  Only the obligations of self.props are stated.
    """

    def __init__(self, sim, *props):
        self.s = sim
        self.w = sim.w
        self.ctx = sim.ctx
        self.props = set(props)
        sim.spec = self
        self.pending = []
        self.children = []
        self.started_entries = []
        self.json_taken = {}
        self.at_look = {}
        self.looked = False
        self.looks = 0
        self.look_time = None
        self.shutdown = False
        self.shutdown_time = None
        self.kill_asked = False  # a shutdown request while shutdown_kill_runs was set
        self.reload_at_look = False
        self.unsure = False  # a signal is on its way: the daemon may act on it any moment
        self.woken = False
        self.load(sim.config)
        self.w.monitors.append(self.on_event)

    # -- configuration -------------------------------------------------------
    def load(self, config):
        self.config = config
        self.jobs = dict(config.get("jobs", {}))
        for g, t in config.get("job_groups", {}).items():
            for n in t["job_names"]:
                self.jobs[n] = {k: v for k, v in t.items() if k != "job_names"}
        self.gmax = {}
        self.known = set(config.get("concurrency_groups", {}))
        for j in self.jobs.values():
            self.known |= set(j.get("concurrency_groups", []))
            for g in j.get("concurrency_groups", []):
                self.gmax[g] = config.get("concurrency_groups", {}).get(g, {}).get("max", 1)

    def next_occurrence(self, job, start):
        sched = self.jobs[job].get("schedule")
        if not sched:
            return None
        key = None
        for expr in self.w.crons or {}:
            if expr.startswith(sched + " "):
                key = expr
        if key is None:
            self.check("C04", False, "the schedule is consulted")
            raise PathEnd("schedule never consulted")
        return self.w.cron_next(key, start) + crc_us(job)

    def check(self, prop, cond, label):
        props = prop if isinstance(prop, tuple) else (prop,)
        if self.props & set(props):
            self.ctx.prove(cond, label)

    # -- state changes ---------------------------------------------------------
    def started(self):
        self.schedule_all()
        self.look_time = self.w.now

    def schedule_all(self):
        self.pending = []
        for j in sorted(self.jobs):
            t = self.next_occurrence(j, self.w.now)
            if t is not None:
                self.pending.append(Entry(j, t, "schedule", recurring=True))

    def look(self):
        if self.looked:
            return
        self.looked = True
        self.looks += 1
        self.woken = False
        self.look_time = self.w.now
        # one file of each job is consumed per look, the JSON file first
        self.at_look = {}
        for p in self.w.fs:
            if p.startswith("/vworld/data/trigger/"):
                j = p.split("/")[4]
                self.at_look[j] = self.at_look.get(j, -1) + 1
        if self.reload_at_look:
            self.reload_at_look = False
            self.load(self.new_config)
            self.schedule_all()
            for c in self.children:
                # the notice of a group which is no longer defined or used is not kept
                if c.group not in self.known:
                    c.group = None

    def reload(self, config):
        """The configuration files changed and SIGHUP was sent."""
        self.new_config = config
        self.reload_at_look = True

    def signalled(self, name):
        if name in ("INT", "TERM") and not self.shutdown:
            self.shutdown = True
            self.shutdown_time = self.w.now
            self.pending = []
        if name in ("INT", "TERM") and self.config.get("shutdown_kill_runs"):
            self.kill_asked = True
        self.woken = True

    def due(self, e):
        return e.time <= self.w.now

    def live(self):
        return self.w.live()

    def group_load(self, g):
        return len([c for c in self.live() if c.group == g])

    def blocked(self, e):
        j = self.jobs[e.job]
        if not j.get("concurrent_runs") and any(c.job_name == e.job for c in self.live()):
            return True
        gs = j.get("concurrency_groups", [])
        if gs:
            return And(*[self.group_load(g) >= self.gmax[g] for g in gs])
        return False

    # -- events ---------------------------------------------------------------
    def on_event(self, e):
        f = getattr(self, "ev_" + e.kind, None)
        if f:
            f(e)

    def ev_remove(self, e):
        path = e.data["path"]
        if not path.startswith("/vworld/data/trigger/"):
            return
        job = path.split("/")[4]
        self.check(("C11",), not self.shutdown, "no trigger is consumed after a shutdown request")
        self.check("C05", job in self.jobs, "only triggers of configured jobs are consumed")
        if path.endswith(".yaml") and "C05" in self.props:
            self.check(
                "C05", not self.w.has(path[:-4] + "json") or self.json_taken.get(job) == self.looks,
                "trigger.json is taken before trigger.yaml",
            )
        if path.endswith(".json"):
            self.json_taken[job] = self.looks
        t = self.trigger_time(e.data["node"])
        if t is None or job not in self.jobs:
            return
        ent = Entry(job, t, "file", tag=e.data["node"])
        if not self.jobs[job].get("concurrent_runs"):
            for old in self.pending:
                if old.job == job:
                    ent.recurring = old.recurring
                    self.pending.remove(old)
                    break
        self.pending.append(ent)

    def trigger_time(self, node):
        """Instant a valid trigger asks for; None for an invalid trigger."""
        if not isinstance(node.data, dict):
            return None
        if "invalid" in getattr(node, "marks", ()):
            return None
        t = node.data.get("schedule_time")
        if t is None:
            return node.mtime
        if isinstance(t, str):
            import dateutil.parser
            import dateutil.tz

            t = dateutil.parser.parse(t)
            if t.tzinfo is None:
                t = t.replace(tzinfo=dateutil.tz.gettz(node.data["schedule_timezone"]))
            return us_of(t)
        return t * SEC

    def match(self, run):
        for e in self.pending:
            if e.job != run.job.name:
                continue
            if e.kind == "schedule" and run.trigger_type == "schedule":
                return e
            if e.kind == "file" and run.trigger_type == "file":
                if e.tag.data.get("tag") == run.trigger_data.get("tag"):
                    return e
        return None

    def ev_fork(self, e):
        run, c = e.data["run"], e.data["child"]
        self.check(
            ("C11", "C13"), not self.shutdown, "no run is started after a shutdown request"
        )
        if c is None:
            return
        job = run.job.name
        jc = self.jobs.get(job, {})
        ent = self.match(run)
        self.check(
            ("C04", "C05", "C12", "C02"), ent is not None,
            "every started run is a pending occurrence or a consumed trigger, once",
        )
        if ent is not None:
            self.pending.remove(ent)
            self.started_entries.append(ent)
            if ent.kind == "file":
                self.same_data(run.trigger_data, ent.tag)
            self.check(("C03", "C10"), ent.time <= self.w.now, "no run starts before its scheduled time")
            self.check(
                ("C04", "C05", "C12", "C03", "C07"), us_of(run.schedule_time) == ent.time,
                "the run's schedule time is the occurrence's or the trigger's",
            )
        if not jc.get("concurrent_runs"):
            self.check(
                ("C02", "C12"), not any(x.job_name == job for x in self.children if x.alive),
                "runs of a job without concurrent_runs never overlap",
            )
        self.children.append(c)
        gs = jc.get("concurrency_groups", [])
        self.check(
            "C01", (c.group in gs) if gs else c.group is None,
            "the run is assigned to one of its job's concurrency groups",
        )
        if c.group is not None and c.group in self.gmax:
            self.check(
                ("C01", "C12"), self.group_load(c.group) <= self.gmax[c.group],
                "no concurrency group exceeds its maximum",
            )
        if "C08" in self.props:
            rr = [r for r in self.w.table("runs_running") if r["run_id"] == run.id]
            self.check("C08", len(rr) == 1, "a run is listed as running before its process exists")
            self.rec(c, rr[0], run)
        c.spec_run = (job, run.id, us_of(run.schedule_time), self.w.now, run.trigger_type)
        c.spec_data = dict(ent.tag.data) if ent is not None and ent.kind == "file" else {}
        if ent is not None and ent.recurring and job in self.jobs:
            t = self.next_occurrence(job, self.w.now)
            if t is not None:
                self.pending.append(Entry(job, t, "schedule", recurring=True))

    def same_data(self, got, node):
        want = node.data
        self.check("C05", isinstance(got, dict) and set(got) == set(want), "the run carries the file's data")
        if "C05" in self.props:
            for k, v in want.items():
                g = got[k]
                if isinstance(v, dict):
                    self.check("C05", set(g) == set(v), "the run carries the file's data")
                    for k2 in v:
                        self.check("C05", g[k2] == v[k2], "the run carries the file's data")
                else:
                    self.check("C05", g == v, "the run carries the file's data")

    def rec(self, c, r, run):
        ctx = self.ctx
        self.check("C08", r["job_name"] == run.job.name, "listed under its job")
        self.check("C08", ctx.eq_real(r["schedule_time"] * 1.0, us_of(run.schedule_time) / 1e6), "schedule time listed")
        self.check("C08", ctx.eq_real(r["start_time"] * 1.0, self.w.now / 1e6), "start time listed")
        self.check("C08", r["schedule_time"] <= r["start_time"], "schedule time is not after start time")

    def ev_reap(self, e):
        c = e.data["child"]
        c.reaped_at = self.w.now

    def limits(self, c):
        """max_execution and its grace of a child's job, in microseconds (or None)."""
        jc = self.jobs.get(c.job_name)
        if jc is None or "max_execution" not in jc:
            return None, None
        return us_num(jc["max_execution"]), us_num(jc.get("max_execution_grace", 60))

    def shutdown_kills(self):
        return self.kill_asked and self.config.get("shutdown_kill_runs", False)

    def ev_kill(self, e):
        c = e.data["child"]
        p = ("C10", "C11", "C13")
        self.check(p, c is not None and c.alive, "only processes which are still there are signalled")
        if c is None or not c.alive:
            return
        now, (m, g) = self.w.now, self.limits(c)
        over = m is not None and now > c.start + m
        if e.data["sig"] == SIGNUM["TERM"]:
            self.check(p, c.term is None, "SIGTERM is sent once")
            self.check(
                ("C10", "C11"), Or(over, self.shutdown_kills()),
                "SIGTERM is sent only after max_execution or for a shutdown with shutdown_kill_runs",
            )
            c.term = now
        elif e.data["sig"] == SIGNUM["KILL"]:
            self.check(p, c.killed is None, "SIGKILL is sent once")
            self.check(("C10", "C11"), c.term is not None, "SIGKILL is never sent without an earlier SIGTERM")
            if c.term is None:
                return
            sg = self.config.get("shutdown_kill_grace")
            by_max = m is not None and And(over, now >= c.term + g)
            kills = self.shutdown and self.config.get("shutdown_kill_runs", False)
            by_stop = bool(kills and sg is not None) and (
                now >= smax(self.shutdown_time, c.term) + us_num(sg or 0)
            )
            self.check(
                ("C10", "C11"), Or(by_max, by_stop),
                "SIGKILL is sent only after the grace period since SIGTERM",
            )
            c.killed = now
        else:
            self.check(p, False, "no other signals are sent to runs")

    def kill_deadlines(self, us):
        """At a wait of us: the daemon must be back for every kill deadline."""
        if not self.props & {"C10", "C11", "C14"}:
            return
        end = self.w.now + us
        for c in self.live():
            m, g = self.limits(c)
            p = ("C10", "C14")
            if m is not None and c.term is None:
                self.check(p, end <= c.start + m + SEC, "the daemon sends SIGTERM in time after max_execution")
            if m is not None and c.term is not None and c.killed is None:
                over = self.w.now > c.start + m
                self.check(
                    p, Implies(over, end <= smax(c.term + g, c.start + m) + SEC),
                    "the daemon sends SIGKILL in time after the grace period",
                )
            if self.shutdown_kills():
                sg = self.config.get("shutdown_kill_grace")
                p = ("C11", "C14")
                if c.term is None:
                    self.check(p, False, "running processes are terminated at shutdown")
                if sg and c.killed is None and c.term is not None:
                    self.check(
                        p, end <= smax(self.shutdown_time, c.term) + us_num(sg) + SEC,
                        "running processes are killed after the shutdown grace period",
                    )

    def ev_wait(self, e):
        self.end_of_pass()

    def ev_sleep(self, e):
        self.end_of_pass()
        us = e.data["us"]
        self.wakeup(us)
        self.kill_deadlines(us)

    def ev_loop_returned(self, e):
        self.end_of_pass()
        self.check("C11", self.shutdown, "the daemon ends only after a shutdown request")
        self.check("C11", not self.live(), "the daemon ends only after the last run has finished")
        self.records()

    # -- obligations between passes ----------------------------------------------
    def end_of_pass(self):
        self.records()
        if not self.looked:
            return
        self.looked = False
        if self.shutdown or self.woken:
            return
        if "C05" in self.props:
            for j in self.jobs:
                left = [p for p in self.w.fs if p.startswith("/vworld/data/trigger/{}/trigger.".format(j))]
                self.check("C05", len(left) <= self.at_look.get(j, 0), "a trigger file of a job is consumed at the next look")
        for e in self.pending:
            self.check(
                ("C01", "C02", "C03", "C04", "C05", "C12"), Or(Not(self.due(e)), self.blocked(e)),
                "a due run which is not blocked is started",
            )

    def wakeup(self, us):
        if "C14" not in self.props and "C03" not in self.props and "C10" not in self.props:
            return
        end = self.w.now + us
        tol = SEC
        self.check("C14", us > 0, "the daemon sleeps a positive time")
        if not self.shutdown:
            self.check("C14", end <= self.look_time + 60 * SEC + tol, "the daemon looks at least every 60 seconds")
            self.check("C14", Implies(self.woken, us <= SEC), "a signal is noticed within a second")
            for e in self.pending:
                b = Not(self.due(e))
                # not yet due at the last look: wake up for it
                self.check(
                    ("C14", "C03"), Implies(e.time > self.look_time, end <= e.time + tol),
                    "the daemon does not sleep past a scheduled time",
                )
                self.check(
                    "C03",
                    Implies(e.time <= self.look_time, end <= self.look_time + 300 * SEC + tol),
                    "a blocked run is tried again within 5 minutes",
                )
                waited = self.look_time - e.time
                self.check(
                    ("C03", "C14"),
                    Implies(waited >= 0, end <= self.look_time + smax(waited, 5 * SEC) + tol),
                    "a blocked run is tried again within 5 seconds or the time it has been waiting",
                )

    def records(self):
        if not self.props & {"C08", "C11", "C12", "C13"}:
            return
        runs, running = self.w.table("runs"), self.w.table("runs_running")
        ctx = self.ctx
        # a reaped child may be recorded only at the next wait
        for c in self.children:
            fin = [r for r in runs if r["run_id"] == c.run_id]
            act = [r for r in running if r["run_id"] == c.run_id]
            if c.alive:
                self.check(REC, len(fin) == 0 and len(act) == 1, "a run in progress is listed as running only")
                continue
            self.check(REC, len(fin) == 1 and len(act) == 0, "a finished run is listed as finished only, once")
            if "C08" not in self.props:
                continue
            r = fin[0]
            job, rid, st, start, tt = c.spec_run
            self.check("C08", r["job_name"] == job, "recorded under its job")
            self.check("C08", ctx.eq_real(r["schedule_time"] * 1.0, st / 1e6), "recorded schedule time")
            self.check("C08", ctx.eq_real(r["start_time"] * 1.0, start / 1e6), "recorded start time")
            self.check("C08", ctx.eq_real(r["stop_time"] * 1.0, c.reaped_at / 1e6), "recorded stop time")
            self.check("C08", And(r["schedule_time"] <= r["start_time"], r["start_time"] <= r["stop_time"]), "times are ordered")
            self.check("C08", r["exit_code"] == (c.status >> 8), "recorded exit code")
            self.check("C08", r["trigger_type"] == tt, "recorded trigger type")
            self.check("C08", loads(r["trigger_data"]) == c.spec_data, "recorded trigger data")
            self.check("C08", loads(r["run_data"]) == {}, "recorded run data")
        self.check(
            REC, len(runs) + len(running) == len(self.children), "nothing else is recorded"
        )


def us_num(v):
    """A number of seconds, in microseconds."""
    if isinstance(v, float):
        return int(round(v * SEC))
    return v * SEC


def smax(a, b):
    return Ite(a >= b, a, b) if isinstance(a, Sym) or isinstance(b, Sym) else max(a, b)


def loads(x):
    from vt import rt

    if isinstance(x, Sym):
        return rt._json_loads(x)
    return json.loads(x)
