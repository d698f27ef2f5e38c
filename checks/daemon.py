"""Daemon properties: concurrency, scheduling, execution limits, shutdown, signals."""
from vt import core
from vt.registry import harness
from vt.sym import And, Iff, Implies, Ite, Not, Or, us_of, td_us_of

from vt import world as W

from .sim import SEC, SIGNUM, STUBS, Sim, Spec

DAY = 86400 * SEC
START = 1_700_000_000_250_000  # for harnesses whose dimension is order, not time


def put_triggers(ctx, s, jobs, past=10**9, future=0):
    """One trigger file per job name in the list, due in the past (or future)."""
    for i, j in enumerate(jobs):
        age = ctx.int("age_{}".format(i), -future, past) if past != future else past
        s.trigger(j, {"tag": i}, mtime=s.w.now - age)


# -- C01 / C02: limits and exclusivity ------------------------------------------------


@harness(
    "C01",
    params={"max": 0, "two-groups": 1},
    bounds="3 (two groups: 2) jobs triggered at once plus one more triggered during each wait, group maxima 1..3 or implicit, 3 waits, at most 3 exits, all orders of jobs, groups and exits",
    stubs=STUBS, cron_stub=True, covers=["full", "released"],
)
def group_limits(ctx, two):
    m = ctx.int("max_g", 1, 3)
    groups = {"g": {"max": m}}
    if two:
        jobs = {n: {"command": ["x"], "concurrency_groups": ["g", "h"]} for n in "ab"}
        jobs["c"] = {"command": ["x"], "concurrency_groups": ["h"]}
        ctx.assume(m <= 2)
    else:
        jobs = {n: {"command": ["x"], "concurrency_groups": ["g"]} for n in "abc"}
        jobs["d"] = {"command": ["x"], "concurrent_runs": True}
    s = Sim(ctx, {"jobs": jobs, "concurrency_groups": groups}, start_us=START)
    sp = Spec(s, "C01")
    s.jump = 700 * SEC  # every deadline has passed: the dimension here is order
    s.after_sleep = True
    put_triggers(ctx, s, "abc", past=SEC, future=SEC)
    s.start()
    deep = core.TIER == "thorough"
    s.exit_any(limit=3 if deep else 2)

    def step(n):
        if any(sp.pending):
            ctx.cover("full")
        if n == 2 and not two:
            s.trigger("d", {"tag": "d"})
        if s.reaps and sp.group_load("g"):
            ctx.cover("released")

    s.env_step = step
    s.loop(4 if deep else 3)


@harness(
    "C01",
    bounds="3 jobs of a group, up to 2 of them running (maximum 1..3) when the configuration is reloaded with another maximum (1..3), the group undefined or a further group for one job; one more job triggered; 3 waits (thorough 4), at most 1 exit (thorough 2), all orders of groups",
    stubs=STUBS, cron_stub=True, covers=["full", "two running"],
)
def group_limits_reload(ctx):
    deep = core.TIER == "thorough"

    def conf(i):
        gs = ["g"] + (["h"] if i else [])
        jobs = {n: {"command": ["x"], "concurrency_groups": gs if n == "c" else ["g"]} for n in "abc"}
        kind = ctx.choice("defined", [True, False]) if i else True
        return {"jobs": jobs, "concurrency_groups": {"g": {"max": ctx.int("max_g{}".format(i), 1, 3)}} if kind else {}}

    s = Sim(ctx, conf(0), start_us=START)
    sp = Spec(s, "C01")
    s.w.fixed_order = s.after_sleep = True
    s.jump = 700 * SEC
    for j in "ab":
        s.trigger(j, {"tag": j}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=2 if deep else 1)

    def step(n):
        if n == 1:
            if len(sp.live()) == 2:
                ctx.cover("two running")
            new = conf(1)
            s.set_config(dict(new, data_dir="/vworld/data"))
            s.signal("HUP")
            sp.reload(new)
            s.trigger("c", {"tag": "c"}, mtime=START - 5 * SEC)
        if sp.pending:
            ctx.cover("full")

    s.env_step = step
    s.loop(4 if deep else 3)


@harness(
    "C01",
    bounds="4 jobs in three groups each (one listing the others' groups first), maxima of 1 or 2, or implicit; all triggered at once; 2 waits, at most 1 exit",
    stubs=STUBS, cron_stub=True, covers=["full"],
)
def many_groups(ctx):
    jobs = {n: {"command": ["x"], "concurrency_groups": gs} for n, gs in zip("abcd", (["g", "h", "i"], ["h", "g", "i"], ["g", "h", "i"], ["i", "h", "g"]))}
    m = ctx.int("max_h", 1, 2)
    s = Sim(ctx, {"jobs": jobs, "concurrency_groups": {"h": {"max": m}}}, start_us=START)
    sp = Spec(s, "C01")
    s.w.fixed_order = s.after_sleep = True
    s.jump = 700 * SEC
    for n in "abcd":
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def step(n):
        if sp.pending:
            ctx.cover("full")

    s.env_step = step
    s.loop(2)


@harness(
    "C01",
    bounds="a job whose runs may be concurrent and one whose may not share a group with maximum 1..3; the first is triggered before each of 4 looks (one run more than the other at once), at most 2 exits at any waits, in any order",
    stubs=STUBS, cron_stub=True, covers=["full", "two of a job"],
)
def several_of_a_job(ctx):
    jobs = {"a": {"command": ["x"], "concurrent_runs": True, "concurrency_groups": ["g"]}, "b": {"command": ["x"], "concurrency_groups": ["g"]}}
    s = Sim(ctx, {"jobs": jobs, "concurrency_groups": {"g": {"max": ctx.int("max_g", 1, 3)}}}, start_us=START)
    sp = Spec(s, "C01")
    s.jump = 700 * SEC
    s.after_sleep = s.w.fixed_order = True
    for n in "ab":
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=2)

    def step(n):
        if len([c for c in sp.live() if c.job_name == "a"]) >= 2:
            ctx.cover("two of a job")
        if sp.pending:
            ctx.cover("full")
        if n < 4:
            s.trigger("a", {"tag": n}, mtime=START - 5 * SEC)

    s.env_step = step
    s.loop(5 if core.TIER == "thorough" else 4)


@harness(
    "C09",
    bounds="every 16-bit wait status of a terminated child (exit code 0-255, or signal 1-64 with or without core dump); one run",
    stubs=STUBS,
    cron_stub=True,
    covers=["exited", "signalled"],
)
def exit_code(ctx):
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}})
    s.trigger("a", {})
    s.start()
    code = ctx.int("code", 0, 255)
    sig = ctx.int("sig", 0, 64)
    core_dump = ctx.bool("core")
    killed = ctx.decide(sig > 0)
    if killed:
        status = sig + Ite(core_dump, 128, 0)
        want = 128 + sig
        ctx.cover("signalled")
    else:
        status = code * 256
        want = code
        ctx.cover("exited")
    s.exits = lambda live: (live[0], status)
    s.loop(steps=1)
    rows = s.w.table("runs")
    ctx.prove(len(rows) == 1, "the finished run is recorded once")
    ctx.prove(rows[0]["exit_code"] == want, "recorded exit code follows the shell format")
    ctx.observe("exit_code", rows[0]["exit_code"])


@harness(
    "C02",
    bounds="2 jobs (one with concurrent_runs), each triggered or not before every look, 3 looks (thorough 4), at most 2 exits, all orders of jobs and exits",
    stubs=STUBS, cron_stub=True, covers=["overlap", "blocked"],
)
def exclusive(ctx):
    jobs = {"a": {"command": ["x"]}, "b": {"command": ["x"], "concurrent_runs": True}}
    s = Sim(ctx, {"jobs": jobs}, start_us=START)
    sp = Spec(s, "C02")
    s.jump = 700 * SEC
    s.after_sleep = True
    deep = core.TIER == "thorough"

    def step(n):
        for j in "ab" if n < 2 or deep else "a":
            if ctx.decide(ctx.bool("trigger_" + j)):
                s.trigger(j, {"tag": n})
        if len([c for c in sp.live() if c.job_name == "b"]) > 1:
            ctx.cover("overlap")
        if any(e.job == "a" for e in sp.pending):
            ctx.cover("blocked")

    step(0)
    s.start()
    s.exit_any(limit=3 if deep else 2)
    s.env_step = step
    s.loop(4 if deep else 3)


@harness(
    "C03",
    bounds="one job without and one with concurrent_runs, triggered for arbitrary instants up to 100 days before or after, waits ending at arbitrary times, 2 looks (thorough 3), at most 1 exit",
    stubs=STUBS, cron_stub=True, covers=["started late", "waiting"],
)
def due_runs(ctx):
    jobs = {"a": {"command": ["x"]}, "b": {"command": ["x"], "concurrent_runs": True}}
    s = Sim(ctx, {"jobs": jobs})
    sp = Spec(s, "C03")
    s.after_sleep = True
    s.max_jump = 200 * DAY

    def when(n):
        return {"tag": n, "schedule_time": ctx.int("at", 10**9 + 1, 4 * 10**9)}

    s.trigger("a", when("a0"))
    s.trigger("b", when("b0"))
    s.start()
    deep = core.TIER == "thorough"
    s.exit_any(limit=1)

    def step(n):
        if sp.children:
            ctx.cover("started late")
        if sp.pending:
            ctx.cover("waiting")
        if n == 1:
            s.trigger("a", {"tag": "a1"}, mtime=ctx.int("mtime", 10**15 + 1, 4 * 10**15))

    s.env_step = step
    s.loop(3 if deep else 2)


def retry(ctx, age, jump):
    """A run blocked for the given age: was it tried again after the wait, and the wait."""
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=START, max_idle=99)
    sp = Spec(s, "C03")
    s.exits = lambda live: None
    s.trigger("a", {"tag": 0}, mtime=START - 200 * DAY)
    s.start()
    s.jump = 70 * SEC
    st = {}

    def step(n):
        if n == 1:
            s.trigger("a", {"tag": 1}, mtime=s.w.now - age)
            s.jump = jump
            st["t"] = s.w.now
        if n == 2:
            st["gap"] = s.w.now - st["t"]
            st["looks"] = sp.looks
            s.jump = 0

    s.env_step = step
    s.loop(2)
    return sp.looks > st["looks"], st["gap"]


LOG = ["natural logarithm: any monotone function agreeing with it at 40 grid points"]


@harness(
    "C03",
    bounds="one blocked run, waiting for any time up to 100 days; one wait of any length",
    stubs=STUBS + LOG, cron_stub=True, covers=["retried", "still waiting"],
)
def retry_delay(ctx):
    again, gap = retry(ctx, ctx.int("age", 0, 100 * DAY), ctx.int("jump", 0, 1000 * SEC))
    if again:
        ctx.cover("retried")
        ctx.prove(gap >= 5 * SEC - 1000, "a blocked run is not tried again within 5 seconds")
    else:
        ctx.cover("still waiting")
        ctx.prove(gap <= 61 * SEC, "a blocked run is tried again")


@harness(
    "C03",
    bounds="the delay before the next try of a run which is due since any time up to 100 days ago, and of one due since no longer than that (asked of the daemon's backoff function, if it has one of this form)",
    stubs=LOG, cron_stub=True,
)
def delay(ctx):
    import dsari.daemon

    w = W.World(ctx, start_us=START)
    f = getattr(dsari.daemon, "backoff", None)
    if f is None:
        ctx.prove(True, "no such function")
        return
    a1, a2 = ctx.int("age1", 0, 100 * DAY), ctx.int("age2", 0, 100 * DAY)
    ctx.assume(a1 <= a2)
    now = ctx.dt_from_us(w.now)
    try:
        d = [td_us_of(f(ctx.dt_from_us(w.now - a), now)) for a in (a1, a2)]
    except (TypeError, AttributeError):
        ctx.prove(True, "no such function")
        return
    for x in d:
        ctx.prove(x >= 5 * SEC, "the delay is at least 5 seconds")
        ctx.prove(x <= 300 * SEC, "the delay is at most 5 minutes")
    ctx.prove(d[0] <= d[1], "the delay never shrinks with the time waited")


@harness(
    "C03",
    params={"monotone": 0, "grows": 1},
    bounds="two blocked runs waiting for any time up to 100 days each; waits of the same, any length",
    stubs=STUBS + LOG, cron_stub=True,
)
def retry_growth(ctx, grows):
    if grows:
        a1, a2 = ctx.int("age1", 0, 5 * SEC), ctx.int("age2", DAY, 100 * DAY)
        j = ctx.int("jump", 10 * SEC, 30 * SEC)
        again1, _ = retry(ctx, a1, j)
        again2, _ = retry(ctx, a2, j)
        ctx.prove(again1 and not again2, "the retry delay grows with the time waited")
    else:
        a1 = ctx.int("age1", 0, 100 * DAY)
        a2 = ctx.int("age2", 0, 100 * DAY)
        ctx.assume(a1 <= a2)
        j = ctx.int("jump", 0, 100 * SEC)
        again2, _ = retry(ctx, a2, j)
        if again2:
            again1, _ = retry(ctx, a1, j)
            ctx.prove(again1, "the retry delay never shrinks with the time waited")
        else:
            ctx.prove(True, "the retry delay never shrinks with the time waited")


@harness(
    "C04",
    params={"exclusive": 0, "concurrent": 1, "frequent": 2},
    bounds="one scheduled job (frequent: next times from right after the start on), triggered or not (for an arbitrary instant) before each look, waits ending at arbitrary times, exits or none at each wait, 3 looks (thorough 4)",
    stubs=STUBS, cron_stub=True, covers=["second occurrence", "replaced"],
)
def recurrence(ctx, conc):
    job = {"command": ["x"], "schedule": "1 2 3 4 5"}
    if conc:
        job["concurrent_runs"] = True
    s = Sim(ctx, {"jobs": {"a": job}})
    sp = Spec(s, "C04")
    s.after_sleep = s.coarse = s.w.cron_far = True
    if conc == 2:
        s.w.cron_far = False
    deep = core.TIER == "thorough"

    def step(n):
        if n < 3 and ctx.decide(ctx.bool("trigger")):
            s.trigger("a", {"tag": n, "schedule_time": ctx.int("at", 10**9 + 1, 4 * 10**9)})
        if any(e.recurring and e.kind == "file" for e in sp.pending) or conc:
            ctx.cover("replaced")

    s.start()
    s.exit_any(limit=2)
    s.env_step = step
    s.loop(3 if deep or not conc else 2)
    if sum(1 for e in sp.started_entries if e.kind == "schedule") > 1:
        ctx.cover("second occurrence")


@harness(
    "C05",
    params={"forms": 0, "others": 1},
    bounds="a job with trigger.json, trigger.yaml, both or none before each look (others: a job with and a job without concurrent_runs and schedules, trigger.json or none); symbolic data values; file due immediately, before or tomorrow; 3 looks, at most 1 exit",
    stubs=STUBS, cron_stub=True, covers=["ran", "again"],
)
def consume(ctx, others):
    jobs = {"a": {"command": ["x"], "schedule": "1 2 3 4 5"}}
    if others:
        jobs["b"] = {"command": ["x"], "concurrent_runs": True, "schedule": "1 2 3 4 6"}
    s = Sim(ctx, {"jobs": jobs}, start_us=START)
    sp = Spec(s, "C05")
    s.jump = 70 * SEC
    s.after_sleep = True
    s.w.cron_far = s.coarse = True
    deep = core.TIER == "thorough"

    def data(n, k):
        d = {"tag": "{}{}".format(n, k), "n": ctx.int("n", -(10**6), 10**6), "s": ctx.str("s", 4)}
        if n == 1 and k == "j":
            d["environment"] = {"V": ctx.str("v", 4)}
        if n == 0 and k == "y" or n == 1 and k == "j":
            d["schedule_time"] = (START + DAY) // SEC
        elif n == 0:
            d["schedule_time"] = "1999-05-05 10:00"
            d["schedule_timezone"] = "UTC"
        return d

    def step(n):
        # leftovers of unconsumed files stay
        for j in jobs:
            if n > (1 if others and not deep else 2):
                break
            k = ctx.choice("files_" + j, ["none", "json"] if others else ["none", "json", "yaml", "both"])
            if k in ("json", "both"):
                s.trigger(j, data(n, "j"), fmt="json")
            if k in ("yaml", "both"):
                s.trigger(j, data(n, "y"), fmt="yaml")
        if sp.children:
            ctx.cover("ran")
        if len(sp.children) > 1:
            ctx.cover("again")

    step(0)
    s.start()
    s.exit_any(limit=0 if others else 1)
    s.w.fixed_order = others and not deep
    s.env_step = step
    s.loop(3 if deep or not others else 2)


@harness(
    "C08",
    bounds="2 jobs, one scheduled and one triggered with symbolic data; arbitrary start, waits and exit statuses; 2 exits at any waits, 2 looks (thorough 3)",
    stubs=STUBS, cron_stub=True, covers=["finished", "both running"],
)
def records(ctx):
    jobs = {
        "a": {"command": ["x"]},
        "b": {"command": ["x"], "schedule": "1 2 3 4 5"},
    }
    s = Sim(ctx, {"jobs": jobs})
    sp = Spec(s, "C08")
    s.w.cron_far = s.coarse = True
    s.trigger("a", {"tag": 1, "x": ctx.int("x", -(10**6), 10**6)}, mtime=s.w.now - 5 * SEC)
    s.start()
    s.exit_any(status=lambda c: ctx.int("code", 0, 255) * 256, limit=2)
    s.max_jump = 400 * DAY

    def step(n):
        if any(not c.alive for c in sp.children):
            ctx.cover("finished")
        if len(sp.live()) == 2:
            ctx.cover("both running")

    s.env_step = step
    s.loop(3 if core.TIER == 'thorough' else 2)


@harness(
    "C08",
    bounds="a run with max_execution and grace 1-10^5 s, which may end before or after the SIGTERM or SIGKILL, and one without; waits ending at arbitrary times, 4 looks (thorough 5)",
    stubs=STUBS, cron_stub=True, covers=["term", "kill"],
)
def records_limit(ctx):
    max_execution(ctx, 0, "C08")


@harness(
    "C10",
    params={"limit": 0, "default-grace": 1, "with-shutdown": 2},
    bounds="a run with max_execution 1-10^5 s (and grace 0-10^5 s, or the default of 60 s) and one without, waits ending at arbitrary times, exits at any wait or none, 4 looks (thorough 5); optionally a shutdown request with shutdown_kill_runs before any look",
    stubs=STUBS, cron_stub=True, covers=["term", "kill"],
)
def max_execution(ctx, mode, *props):
    m = ctx.int("max_execution", 1, 10**5)
    a = {"command": ["x"], "max_execution": m}
    if mode != 1:
        a["max_execution_grace"] = ctx.int("grace", 0, 10**5)
    cfg = {"jobs": {"a": a, "b": {"command": ["x"]}}}
    if mode == 2:
        cfg["shutdown_kill_runs"] = True
        cfg["shutdown_kill_grace"] = ctx.int("stop_grace", 1, 10**5)
        del cfg["jobs"]["b"]
    s = Sim(ctx, cfg, start_us=START, max_idle=3 if mode == 2 else 1)
    sp = Spec(s, *(props or ["C10"]))
    s.w.fixed_order = True
    s.after_sleep = True
    s.max_jump = 3 * 10**5 * SEC
    for j in cfg["jobs"]:
        s.trigger(j, {"tag": j}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def step(n):
        if mode == 2 and not sp.shutdown and ctx.decide(ctx.bool("stop")):
            s.signal("TERM")
        for c in sp.children:
            if c.term is not None:
                ctx.cover("term")
            if c.killed is not None:
                ctx.cover("kill")

    s.env_step = step
    deep = core.TIER == "thorough"
    s.loop(5 if deep else 4)


@harness(
    "C11",
    params={"plain": 0, "kill": 1, "kill-grace": 2},
    bounds="2 jobs with 0-2 runs in progress and a pending one, SIGINT or SIGTERM before any of 3 looks (and again), waits ending at arbitrary times, all exits or none, 4 looks (thorough 6)",
    stubs=STUBS, cron_stub=True, covers=["ended", "waits for runs"],
)
def shutdown(ctx, mode):
    cfg = {
        "jobs": {
            "a": {"command": ["x"], "schedule": "1 2 3 4 5", "concurrent_runs": True},
            "b": {"command": ["x"], "concurrent_runs": True},
        }
    }
    if mode:
        cfg["shutdown_kill_runs"] = True
    if mode == 2:
        cfg["shutdown_kill_grace"] = ctx.int("stop_grace", 1, 10**5)
    s = Sim(ctx, cfg, start_us=START, max_idle=3)
    sp = Spec(s, "C11")
    s.w.fixed_order = s.w.cron_far = s.coarse = True
    s.after_sleep = True
    s.max_jump = 100 * DAY
    s.trigger("b", {"tag": 0}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=3)

    deep = core.TIER == "thorough"

    def step(n):
        if not sp.shutdown and n <= 2:
            k = ctx.choice("stop", [None, "INT", "TERM"] if n == 1 else [None, "TERM"])
            if k:
                s.signal(k)
        elif s.deliveries < 2 and (deep or n == 2) and ctx.decide(ctx.bool("stop_again")):
            s.signal("TERM")
        if n == 2:
            s.trigger("b", {"tag": 2})
        if sp.shutdown and sp.live():
            ctx.cover("waits for runs")

    s.env_step = step
    if s.loop(5 if deep else 4):
        ctx.cover("ended")


@harness(
    "C11",
    params={"concurrent": True, "exclusive": False},
    bounds="a run in progress, runs triggered (for any time within a day to come) and scheduled pending, when a shutdown is requested by SIGINT or SIGTERM before the second or third look; waits ending at arbitrary times; 5 looks",
    stubs=STUBS, cron_stub=True, covers=["waits"],
)
def shutdown_pending(ctx, conc):
    job = {"command": ["x"], "concurrent_runs": conc}
    s = Sim(ctx, {"jobs": {"a": job, "b": job, "c": dict(job, schedule="1 2 3 4 5")}}, start_us=START, max_idle=3)
    sp = Spec(s, "C11")
    s.w.fixed_order = s.w.cron_far = s.coarse = s.after_sleep = True
    s.max_jump = 100 * DAY
    s.trigger("b", {"tag": 0}, mtime=START - 5 * SEC)
    s.trigger("a", {"tag": "later", "schedule_time": ctx.int("later", START // SEC + 1, START // SEC + 10**5)}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)
    at, sig = ctx.choice("at", [1, 2]), ctx.choice("signal", ["INT", "TERM"])

    def step(n):
        if n == at:
            s.signal(sig)
        elif n == 3:
            s.trigger("a", {"tag": 3})
        if sp.shutdown and sp.live():
            ctx.cover("waits")

    s.env_step = step
    s.loop(5)


@harness(
    "C11",
    bounds="a run with max_execution and grace 1-10^5 s in progress, a shutdown request with shutdown_kill_runs and any shutdown_kill_grace before any of 4 looks (thorough 5), before or after the run exceeded its limit; waits ending at arbitrary times",
    stubs=STUBS, cron_stub=True, covers=["term", "kill"],
)
def shutdown_and_limit(ctx):
    max_execution(ctx, 2, "C11")


@harness(
    "C11",
    params={"on": 1, "off": 0},
    bounds="a run in progress, with or without max_execution (thorough: both), when a shutdown is requested and SIGHUP, before or after it, sets or removes shutdown_kill_runs and changes shutdown_kill_grace (1-10^5 s); a further request or none; waits ending at arbitrary times, 5 looks",
    stubs=STUBS, cron_stub=True, covers=["reloaded in shutdown", "requested again"],
)
def shutdown_options(ctx, on):
    jobs = {"a": {"command": ["x"], "max_execution": 3600, "max_execution_grace": 60}, "b": {"command": ["x"]}}
    deep = core.TIER == "thorough"
    if not deep:
        del jobs[ctx.choice("without", ["a", "b"])]
    new = {"jobs": jobs, "shutdown_kill_runs": bool(on), "shutdown_kill_grace": ctx.int("grace", 1, 10**5)}
    base = {"jobs": jobs, "shutdown_kill_runs": not on}
    if ctx.decide(ctx.bool("had")):
        base["shutdown_kill_grace"] = ctx.int("grace0", 1, 10**5)
    s = Sim(ctx, base, start_us=START, max_idle=4)
    sp = Spec(s, "C11")
    s.w.fixed_order = s.after_sleep = True
    s.max_jump = 3 * 10**5 * SEC
    for j in jobs:
        s.trigger(j, {"tag": j}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def change():
        s.set_config(dict(new, data_dir="/vworld/data"))
        s.signal("HUP")
        sp.load(new)  # (in force before anything else happens)

    early = ctx.decide(ctx.bool("early"))

    def step(n):
        if n == 1:
            if early:
                change()
            s.signal("TERM")
        elif n == 2 and not early:
            ctx.cover("reloaded in shutdown")
            change()
        elif n == 3 and ctx.decide(ctx.bool("again")):
            ctx.cover("requested again")
            s.signal("TERM")

    s.env_step = step
    s.loop(5)


@harness(
    "C14",
    params={"idle": 0, "running": 1},
    bounds="a scheduled and a triggered job with arbitrary times, no run or one run with max_execution in progress; SIGUSR1, SIGQUIT or none at (first wait of an idle daemon: in or at) the end of each wait; waits ending at arbitrary times; 2 looks (thorough 3)",
    stubs=STUBS, cron_stub=True, covers={"idle": ["signalled", "in a wait"], "running": ["signalled"]},
)
def looks(ctx, running):
    jobs = {"a": {"command": ["x"], "schedule": "1 2 3 4 5"}, "b": {"command": ["x"]}}
    if running:
        jobs["r"] = {
            "command": ["x"], "max_execution": ctx.int("max_execution", 1, 10**5),
            "max_execution_grace": ctx.int("grace", 1, 10**5),
        }
        del jobs["b"]
    s = Sim(ctx, {"jobs": jobs})
    sp = Spec(s, "C14")
    s.w.fixed_order = True
    s.exits = lambda live: None
    s.max_jump = 100 * DAY
    if running:
        s.trigger("r", {"tag": 0}, mtime=s.w.now - 5 * SEC)
    else:
        s.trigger("b", {"tag": 0, "schedule_time": ctx.int("at", 10**9 + 1, 4 * 10**9)})
    s.start()
    deep = core.TIER == "thorough"

    st = {"nap": not deep and not running and ctx.choice("when", ["in", "after"]) == "in"}

    def nap():
        if st["nap"] or deep and not running and s.steps < 1 and ctx.decide(ctx.bool("nap")):
            st["nap"] = False
            ctx.cover("in a wait")
            s.signal_in_wait("USR1")

    def step(n):
        k = ctx.choice("sig", [None, "USR1", "QUIT"] if n == 1 else [None, "USR1"])
        if k:
            s.signal(k)
            ctx.cover("signalled")

    s.w.on_nap = nap
    s.env_step = step
    s.loop(3 if deep else 2)


@harness(
    "C14",
    bounds="two scheduled jobs in one time zone, of any offset, which changes by an hour at any moment within two hours of the daemon's start; waits ending at arbitrary times within two hours; 2 looks (thorough 3)",
    stubs=STUBS, cron_stub=True,
)
def looks_in_zone(ctx):
    near = 1_740_000_000
    job = {"command": ["x"], "schedule_timezone": "Zone/A"}
    s = Sim(ctx, {"jobs": {"a": dict(job, schedule="1 2 3 4 5"), "b": dict(job, schedule="2 2 3 4 5")}}, start_us=ctx.int("start", near * SEC, (near + 7200) * SEC))
    off1 = ctx.int("off1", -12 * 60, 12 * 60) * 60 * SEC
    trans = ctx.int("trans", near - 7200, near + 4 * 3600) * SEC
    s.w.zones = {"Zone/A": (off1, trans, off1 + ctx.choice("change", [60, -60]) * 60 * SEC)}
    Spec(s, "C14")
    s.w.fixed_order = True
    s.max_jump = 2 * 3600 * SEC
    s.start()
    for e in s.w.evs("cron"):
        ctx.assume(e.data["next"] <= (near + 4 * 3600) * SEC)
    s.loop(3 if core.TIER == "thorough" else 2)


@harness(
    "C14",
    bounds="three running runs, the max_execution of two of which is any number of seconds to 10^5, one with a grace of 1-10^5 s; waits ending at arbitrary times; 3 looks (thorough 4)",
    stubs=STUBS, cron_stub=True, covers=["both terminated"],
)
def looks_limits(ctx):
    jobs = {n: {"command": ["x"], "max_execution": ctx.int("max_" + n, 1, 10**5) if n != "c" else 50} for n in "abc"}
    jobs["a"]["max_execution_grace"] = ctx.int("grace", 1, 10**5)
    s = Sim(ctx, {"jobs": jobs}, start_us=START)
    sp = Spec(s, "C14", "C10")
    s.w.fixed_order = s.after_sleep = True
    s.exits = lambda live: None
    s.max_jump = 3 * 10**5 * SEC
    for n in jobs:
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()

    def step(n):
        if all(c.term is not None for c in sp.children):
            ctx.cover("both terminated")

    s.env_step = step
    s.loop(4 if core.TIER == "thorough" else 3)


@harness(
    "C14",
    params={"own": 0, "group": 1, "groups": 2},
    bounds="a run in progress and a triggered run, due at any time within 100 days, blocked by its job or by one or two full concurrency groups; SIGUSR1 or none; waits ending at arbitrary times; 2 looks (thorough 3)",
    stubs=STUBS + LOG, cron_stub=True, covers=["blocked"],
)
def looks_blocked(ctx, groups):
    names = ["g", "h"][:groups]
    job = {"command": ["x"], "concurrency_groups": names}
    jobs = {j: dict(job) for j in (["r"] if not groups else ["r", "b"] + ["q"] * (groups - 1))}
    s = Sim(ctx, {"jobs": jobs, "concurrency_groups": {g: {"max": 1} for g in names}})
    sp = Spec(s, "C14")
    s.w.fixed_order = True
    s.exits = lambda live: None
    s.max_jump = 100 * DAY
    for j in jobs:
        if j != "b":
            s.trigger(j, {"tag": 0}, mtime=s.w.now - 5 * SEC)
    s.start()
    deep = core.TIER == "thorough"
    late = ctx.int("waiting", 0, 100 * DAY)

    def step(n):
        if n == 1:
            s.trigger("b" if groups else "r", {"tag": 1}, mtime=s.w.now - late)
            if ctx.choice("sig", [False, True]):
                s.signal("USR1")
        elif sp.pending:
            ctx.cover("blocked")

    s.env_step = step
    s.loop(4 if deep else 3)


def reload_configs():
    base = {
        "jobs": {
            "a": {"command": ["x"], "schedule": "1 2 3 4 5", "concurrency_groups": ["g"]},
            "b": {"command": ["x"], "schedule": "1 2 3 4 6", "concurrency_groups": ["g"]},
        },
        "concurrency_groups": {"g": {"max": 2}},
    }

    def v(**k):
        import copy

        c = copy.deepcopy(base)
        for n, d in k.items():
            if n == "groups":
                c["concurrency_groups"] = d
            elif d is None:
                del c["jobs"][n]
            else:
                c["jobs"].setdefault(n, {"command": ["x"]}).update(d)
        return c

    return base, {
        "same": v(),
        "job gone": v(b=None),
        "schedule changed": v(a={"schedule": "9 9 9 9 1"}),
        "limit lowered": v(groups={"g": {"max": 1}}),
        "group undefined": v(groups={}),
        "other group": v(a={"concurrency_groups": ["h"]}, b={"concurrency_groups": ["h"]}),
        "concurrent": v(a={"concurrent_runs": True}),
        "new job": v(c={"schedule": "7 7 7 7 1", "concurrency_groups": ["g"]}, b=None),
        "invalid": {"jobs": {"a": {"command": "x", "schedule": 5}}},
    }


@harness(
    "C12",
    params={k: k for k in reload_configs()[1]},
    bounds="2 scheduled jobs sharing a group, 0-2 of them running or due, one job triggered; SIGHUP before the second or third look with one of 9 changed configurations; waits ending at arbitrary times, exits at any wait, 4 looks",
    stubs=STUBS, cron_stub=True, covers=["reloaded", "running at reload"],
)
def reload(ctx, kind):
    base, news = reload_configs()
    s = Sim(ctx, base, start_us=START)
    sp = Spec(s, "C12")
    s.w.cron_far = s.coarse = s.after_sleep = s.w.fixed_order = True
    s.max_jump = 800 * SEC
    s.trigger("a", {"tag": 0}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)
    deep = core.TIER == "thorough"

    def step(n):
        if n == (2 if deep and ctx.decide(ctx.bool("later")) else 1):
            ctx.cover("reloaded")
            if sp.live():
                ctx.cover("running at reload")
            s.set_config(dict(news[kind], data_dir="/vworld/data"))
            s.signal("HUP")
            if kind != "invalid":
                sp.reload(news[kind])

    s.env_step = step
    s.loop(4 if deep else 3)


@harness(
    ["C01", "C02", "C08", "C12"],
    bounds="2 jobs of a group and one without, one of them running and one to be triggered later when the configuration is reloaded in one of 8 ways (groups, jobs or limits changed), then perhaps back; both triggered again after each reload; waits of 700 s, at most 1 exit, 4 looks",
    stubs=STUBS, cron_stub=True, covers=["running at reload", "back"],
)
def reloads(ctx):
    import copy

    base = {
        "jobs": {
            "a": {"command": ["x"], "concurrency_groups": ["g"]},
            "b": {"command": ["x"], "concurrency_groups": ["g"]},
            "c": {"command": ["x"]},
        },
    }

    def v(a=0, b=0, c=0, groups=0):
        d = copy.deepcopy(base)
        for n, k in (("a", a), ("b", b), ("c", c)):
            if k is None:
                del d["jobs"][n]
            elif k:
                d["jobs"][n].update(k)
        if groups:
            d["concurrency_groups"] = groups
        return d

    news = {
        "groups dropped": v(a={"concurrency_groups": []}),
        "groups swapped": v(a={"concurrency_groups": ["h"]}, b={"concurrency_groups": ["h", "g"]}),
        "no groups": v(a={"concurrency_groups": []}, b={"concurrency_groups": []}),
        "job removed": v(a=None),
        "other removed": v(b=None, c=None),
        "raised": v(groups={"g": {"max": 2}}),
        "concurrent": v(a={"concurrent_runs": True}, c={"concurrent_runs": True}),
        "options": v(a={"environment": {"X": "1"}}, c={"command": ["y"], "max_execution": 10**6}),
    }
    kind = ctx.choice("kind", list(news))
    first = ctx.choice("first", ["a", "c"])
    s = Sim(ctx, base, start_us=START, max_idle=2)
    sp = Spec(s, "C01", "C02", "C08", "C12")
    s.after_sleep = s.w.fixed_order = True
    s.jump = 700 * SEC
    s.trigger(first, {"tag": "first"}, mtime=START - 5 * SEC)
    s.trigger("b", {"tag": "later", "schedule_time": START // SEC + 1000})
    s.start()
    s.exit_any(limit=1)

    def again(n):
        for j in ("a", "b", "c"):
            if j in sp.new_config["jobs"]:
                s.trigger(j, {"tag": "{}{}".format(j, n)}, mtime=START - 5 * SEC)

    def change(new):
        s.set_config(dict(new, data_dir="/vworld/data"))
        s.signal("HUP")
        sp.reload(new)

    def step(n):
        if n == 1:
            if sp.live():
                ctx.cover("running at reload")
            change(news[kind])
            again(n)
        elif n == 2:
            if ctx.decide(ctx.bool("back")):
                ctx.cover("back")
                change(base)
            again(n)

    s.env_step = step
    s.loop(4)


@harness(
    "C12",
    params={"new": 0, "changed": 1, "removed": 2},
    bounds="a run in progress, with or without a concurrency group, whose job's max_execution and grace (1-10^5 s) appear, change or disappear with SIGHUP; waits ending at arbitrary times, 4 looks (thorough 5)",
    stubs=STUBS, cron_stub=True, covers=["reloaded"],
)
def limit_reloaded(ctx, mode):
    def job(k, on):
        d = {"command": ["x"], "concurrency_groups": ["g"] if grouped else []}
        if on:
            d["max_execution"] = ctx.int("max_execution" + k, 1, 10**5)
            d["max_execution_grace"] = ctx.int("grace" + k, 1, 10**5)
        return d

    grouped = ctx.choice("group", [False, True])
    cfg = {"jobs": {"a": job("1", mode > 0)}, "concurrency_groups": {"g": {"max": 2}}}
    new = {"jobs": {"a": job("2", mode < 2)}, "concurrency_groups": {"g": {"max": 2}}}
    s = Sim(ctx, cfg, start_us=START, max_idle=1)
    sp = Spec(s, "C12", "C10")
    s.w.fixed_order = True
    s.after_sleep = True
    s.max_jump = 3 * 10**5 * SEC
    s.trigger("a", {"tag": 0}, mtime=START - 5 * SEC)
    s.start()
    s.exits = lambda live: None

    def step(n):
        if n == 1:
            ctx.cover("reloaded")
            s.set_config(dict(new, data_dir="/vworld/data"))
            s.signal("HUP")
            sp.reload(new)

    s.env_step = step
    s.loop(5 if core.TIER == "thorough" else 4)


@harness(
    "C12",
    bounds="a shutdown request followed by SIGHUP, before the same or a later look; 2 looks after it",
    stubs=STUBS, cron_stub=True, covers=["reloaded"],
)
def reload_in_shutdown(ctx):
    base, news = reload_configs()
    s = Sim(ctx, base, start_us=START)
    sp = Spec(s, "C12", "C11")
    s.w.cron_far = s.coarse = s.after_sleep = s.w.fixed_order = True
    s.max_jump = 800 * SEC
    s.trigger("a", {"tag": 0}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def step(n):
        if n == 1:
            s.signal("TERM")
        if n == 2 or n == 1 and ctx.decide(ctx.bool("together")):
            ctx.cover("reloaded")
            s.set_config(dict(news["new job"], data_dir="/vworld/data"))
            s.signal("HUP")

    s.env_step = step
    s.loop(4)


@harness(
    "C13",
    params={n: n for n in ("HUP", "INT", "TERM", "QUIT", "USR1")},
    bounds="the signal arrives before any one statement executed by the daemon module in a scenario with a run that exits, a run that is killed at shutdown, a scheduled and two triggered runs (or during any wait); shutdown_kill_runs set",
    stubs=STUBS, cron_stub=True, yields=True, covers=["arrived", "afterwards"], max_seconds=400,
)
def any_point(ctx, signame):
    from vt import rt

    jobs = {
        "a": {"command": ["x"], "schedule": "1 2 3 4 5", "concurrency_groups": ["g"]},
        "b": {"command": ["x"], "max_execution": 30, "max_execution_grace": 5},
        "c": {"command": ["x"], "concurrent_runs": True},
    }
    cfg = {"jobs": jobs, "shutdown_kill_runs": True, "shutdown_kill_grace": 20}
    s = Sim(ctx, cfg, start_us=START, max_idle=4)
    w = s.w
    w.fixed_order = True
    w.cron_fixed = 100 * SEC  # an occurrence every 100 s
    s.jump = 40 * SEC
    s.trigger("b", {"tag": "b0"}, mtime=START - 5 * SEC)
    s.trigger("c", {"tag": "c0"}, mtime=START - 5 * SEC)
    st = {"n": 0, "at": None, "late": 0, "waits": 0}
    at = ctx.int("at", -6, 2000)
    tags = []
    children = []
    stop = signame in ("INT", "TERM")

    def arrive(lineno, frame):
        st["n"] += 1
        if st["at"] is None and s.sched is not None and ctx.decide(at == st["n"]):
            st["at"] = st["n"]
            ctx.cover("arrived")
            w.deliver(SIGNUM[signame])

    def monitor(e):
        if e.kind == "fork":
            c = e.data["child"]
            run = e.data["run"]
            if st["at"] is not None and stop:
                st["late"] += 1
                ctx.prove(
                    st["late"] <= 1 and st["waits"] == 0,
                    "no run is started after a shutdown request was handled",
                )
            if run.trigger_type == "file":
                ctx.prove(run.trigger_data["tag"] not in tags, "a trigger leads to one run only")
                tags.append(run.trigger_data["tag"])
            children.append(c)
        elif e.kind == "kill":
            c = e.data["child"]
            ctx.prove(c is not None and c.alive, "a collected process is never signalled")
            k = "term" if e.data["sig"] == SIGNUM["TERM"] else "killed"
            ctx.prove(getattr(c, k) is None, "each signal is sent once")
            ctx.prove(k == "term" or c.term is not None, "never SIGKILL before SIGTERM")
            setattr(c, k, w.now)
        elif e.kind == "sleep":
            if st["at"] is not None:
                st["waits"] += 1
            runs, running = w.table("runs"), w.table("runs_running")
            for c in children:
                nf = len([r for r in runs if r["run_id"] == c.run_id])
                na = len([r for r in running if r["run_id"] == c.run_id])
                ctx.prove((nf, na) == ((0, 1) if c.alive else (1, 0)), "no run is lost or duplicated")
            ctx.prove(len(runs) + len(running) == len(children), "nothing else is recorded")
            if not stop and signame != "HUP":
                ctx.prove("b0" in tags and "c0" in tags, "signals do not keep runs from being started")

    w.monitors.append(monitor)
    s.start()

    def exits(live):
        # c exits at its second wait, b once it was killed
        for c in live:
            if c.job_name == "c" and s.steps >= 1 or c.killed is not None:
                return (c, 0 if c.killed is None else 9)
            if c.job_name == "a" and s.steps >= 4:
                return (c, 0)
        return None

    s.exits = exits

    def step(n):
        if st["at"] is None and ctx.decide(at == -n):
            st["at"] = -n
            w.deliver(SIGNUM[signame])
        if n == 2:
            s.trigger("c", {"tag": "c2"})
        if st["at"] is not None:
            ctx.cover("afterwards")

    s.env_step = step
    rt.YIELD_HOOK = arrive
    try:
        ended = s.loop(6)
    finally:
        rt.YIELD_HOOK = None
    if stop and st["at"] is not None and st["waits"] > 3:
        ctx.prove(ended, "the daemon ends after a shutdown request")
    if ended:
        ctx.prove(stop and not w.live(), "the daemon ends only when asked and when no run is left")
    ctx.observe("end", [st["n"], len(children), sorted(tags), ended])


@harness(
    "C13",
    params={n: n for n in ("HUP", "TERM", "QUIT", "USR1")},
    bounds="one of the signals in or after the wait following a reload with one of 9 changed configurations, while runs of a group and of a job of its own are in progress and one is pending; 3 looks",
    stubs=STUBS, cron_stub=True, covers=["running"],
)
def after_reload(ctx, signame):
    base, news = reload_configs()
    kind = ctx.choice("kind", list(news))
    s = Sim(ctx, base, start_us=START)
    sp = Spec(s, "C13")
    s.w.cron_far = s.coarse = s.after_sleep = s.w.fixed_order = True
    s.jump = 65 * SEC
    for n in "ab":
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=3 if signame == "TERM" else 1)
    when = ctx.choice("when", ["in", "after"])
    st = {"sent": False}

    def arrive():
        st["sent"] = True
        if sp.live():
            ctx.cover("running")
        s.signal(signame)
        if signame == "HUP" and kind != "invalid":
            sp.reload(news[kind])

    def nap():
        if when == "in" and s.steps == 1 and not st["sent"]:
            arrive()

    def step(n):
        if n == 1:
            s.set_config(dict(news[kind], data_dir="/vworld/data"))
            s.signal("HUP")
            if kind != "invalid":
                sp.reload(news[kind])
            s.trigger("a", {"tag": "again"}, mtime=START - 5 * SEC)
        if n == 2 and not st["sent"]:
            arrive()

    s.w.on_nap = nap
    s.env_step = step
    s.loop(3)


PAIRS = {
    "{}-{}".format(a, b): (a, b)
    for a, b in (
        ("TERM", "USR1"), ("TERM", "HUP"), ("INT", "QUIT"), ("TERM", "INT"), ("HUP", "USR1"), ("HUP", "TERM"), ("HUP", "HUP"),
        ("USR1", "HUP"), ("QUIT", "TERM"), ("USR1", "USR1"),
    )
}


@harness(
    "C13",
    params=PAIRS,
    bounds="two signals arriving in the same wait or right after it, with nothing between them, at any of 2 waits, while a run is in progress, one is pending and another trigger is waiting; a reload changes a limit and adds a job; 4 looks, at most 2 exits",
    stubs=STUBS, cron_stub=True, covers=["arrived"],
)
def two_signals(ctx, pair):
    first, second = pair
    job = {"command": ["x"], "concurrency_groups": ["g"]}
    old = {"jobs": {"a": job, "b": job}, "concurrency_groups": {"g": {"max": 1}}}
    new = {"jobs": {"a": job, "b": job, "c": {"command": ["x"]}}, "concurrency_groups": {"g": {"max": 2}}}
    s = Sim(ctx, old, start_us=START)
    sp = Spec(s, "C13")
    s.w.cron_far = s.coarse = s.after_sleep = s.w.fixed_order = True
    s.jump = 65 * SEC
    for n in "ab":
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=2)
    when, at = ctx.choice("when", ["in", "after"]), ctx.choice("at", [1, 2])
    st = {"sent": False}

    def arrive():
        st["sent"] = True
        ctx.cover("arrived")
        s.set_config(dict(new, data_dir="/vworld/data"))
        for n in pair:
            s.signal(n)
            if n == "HUP":
                sp.reload(new)
        s.trigger("c", {"tag": "c"}, mtime=START - 5 * SEC)

    def nap():
        if when == "in" and s.steps == at and not st["sent"]:
            arrive()

    def step(n):
        if n == at and not st["sent"]:
            arrive()

    s.w.on_nap = nap
    s.env_step = step
    s.loop(4)


# -- many at once --------------------------------------------------------------------------

CROWD = 24


@harness(
    ["C01", "C02", "C03", "C05", "C08", "C12", "C14"],
    bounds="24 jobs of which 8 share a group with room for 5, all triggered before the first look; any number of 0, 1, 12 or all runs ending in the following wait, then all triggered again, before that reloaded or not; 3 looks",
    stubs=STUBS, cron_stub=True, covers=["all", "some", "reloaded"],
)
def crowd(ctx):
    names = ["j{:02}".format(i) for i in range(CROWD)]
    jobs = {n: dict({"command": ["x"]}, **({"concurrency_groups": ["g"]} if i % 3 == 0 else {})) for i, n in enumerate(names)}
    s = Sim(ctx, {"jobs": jobs, "concurrency_groups": {"g": {"max": 5}}}, start_us=START)
    sp = Spec(s, "C01", "C02", "C03", "C05", "C08", "C12", "C14")
    s.w.fixed_order = True
    s.jump = 700 * SEC
    for n in names:
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    k = ctx.choice("ending", [0, 1, 12, CROWD])
    ctx.cover("all" if k == CROWD else "some")
    st = {"left": k}
    again = ctx.choice("reload", [False, True])

    def exits(live):
        if not s.steps or st["left"] <= 0:
            return None
        st["left"] -= 1
        return (live[-1], 256)

    s.exits = exits

    def step(n):
        if n == 1:
            ctx.prove(len(sp.children) == CROWD - 3, "all due runs with room are started at once")
            if again:
                ctx.cover("reloaded")
                s.signal("HUP")
                sp.reload(s.config)
        if n == 2:
            for j in names:
                s.trigger(j, {"tag": j + "again"}, mtime=START - 5 * SEC)

    s.env_step = step
    s.loop(3)


@harness(
    ["C10", "C11", "C12", "C13", "C14"],
    params={"limit": 0, "stop": 1},
    bounds="24 running runs which all exceed their limit of any number of seconds to 10^5 (limit), or are all ended by a shutdown with any grace to 10^5 s (stop), waits ending at arbitrary times; a reload in between or not; 3 looks",
    stubs=STUBS, cron_stub=True, covers=["term", "kill"],
)
def crowd_ended(ctx, stop):
    names = ["j{:02}".format(i) for i in range(CROWD)]
    job = {"command": ["x"]}
    grace = ctx.int("grace", 1, 10**5)
    cfg = {"jobs": {}}
    if stop:
        cfg.update(shutdown_kill_runs=True, shutdown_kill_grace=grace)
    else:
        job.update(max_execution=ctx.int("max_execution", 1, 10**5), max_execution_grace=grace)
    cfg["jobs"] = {n: dict(job) for n in names}
    s = Sim(ctx, cfg, start_us=START, max_idle=4)
    sp = Spec(s, "C10", "C11", "C12", "C13", "C14")
    s.w.fixed_order = True
    s.max_jump = 3 * 10**5 * SEC
    for n in names:
        s.trigger(n, {"tag": n}, mtime=START - 5 * SEC)
    s.start()
    s.exits = lambda live: None
    again = ctx.choice("reload", [False, True])

    def step(n):
        if n == 1 and again:
            s.signal("HUP")
            sp.reload(s.config)
        if n == 1 and stop:
            s.signal("TERM")
        for c in sp.children:
            if c.term is not None:
                ctx.cover("term")
            if c.killed is not None:
                ctx.cover("kill")

    s.env_step = step
    s.loop(4 if stop else 3)


@harness(
    ["C02", "C10"],
    bounds="a job with max_execution whose run has got SIGTERM (and SIGKILL, or not) but has not ended when the job is triggered again, or scheduled; 4 looks (thorough 5), at most 1 exit",
    stubs=STUBS, cron_stub=True, covers=["terminated", "killed"],
)
def exclusive_terminated(ctx):
    kind = ctx.choice("grace", [10**4, 300])
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"], "max_execution": 500, "max_execution_grace": kind}}}, start_us=START)
    sp = Spec(s, "C02", "C10")
    s.after_sleep = True
    s.jump = 700 * SEC
    s.trigger("a", {"tag": "first"}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def step(n):
        if n == 1 or n == 2 and ctx.choice("again", [False, True]):
            s.trigger("a", {"tag": n}, mtime=START - 5 * SEC)
        if sp.pending and sp.live():
            c = sp.live()[0]
            if c.killed is not None:
                ctx.cover("killed")
            elif c.term is not None:
                ctx.cover("terminated")

    s.env_step = step
    s.loop(5 if core.TIER == "thorough" else 4)


@harness(
    ["C01", "C10"],
    bounds="2 jobs of a group with maximum 1 or 2, one with max_execution whose runs have got SIGTERM (and SIGKILL, or not) but have not ended when others of the group are triggered; 4 looks (thorough 5), at most 1 exit",
    stubs=STUBS, cron_stub=True, covers=["terminated", "killed"],
)
def group_terminated(ctx):
    grace = ctx.choice("grace", [10**4, 300])
    top = ctx.choice("max", [1, 2])
    a = {"command": ["x"], "concurrency_groups": ["g"], "max_execution": 500, "max_execution_grace": grace, "concurrent_runs": True}
    b = {"command": ["x"], "concurrency_groups": ["g"], "concurrent_runs": True}
    s = Sim(ctx, {"jobs": {"a": a, "b": b}, "concurrency_groups": {"g": {"max": top}}}, start_us=START)
    sp = Spec(s, "C01", "C10")
    s.after_sleep = s.w.fixed_order = True
    s.jump = 700 * SEC
    s.trigger("a", {"tag": "first"}, mtime=START - 5 * SEC)
    if top == 2:
        s.trigger("b", {"tag": "second"}, mtime=START - 5 * SEC)
    s.start()
    s.exit_any(limit=1)

    def step(n):
        if n == 1 or n == 2 and ctx.choice("again", [False, True]):
            s.trigger("ab"[n % 2], {"tag": n}, mtime=START - 5 * SEC)
        if sp.pending and sp.live():
            c = sp.live()[0]
            if c.killed is not None:
                ctx.cover("killed")
            elif c.term is not None:
                ctx.cover("terminated")

    s.env_step = step
    s.loop(5 if core.TIER == "thorough" else 4)


@harness(
    "C05",
    bounds="a job with or without concurrent_runs triggered three times with the same content, due immediately or at the same time to come; each run ends before the next look, or none does",
    stubs=STUBS, cron_stub=True, covers=["concurrent", "one after another"],
)
def identical(ctx):
    conc, later, ends = (ctx.decide(ctx.bool(k)) for k in ("concurrent", "later", "ends"))
    job = {"command": ["x"]}
    if conc:
        job["concurrent_runs"] = True
        ctx.cover("concurrent")
    s = Sim(ctx, {"jobs": {"a": job}}, start_us=START)
    data = {"n": 5, "environment": {"A": "x"}}
    if later:
        data["schedule_time"] = START // SEC + 1000
    s.jump = 300 * SEC
    s.max_idle = 99
    s.exits = lambda live: (live[0], 0) if ends and s.steps else None
    s.trigger("a", data, mtime=START - 5 * SEC)
    s.start()

    def step(n):
        if n in (1, 2):
            s.trigger("a", data, mtime=START - 5 * SEC)

    s.env_step = step
    s.loop(7)
    forks = s.w.evs("fork")
    if conc:
        want = 3
    elif later:
        want = 1  # each one replaces the pending one
    else:
        want = 3 if ends else 1
    if want == 3 and not conc:
        ctx.cover("one after another")
    ctx.prove(len(forks) == want, "each trigger leads to one run, unless it is replaced", str(len(forks)))
    for e in forks:
        d = e.data["run"].trigger_data
        ctx.prove(set(d) == set(data) and d["n"] == data["n"] and d["environment"] == {"A": "x"}, "the run carries the file's data")
    left = [p for p in s.w.fs if "/trigger/" in p]
    ctx.prove(not left, "a trigger file of a job is consumed at the next look")
