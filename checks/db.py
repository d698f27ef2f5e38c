"""Recorded runs: queries, round trips, atomicity, start-up (C20-C24)."""
from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Iff, Implies, Not, Or, SDict, Sym, us_of

from .child import DATA
from .sim import SEC, STUBS, Sim, loads
from .triggers import same_value, value

START = 1_700_000_000_250_000
RUNS = ("job_name", "run_id", "schedule_time", "start_time", "stop_time", "exit_code", "trigger_type", "trigger_data", "run_data")


def open_db(ctx, w, jobs=("a", "b")):
    """A database object as every tool opens it, and its configuration."""
    import dsari.config
    import dsari.database

    w.put("/vworld/etc/dsari.json", {"data_dir": DATA, "jobs": {j: {"command": ["x"]} for j in jobs}}, fmt="json")
    c = dsari.config.get_config("/vworld/etc")
    return c, dsari.database.get_database(c)


def row(ctx, i, job, running=False, rid=None):
    st, d1, d2 = (ctx.int("{}_{}".format(k, i), 0, 10**12) for k in ("sched", "wait", "took"))
    r = {
        "job_name": job, "run_id": rid if rid is not None else "run-{}".format(i),
        "schedule_time": st / 1000, "start_time": (st + d1) / 1000,
    }
    if not running:
        r.update(stop_time=(st + d1 + d2) / 1000, exit_code=ctx.int("exit_{}".format(i), 0, 255))
    r.update(trigger_type="schedule", trigger_data="{}", run_data="{}")
    return r


def same_row(ctx, got, want, label):
    ctx.prove(set(got) == set(want), label)
    for k, v in want.items():
        if k.endswith("_time"):
            ctx.prove(ctx.eq_real(got[k] * 1.0, v * 1.0), label)
        else:
            ctx.prove(got[k] == v, label)


# -- C20 ---------------------------------------------------------------------------------


@harness(
    "C20",
    bounds="3 finished runs (thorough 5) of any of several jobs with similar names, any times (milliseconds) and exit codes 0-255, two running runs; for jobs with ordinary names and a name that is an SQL wildcard",
    stubs=STUBS, cron_stub=True, covers=["good and bad", "none", "only bad"],
)
def previous_query(ctx):
    ctx.set_local_offset()
    w = W.World(ctx, start_us=START)
    me = ctx.choice("job", ["a", "_"])
    c, db = open_db(ctx, w, jobs=(me, "A", "other"))
    n = 5 if core.TIER == "thorough" else 3
    rows = []
    for i in range(n):
        j = ctx.choice("job_{}".format(i), [me, "A"] if i else [me, "A", "a ", "gone"])
        rows.append(row(ctx, i, j))
    run = [row(ctx, "x", me, running=True, rid="act"), row(ctx, "y", "A", running=True, rid="act2")]
    seed(w, "runs", rows)
    seed(w, "runs_running", run)
    got = db.get_previous_runs(c.jobs[me])
    ctx.prove(len(got) == 3, "previous, previous good and previous bad run are reported")
    mine = [r for r in rows if r["job_name"] == me]
    seen = []
    for g, ok, k in zip(got, (lambda r: True, lambda r: r["exit_code"] == 0, lambda r: r["exit_code"] != 0), "pgb"):
        if g is None:
            for r in mine:
                ctx.prove(Not(ok(r)), "a previous run is reported if there is one", k)
            continue
        seen.append(k)
        hit = [r for r in mine if r["run_id"] == g.id]
        ctx.prove(len(hit) == 1, "the previous run is a finished run of the job", k)
        r = hit[0]
        ctx.prove(ok(r), "the previous run is of the right kind", k)
        for o in mine:
            ctx.prove(Or(Not(ok(o)), o["stop_time"] <= r["stop_time"]), "no later run of the kind exists", k)
        ctx.prove(g.job.name == me, "the run belongs to the job", k)
        ctx.prove(g.exit_code == r["exit_code"], "the run's own values are reported", k)
        for f in ("schedule_time", "start_time", "stop_time"):
            ctx.prove(ctx.eq_real(us_of(getattr(g, f)) / 1e6, r[f] * 1.0), "the run's own values are reported", k)
    ctx.cover({"pgb": "good and bad", "": "none", "pb": "only bad", "pg": "only good"}["".join(seen)])


def seed(w, name, rows):
    """More committed rows in an existing table."""
    conn = w.connect(DATA + "/dsari.sqlite3")
    cur = conn.cursor()
    for r in rows:
        cols = list(r)
        cur.execute(
            "INSERT INTO {} ({}) VALUES ({})".format(name, ", ".join(cols), ", ".join("?" for _ in cols)),
            [r[c] for c in cols],
        )
    conn.commit()
    conn.close()


# -- C21 ---------------------------------------------------------------------------------


@harness(
    "C21",
    params={"running": True, "finished": False},
    bounds="one run with any job name (1-8 characters), run id (texts up to 8 characters) and trigger type, any instants 2001-2096 (microseconds) in any offsets, trigger and run data holding any kind of recordable value, exit code 0-255; any local offset; read by the same and by another connection",
    stubs=STUBS, cron_stub=True, covers=[],
)
def round_trip(ctx, running):
    import dsari
    import dsari.database

    ctx.set_local_offset()
    w = W.World(ctx, start_us=START)
    c, db = open_db(ctx, w)
    kinds = ["str", "int", "float", "null", "true", "list", "dict", "emptydict"]
    _, v = value(ctx, "data", kinds)
    tdata = {"k": v, "s": "a\ud800\U0001f600\x00", "environment": {"A": ctx.str("env", maxlen=4)}}
    rdata = {"return_data": value(ctx, "ret", ["str", "list", "null"])[1]}
    times = {}
    off = ctx.int("sched_off", -14 * 60, 14 * 60) * 60 * SEC
    for i, k in enumerate(("schedule_time", "start_time", "stop_time")):
        times[k] = ctx.int(k, 10**15, 4 * 10**15 - 86400 * SEC)
    name = ctx.str("name", maxlen=8, minlen=1) if running else ctx.choice("known", ["a", "gone"])
    rid = ctx.str("rid", maxlen=8, minlen=1) if not running else "0f-1"
    run = dsari.Run(dsari.Job(name), id=rid)
    run.trigger_type = ctx.str("type", maxlen=8)
    run.trigger_data, run.run_data = tdata, rdata
    run.schedule_time = aware(ctx, times["schedule_time"], off)
    run.start_time = ctx.dt_from_us(times["start_time"])
    fields = ["schedule_time", "start_time"]
    if running:
        db.insert_running_run(run)
    else:
        run.stop_time = ctx.dt_from_us(times["stop_time"])
        run.exit_code = ctx.int("code", 0, 255)
        fields.append("stop_time")
        if ctx.decide(ctx.bool("listed_before")):
            db.insert_running_run(run)
        db.insert_run(run)
    db2 = dsari.database.get_database(c)
    got = {"get": db.get_runs(runs_running=running), "other": db2.get_runs(runs_running=running)}
    ctx.prove(not db2.get_runs(runs_running=not running), "the run is in one place only")
    if not running:
        p = db.get_previous_runs(run.job)
        got["previous"] = [p[0]]
        ctx.prove(p[0] is not None, "the run is the job's previous run")
    for how, rs in got.items():
        ctx.prove(len(rs) == 1, "the run is read back once", how)
        g = rs[0]
        ctx.prove(g.job.name == name, "same job", how)
        ctx.prove(g.id == rid, "same run id", how)
        ctx.prove(g.trigger_type == run.trigger_type, "same trigger type", how)
        same_value(ctx, g.trigger_data, tdata, "same trigger data")
        same_value(ctx, g.run_data, rdata, "same run data")
        if running:
            ctx.prove(g.stop_time is None and g.exit_code is None, "a running run has not ended", how)
        else:
            ctx.prove(g.exit_code == run.exit_code, "same exit code", how)
        for k in fields:
            t = getattr(g, k)
            ctx.prove(t.utcoffset() is not None, "times know their offset", how)
            d = us_of(t) - times[k]
            ctx.prove(And(d > -1000, d < 1000), "same instants to the millisecond", how)


@harness(
    "C21",
    bounds="one run whose trigger data and return data hold texts of 0 to 2 arbitrary characters and 300, 70 000 or 1 000 000 letters, a list of 3 000 numbers or values nested 40 levels deep",
    stubs=STUBS, cron_stub=True,
)
def large_data(ctx):
    import dsari

    w = W.World(ctx, start_us=START)
    c, db = open_db(ctx, w)
    kind = ctx.choice("kind", [300, 70000, 1000000, "list", "deep"])
    v = ctx.str("text", maxlen=2)
    if kind == "list":
        v = [v] + list(range(3000))
    elif kind == "deep":
        for i in range(40):
            v = [v] if i % 2 else {"k": v}
    else:
        v = v + "y" * kind
    running = ctx.choice("running", [False, True])
    run = dsari.Run(dsari.Job("a"), id="0f-1")
    run.trigger_type = "file"
    run.trigger_data, run.run_data = {"k": v}, ({} if running else {"return_data": v})
    run.schedule_time = run.start_time = ctx.dt_from_us(START)
    if running:
        db.insert_running_run(run)
    else:
        run.stop_time = ctx.dt_from_us(START)
        run.exit_code = 0
        db.insert_run(run)
    (g,) = db.get_runs(runs_running=running)
    same_value(ctx, g.trigger_data, run.trigger_data, "same trigger data")
    same_value(ctx, g.run_data, run.run_data, "same run data")


def aware(ctx, us, off):
    """An instant in a zone of its own."""
    if ctx.sym:
        from vt.sym import SymDT, SymTZ, zint

        return SymDT(zint(us) + zint(off), zint(off), SymTZ(zint(off)))
    import datetime

    tz = datetime.timezone(datetime.timedelta(microseconds=off))
    return ctx.dt_from_us(us).astimezone(tz)


# -- C22 ---------------------------------------------------------------------------------


@harness(
    "C22",
    bounds="a crash at any database operation or other step of a daemon with 2 triggered runs, one retriggered, that finish in any order, and one run recorded earlier; 3 looks",
    stubs=STUBS + ["a crash keeps exactly what sqlite has committed"], cron_stub=True, covers=["both finished", "in between"],
)
def atomic(ctx):
    s = Sim(ctx, {"jobs": {j: {"command": ["x"]} for j in "ab"}}, start_us=START)
    w = s.w
    w.fixed_order = True
    s.jump = 700 * SEC
    old = row(ctx, "old", "a", rid="old")
    w.seed_table("runs", [old])
    listed = []
    st = {"busy": False}

    def look(*a):
        if st["busy"]:
            return
        st["busy"] = True
        try:
            runs, act = w.table("runs"), w.table("runs_running")
        finally:
            st["busy"] = False
        ids = [r["run_id"] for r in runs]
        now = [r["run_id"] for r in act]
        ctx.prove(len(set(ids)) == len(ids) and len(set(now)) == len(now), "no run is listed twice")
        for i in now:
            if i not in listed:
                listed.append(i)
        for i in listed:
            ctx.prove(i in ids or i in now, "a listed run is never lost")
            ctx.prove(not (i in ids and i in now), "a run is never both running and finished")
        ctx.prove(all(i in listed or i == "old" for i in ids), "only listed runs are recorded")
        ctx.prove("old" in ids, "earlier records are kept")
        same_row(ctx, [r for r in runs if r["run_id"] == "old"][0], old, "earlier records are unchanged")
        if len(ids) >= 3:
            ctx.cover("both finished")
        elif len(ids) == 2:
            ctx.cover("in between")

    for j in "ab":
        s.trigger(j, {"tag": j}, mtime=START - SEC)
    s.start()
    w.on_db = look
    w.monitors.append(look)
    s.exit_any(limit=3)

    def step(n):
        if n == 1:
            s.trigger("a", {"tag": "again"}, mtime=START - SEC)

    s.env_step = step
    s.loop(3)
    look()


# -- C23 ---------------------------------------------------------------------------------


@harness(
    "C23",
    params={"finished": False, "running": True},
    bounds="3 recorded runs of any names (texts up to 3 characters), ids any texts up to 3 characters, one more in the other list; queries by 0 to 2 ids, by 0 to 2 job names, by both, or by nothing",
    stubs=STUBS, cron_stub=True, covers=["some", "all"],
)
def query(ctx, running):
    w = W.World(ctx, start_us=START)
    c, db = open_db(ctx, w, jobs=("a", "A"))
    rows = []
    for i in range(3):
        rows.append(row(ctx, i, ctx.str("job_{}".format(i), maxlen=3, minlen=1, chars="aA%_ '?"), running=running,
                        rid=ctx.str("id_{}".format(i), maxlen=3, minlen=1, chars="a-f0-9-")))
    for i in range(3):
        for j in range(i):
            ctx.assume(rows[i]["run_id"] != rows[j]["run_id"])
    other = row(ctx, "o", "a", running=not running, rid="other")
    t, t2 = ("runs_running", "runs") if running else ("runs", "runs_running")
    seed(w, t, rows)
    seed(w, t2, [other])
    kind = ctx.choice("query", ["all", "ids", "jobs", "both"])
    kw = {}
    if kind in ("ids", "both"):
        kw["run_ids"] = [ctx.str("want_id_{}".format(i), maxlen=3, minlen=1, chars="a-f0-9-") for i in range(ctx.choice("n_ids", [0, 1, 2]))]
    if kind in ("jobs", "both"):
        kw["job_names"] = [ctx.str("want_job_{}".format(i), maxlen=3, minlen=1, chars="aA%_ '?") for i in range(ctx.choice("n_jobs", [0, 1, 2]) if kind == "jobs" else 1)]
    got = db.get_runs(runs_running=running, **kw)
    want = []
    for r in rows:
        if kind == "all":
            m = True
        elif kind == "jobs":
            m = Or(False, *[r["job_name"] == x for x in kw["job_names"]])
        else:
            m = Or(False, *[r["run_id"] == x for x in kw["run_ids"]])
        want.append(m)
    ctx.cover("all" if len(got) == 3 else "some" if got else "none")
    hits = []
    for g in got:
        h = [i for i in range(3) if ctx.decide(rows[i]["run_id"] == g.id)]
        ctx.prove(len(h) == 1, "only recorded runs are returned")
        hits.append(h[0])
        r = rows[h[0]]
        ctx.prove(want[h[0]], "only requested runs are returned")
        ctx.prove(g.job.name == r["job_name"], "each run is attached to its job")
        known = [c.jobs[x] for x in ("a", "A") if ctx.decide(r["job_name"] == x)]
        if known:
            ctx.prove(g.job is known[0], "a configured job is the configured one")
        if not running:
            ctx.prove(g.exit_code == r["exit_code"], "each run has its own values")
        ctx.prove(ctx.eq_real(us_of(g.start_time) / 1e6, r["start_time"] * 1.0), "each run has its own values")
    ctx.prove(len(set(hits)) == len(hits), "no run is returned twice")
    for i in range(3):
        if i not in hits:
            ctx.prove(Not(want[i]), "every requested run is returned")


# -- C24 ---------------------------------------------------------------------------------


@harness(
    "C24",
    bounds="up to 2 finished and 2 stale running rows with any times and exit codes, or tables that do not exist yet; the database opened by a tool 0 to 2 times before and after the daemon starts",
    stubs=STUBS, cron_stub=True, covers=["new database", "stale rows"],
)
def start_up(ctx):
    import dsari.config
    import dsari.database

    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=START)
    w = s.w
    done = act = None
    if ctx.decide(ctx.bool("has_runs")):
        done = [row(ctx, i, "a" if i else "gone") for i in range(ctx.choice("n_runs", [0, 1, 2]))]
        w.seed_table("runs", done)
    if ctx.decide(ctx.bool("has_running")):
        act = [row(ctx, "r{}".format(i), "a", running=True) for i in range(ctx.choice("n_running", [0, 1, 2]))]
        w.seed_table("runs_running", act)
        ctx.cover("stale rows")
    if done is None and act is None:
        ctx.cover("new database")

    def tool(n):
        for i in range(n):
            c = dsari.config.get_config("/vworld/etc")
            d = dsari.database.get_database(c)
            d.get_runs()
            d.get_runs(runs_running=True)

    def same(name, rows):
        got = w.table(name)
        ctx.prove(len(got) == len(rows), "no recorded run is lost or added")
        for r in rows:
            g = [x for x in got if x["run_id"] == r["run_id"]]
            ctx.prove(len(g) == 1, "no recorded run is lost or added")
            same_row(ctx, g[0], r, "no recorded run is changed")

    tool(ctx.choice("before", [0, 1, 2]))
    same("runs", done or [])
    same("runs_running", act or [])
    s.start()
    ctx.prove(not w.table("runs_running"), "stale runs disappear from the running list")
    same("runs", done or [])
    # a run in progress survives tools opening the database
    s.trigger("a", {}, mtime=START - 1)
    s.exits = lambda live: None
    s.loop(1)
    r = w.table("runs_running")
    ctx.prove(len(r) == 1, "the daemon's own run is listed")
    tool(ctx.choice("after", [1, 2]))
    ctx.prove(len(w.table("runs_running")) == 1, "tools leave running runs alone")
    same("runs", done or [])


# -- many runs -----------------------------------------------------------------------------


def crowd_of(ctx, n, job="a", **more):
    """n finished runs of a job, one every ten seconds; -> rows."""
    rows = []
    for i in range(n):
        t = 1_690_000_000.0 + 10 * i
        r = {
            "job_name": job, "run_id": "run-{:04}".format(i), "schedule_time": t, "start_time": t + 1, "stop_time": t + 3,
            "exit_code": 0, "trigger_type": "schedule", "trigger_data": "{}", "run_data": "{}",
        }
        rows.append(dict(r, **more))
    return rows


MANY = 300


@harness(
    ["C20", "C23", "C24", "C21"],
    bounds="300 finished runs of a job, one of them (the first, a middle or the last one) with any exit code, and 40 stale running ones; asked for all, by the job, and by 60 run ids; the daemon started afterwards",
    stubs=STUBS, cron_stub=True, covers=["bad", "good"],
)
def many_runs(ctx):
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=START)
    w = s.w
    c, db = open_db(ctx, w)
    rows = crowd_of(ctx, MANY)
    at = ctx.choice("odd one", [0, 150, MANY - 1])
    rows[at]["exit_code"] = code = ctx.int("exit", 0, 255)
    act = [{k: v for k, v in dict(r, run_id="act" + r["run_id"]).items() if k not in ("stop_time", "exit_code")} for r in rows[:40]]
    seed(w, "runs", rows)
    seed(w, "runs_running", act)
    p = db.get_previous_runs(c.jobs["a"])
    last = rows[-1]["run_id"]
    ctx.prove(p[0] is not None and p[0].id == last, "no later run of the kind exists")
    if ctx.decide(code != 0):
        ctx.cover("bad")
        ctx.prove(p[2] is not None and p[2].id == rows[at]["run_id"], "a previous run is reported if there is one")
        ctx.prove(p[1] is not None and p[1].id == rows[-2 if at == MANY - 1 else -1]["run_id"], "no later run of the kind exists")
    else:
        ctx.cover("good")
        ctx.prove(p[2] is None, "the previous run is of the right kind")
        ctx.prove(p[1] is not None and p[1].id == last, "no later run of the kind exists")
    ids = sorted(r["run_id"] for r in rows)
    label = "every requested run is returned"
    for kw in ({}, {"job_names": ["a"]}, {"job_names": ["b", "a"]}):
        ctx.prove(sorted(r.id for r in db.get_runs(**kw)) == ids, label)
    ctx.prove(sorted(r.id for r in db.get_runs(run_ids=ids[:60])) == ids[:60], label)
    ctx.prove(sorted(r.id for r in db.get_runs(runs_running=True)) == sorted(r["run_id"] for r in act), label)
    got = [r for r in db.get_runs() if r.id == rows[at]["run_id"]]
    ctx.prove(got[0].exit_code == code, "each run has its own values")
    s.start()
    ctx.prove(not w.table("runs_running"), "stale runs disappear from the running list")
    ctx.prove(sorted(r["run_id"] for r in w.table("runs")) == ids, "no recorded run is lost or added")
