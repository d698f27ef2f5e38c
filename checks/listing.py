"""dsari-info: dumped configurations and listings (C57, C59-C61)."""
import copy
import json

from vt import core, rt
from vt import world as W
from vt.registry import harness
from vt.sym import And, Not, Or, SDict, Sym, SymBytes, SymInt, SymStr, mkstr, us_of

from .child import DATA
from .config import ALL, FILES, JOB, TOP, job_state, load, merged, some, td_us_of
from .db import START, crowd_of, open_db, row, seed
from .render import char, info, out_path
from .reports import ETC, joined, lines, pieces, plain
from .sim import SEC, STUBS, Sim
from .triggers import same_value

AGAIN = "/vworld/again"


def structure(text, fmt):
    """What a printed document says."""
    if fmt == "json":
        return rt._json_loads(text) if isinstance(text, Sym) else json.loads(text)
    import yaml

    v = rt.yaml_text(text)
    return v if v is not None else yaml.safe_load(text)


def effect(c):
    jobs = {}
    for k, j in c.jobs.items():
        s = job_state(j)
        s["groups"] = sorted(s["groups"])
        for f in ("max_execution", "max_execution_grace"):
            s[f] = None if s[f] is None else td_us_of(s[f])
        from dsari.utils import dtnow

        s["offset"] = td_us_of(dtnow(j.schedule_timezone).utcoffset())
        jobs[k] = s
    top = {k: getattr(c, k) for k in list(TOP) + ["config_d"]}
    if isinstance(top["database"], dict) and top["database"].get("type", "sqlite3") == "sqlite3" and top["database"].get("file") is None:
        top["database"] = dict(top["database"], type="sqlite3", file=rt._path_join(c.data_dir, "dsari.sqlite3"))
    if top["shutdown_kill_grace"] is not None:
        top["shutdown_kill_grace"] = td_us_of(top["shutdown_kill_grace"])
    return jobs, top, [(g.name, g.max) for g in c.concurrency_groups.values()]


def compare(ctx, a, b, label):
    a, b = effect(a), effect(b)
    for x, y in zip(a[:2], b[:2]):
        ctx.prove(set(x) == set(y), label)
        for k in x:
            same_value(ctx, y[k], x[k], label)
    ctx.prove(len(a[2]) == len(b[2]), label, "concurrency groups")
    for n, m in a[2]:
        ctx.prove(Or(*[And(n == n2, m == m2) for n2, m2 in b[2]]), label, "concurrency groups")


def base():
    return {
        "data_dir": DATA,
        "jobs": {"b": {"command": ["x"], "concurrency_groups": ["g", "only here"], "environment": {"A": "b"}}},
        "job_groups": {"t": {"command": "run it", "job_names": ["t1", "t2"]}},
        "concurrency_groups": {"g": {"max": 3}, "unused": {}},
    }


@harness(
    "C61",
    bounds="40 running runs with output files, two more without; all of them or all with an output by run id",
    stubs=STUBS, cron_stub=True,
)
def tail_many(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    _, act = rows_of(ctx, 0, 42)
    seed(w, "runs_running", act)
    out = {r["run_id"]: out_path(r["job_name"], r["run_id"]) for r in act}
    ids = sorted(out)
    for i in ids[2:]:
        w.put(out[i], b"x")
    try:
        info(ctx, w, "run", "tail", *(ids[2:] if ctx.choice("by id", [False, True]) else []))
    except W.ExecDone:
        pass
    ctx.prove(w.exec_record is not None, "the output is followed")
    f, argv, env = w.exec_record
    ctx.prove(f == "tail" and argv[1:2] == ["-f"] and sorted(argv[2:]) == sorted(out[i] for i in ids[2:]), "exactly the outputs of the asked for running runs are followed", repr(argv))


@harness(
    "C57",
    params={"top": TOP, "job": JOB},
    bounds="one global option, or one option of a job (given itself or by a job group), of any valid kind with any value (texts up to 4 characters), next to jobs, groups and concurrency groups; as JSON and YAML; any local offset",
    stubs=FILES, cron_stub=True, covers=["round trip"],
)
def dumped(ctx, table):
    w = W.World(ctx, start_us=START)
    w.zones = {"Zone/A": (3600 * SEC,)}
    ctx.set_local_offset()
    m = base()
    o = ctx.choice("option", sorted(table))
    k = ctx.choice("kind", list(table[o]))
    v = "1 2 3 4 5" if o == "schedule" and k == "str" else "Zone/A" if o == "schedule_timezone" else ctx.choice("dir", ["/vworld/d", "/vworld/d/", "/vworld/d d"]) if o == "data_dir" else some(ctx, k, 10**9)
    if table is TOP:
        m[o] = v
    elif ctx.choice("place", ["job", "group"]) == "job":
        m["jobs"]["a"] = dict({"command": ["y"]}, **{o: v})
    else:
        m["job_groups"]["t"][o] = v
    c = load(ctx, w, {"dsari.json": m})
    if c is None:
        return
    fmt = ctx.choice("format", ["json", "yaml"])
    text = info(ctx, w, "config", "dump", "--format", fmt)
    ctx.prove(text is not None, "the configuration is printed")
    d = structure(text, fmt)
    c2 = load(ctx, w, {"dsari." + fmt: d}, etc=AGAIN)
    ctx.prove(c2 is not None, "a dumped configuration is valid")
    ctx.cover("round trip")
    compare(ctx, c, c2, "a dumped configuration loads to the same")


@harness(
    "C57",
    bounds="two configuration files of overlapping mappings with symbolic texts and numbers; as JSON and YAML",
    stubs=FILES, cron_stub=True, covers=["raw"],
)
def dumped_raw(ctx):
    w = W.World(ctx, start_us=START)
    m1 = dict(base(), left={"k": 1}, kept={"k": 2})
    m2 = {
        "left": ctx.choice("left", [None, {}, 0, [2]]),
        "jobs": {"b": {"environment": {"A": ctx.str("env", maxlen=4), "B": ctx.int("n", -(10**6), 10**6)}}, "c": {"command": ctx.str("cmd", maxlen=4, minlen=1, chars="a-z")}},
        "own": {"list": [ctx.real("x", -(10**6), 10**6), None, {"k": True}], "e": {}, "f": False, "n": None, "l": []},
        "report_html_gz": False, "concurrency_groups": {}, "extra": ctx.choice("extra", [None, 0, "", []]),
    }
    files = {"dsari.json": m1, "config.d/x.json": m2}
    want = merged(copy.deepcopy(m1), copy.deepcopy(m2))
    c = load(ctx, w, copy.deepcopy(files))
    if c is None:
        return
    fmt = ctx.choice("format", ["json", "yaml"])
    text = info(ctx, w, "config", "dump", "--raw", "--format", fmt)
    ctx.prove(text is not None, "the configuration is printed")
    ctx.cover("raw")
    same_value(ctx, structure(text, fmt), want, "the raw form is the merged input")
    c2 = load(ctx, w, {"dsari." + fmt: structure(text, fmt)}, etc=AGAIN)
    ctx.prove(c2 is not None, "a raw dump is valid")
    c2.config_d = c.config_d
    compare(ctx, c, c2, "a raw dump loads to the same")


# -- C60 ---------------------------------------------------------------------------------


def instant(text):
    """The instant a printed time means, in microseconds."""
    ps = SymStr.pieces(text) if isinstance(text, str) else None
    if ps is None:
        return None
    if len(ps) == 1 and ps[0][0] == "dt":
        return us_of(ps[0][1])
    import datetime

    try:
        t = datetime.datetime.fromisoformat(text)
    except (TypeError, ValueError):
        return None
    return us_of(t) if t.tzinfo is not None else None


def same_instant(ctx, text, value, label):
    t = instant(text)
    ctx.prove(t is not None, label, "not a time")
    ctx.prove(ctx.eq_real(t / 1e6, value * 1.0), label)


def rows_of(ctx, n, running):
    jobs = ["a", "b", "gone"]
    done = [row(ctx, i, ctx.choice("job_{}".format(i), jobs[: 2 + i])) for i in range(n)]
    act = [row(ctx, "x{}".format(i), jobs[(i + 1) % 3], running=True, rid="act{}".format(i)) for i in range(running)]
    for i, r in enumerate(done + act):
        r.update(trigger_type=("schedule", "file")[i % 2], trigger_data=json.dumps({"n": i}), run_data=json.dumps({"of": [i]}))
    return done, act


def move(w, r, **done):
    """A run finishes, as the daemon records it."""
    conn = w.connect(DATA + "/dsari.sqlite3")
    cur = conn.cursor()
    cur.execute("DELETE FROM runs_running WHERE run_id = ?", (r["run_id"],))
    r = dict(r, **done)
    cols = list(r)
    cur.execute("INSERT INTO runs ({}) VALUES ({})".format(", ".join(cols), ", ".join("?" for _ in cols)), [r[c] for c in cols])
    conn.commit()
    conn.close()
    return r


FILTERS = {
    "all": ([], lambda r: True),
    "a job": (["--job", "a"], lambda r: r["job_name"] == "a"),
    "jobs": (["--job", "gone", "--job", "b"], lambda r: r["job_name"] in ("gone", "b")),
    "another": (["--job", "A"], lambda r: False),
    "part of a name": (["--job", "gon"], lambda r: False),
    "part of an id": (["--run", "run-", "--run", "act"], lambda r: False),
    "a run": (["--run", "run-0"], lambda r: r["run_id"] == "run-0"),
    "runs": (["--run", "act0", "--run", "run-1", "--run", "x"], lambda r: r["run_id"] in ("act0", "run-1")),
}


def entries(ctx, text, fmt):
    """The listing as (run id, {column: text or None})."""
    if fmt in ("json", "yaml"):
        d = structure(text, fmt)
        ctx.prove(isinstance(d, dict), "the listing is a mapping of the runs")
        return list(d.items())
    out = []
    ls, rest = lines(text)
    ctx.prove(not rest, "each run has its line")
    for ps in ls:
        cols = [[]]
        for p in ps:
            if p == ("c", "\t"):
                cols.append([])
            else:
                cols[-1].append(p)
        cols = [joined(c) for c in cols]
        ctx.prove(len(cols) == 7, "a line has its seven columns", repr(cols))
        rid, job, code, kind, sched, start, stop = cols
        e = {"job_name": job, "exit_code": code, "trigger_type": kind, "schedule_time": sched, "start_time": start, "stop_time": stop}
        e = {k: None if isinstance(v, str) and not isinstance(v, Sym) and v == "" else v for k, v in e.items()}
        out.append((rid, e))
    return out


def check_entry(ctx, e, r, fmt):
    label = "a run is listed with its own values"
    finished = "stop_time" in r
    for k in ("job_name", "trigger_type"):
        ctx.prove(e[k] == r[k], label, k)
    for k in ("schedule_time", "start_time"):
        same_instant(ctx, e[k], r[k], label)
    if finished:
        same_instant(ctx, e["stop_time"], r["stop_time"], label)
        ctx.prove(e["exit_code"] == (str_of(r["exit_code"]) if fmt == "tabular" else r["exit_code"]), label, "exit code")
    else:
        ctx.prove(e["stop_time"] is None and e["exit_code"] is None, "a running run has neither stop time nor exit code")
    if fmt != "tabular":
        for k in ("trigger_data", "run_data"):
            same_value(ctx, e[k], json.loads(r[k]), label)


def str_of(n):
    return SymStr([("d", n.e)]) if isinstance(n, SymInt) else str(n)


@harness(
    "C60",
    params={"json": "json", "yaml": "yaml", "tabular": "tabular"},
    bounds="2 finished runs (thorough 3) and one running run of configured jobs or one that is gone, any times (milliseconds) and exit codes 0-255; all, filtered by jobs or by runs; any local offset",
    stubs=STUBS, cron_stub=True, covers=["listed"],
)
def listed(ctx, fmt):
    ctx.set_local_offset()
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    done, act = rows_of(ctx, 3 if core.TIER == "thorough" else 2, 1)
    seed(w, "runs", done)
    seed(w, "runs_running", act)
    args, want = FILTERS[ctx.choice("filter", list(FILTERS))]
    text = info(ctx, w, "run", "list", "--format", fmt, *args)
    ctx.prove(text is not None, "the runs are listed")
    got = entries(ctx, text, fmt)
    by = {r["run_id"]: r for r in done + act if want(r)}
    ctx.prove(sorted(i for i, _ in got) == sorted(by), "exactly the selected runs are listed, each once", repr([i for i, _ in got]))
    if by:
        ctx.cover("listed")
    for i, e in got:
        check_entry(ctx, e, by[i], fmt)
    if fmt == "tabular":
        for (x, _), (y, _) in zip(got, got[1:]):
            ctx.prove(by[x]["start_time"] <= by[y]["start_time"], "the table is in the order the runs started")


@harness(
    "C60",
    params={"json": "json", "tabular": "tabular"},
    bounds="2 running runs finishing and a further run starting, each before any statement of the listing to the database or not at all, next to a finished run; all or by run id; any times and exit codes",
    stubs=STUBS, cron_stub=True, covers=["meanwhile", "none meanwhile"],
)
def listed_meanwhile(ctx, fmt):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    done, act = rows_of(ctx, 1, 2)
    seed(w, "runs", done)
    seed(w, "runs_running", act)
    new = dict(plain(7, True), run_id="new", job_name="b")
    codes = [ctx.int("code{}".format(i), 0, 255) for i in range(2)]
    ends = [dict(stop_time=r["start_time"] + ctx.int("ran{}".format(i), 0, 10**9) / 1000, exit_code=codes[i]) for i, r in enumerate(act)]
    state = {"busy": False, "n": 0, "ended": {}, "new": False}

    def meanwhile(what, detail):
        if what != "execute" or state["busy"] or not str(detail).strip().upper().startswith("SELECT"):
            return
        state["busy"] = True
        n = state["n"] = state["n"] + 1
        for i, r in enumerate(act):
            if i not in state["ended"] and ctx.choice("ends{}_{}".format(i, n), [False, True]):
                state["ended"][i] = move(w, r, **ends[i])
        if not state["new"] and ctx.choice("starts_{}".format(n), [False, True]):
            state["new"] = True
            seed(w, "runs_running", [new])
        state["busy"] = False

    args, want = FILTERS[ctx.choice("filter", ["all", "runs"])]
    w.on_db = meanwhile
    text = info(ctx, w, "run", "list", "--format", fmt, *args)
    w.on_db = None
    ctx.prove(text is not None, "the runs are listed")
    ctx.cover("meanwhile" if state["ended"] else "none meanwhile")
    got = entries(ctx, text, fmt)
    ids = [i for i, _ in got]
    for r in done + act:
        ctx.prove(ids.count(r["run_id"]) == (1 if want(r) else 0), "a run finishing meanwhile is listed once", repr(ids))
    ctx.prove(set(ids) <= {r["run_id"] for r in done + act} | ({"new"} if state["new"] and args == [] else set()), "no other run is listed")
    for i, e in got:
        if i == "new":
            continue
        r = next(r for r in done + act if r["run_id"] == i)
        if e["stop_time"] is not None and r in act:
            k = act.index(r)
            ctx.prove(k in state["ended"], "a running run has neither stop time nor exit code")
            r = state["ended"][k]
        check_entry(ctx, e, r, fmt)


def meantime(ctx, w, at):
    """Before any statement of a tool to the database, once at most."""
    state = {"busy": False, "n": 0, "done": False}

    def hook(what, detail):
        if what != "execute" or state["busy"] or state["done"] or not str(detail).strip().upper().startswith("SELECT"):
            return
        state["busy"] = True
        state["n"] += 1
        if ctx.choice("now_{}".format(state["n"]), [False, True]):
            at()
            state["done"] = True
        state["busy"] = False

    w.on_db = hook
    return state


@harness(
    "C56",
    bounds="a running run finishing before any statement of the request for its output, or not at all",
    stubs=STUBS, cron_stub=True, covers=["meanwhile"],
)
def printed_meanwhile(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    done, act = rows_of(ctx, 1, 1)
    seed(w, "runs", done)
    seed(w, "runs_running", act)
    w.put(out_path(act[0]["job_name"], "act0"), b"said\n")
    code = ctx.int("code", 0, 255)
    state = meantime(ctx, w, lambda: move(w, act[0], stop_time=act[0]["start_time"] + 1, exit_code=code))
    text = info(ctx, w, "run", "output", "act0")
    w.on_db = None
    if state["done"]:
        ctx.cover("meanwhile")
    ctx.prove(text is not None, "the output of a recorded run is shown")
    ctx.prove(text == "said\n", "the output of a recorded run is shown")


def plain_text(text):
    """Without the escape sequences for colors."""
    out, skip = [], False
    for p in pieces(text):
        if p == ("c", "\x1b"):
            skip = True
        elif skip:
            skip = p != ("c", "m")
        else:
            out.append(p)
    return joined(out)


def column(ps):
    """Characters and pieces without the spaces around them."""
    blank = lambda p: p == ("c", " ") or p[0] == "o" and isinstance(p[1], tuple) and p[1][0] == "rep" and p[1][1] == " "
    while ps and blank(ps[0]):
        ps = ps[1:]
    while ps and blank(ps[-1]):
        ps = ps[:-1]
    return ps


@harness(
    "C60",
    bounds="2 finished runs (thorough 3) started in any order, one running run, any exit codes 0-255; on a terminal or not; all, filtered by jobs or by runs",
    stubs=STUBS, cron_stub=True, covers=["listed"],
)
def pretty(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    n = 3 if core.TIER == "thorough" else 2
    order = list(range(n + 1))
    done, act = [], []
    for i in range(n + 1):
        k = order.pop(ctx.choice("order_{}".format(i), list(range(len(order)))))
        r = dict(plain(i), job_name=["a", "b", "gone"][i % 3])
        at = START / 1e6 - (50, 4000, 90000, 200000)[k] - 0.25
        r.update(schedule_time=at - 2, start_time=at, stop_time=at + 7, exit_code=0)
        if i == n:
            r.update(run_id="act0")
            del r["stop_time"], r["exit_code"]
            act.append(r)
        else:
            r["exit_code"] = ctx.int("exit_{}".format(i), 0, 255)
            done.append(r)
    seed(w, "runs", done)
    seed(w, "runs_running", act)
    args, want = FILTERS[ctx.choice("filter", list(FILTERS))]
    tty = ctx.choice("terminal", [False, True])
    text = info(ctx, w, "run", "list", *args, tty=tty)
    ctx.prove(text is not None, "the runs are listed")
    if not tty:
        ctx.prove(not any(k == "c" and "\x1b" in v for k, v in SymStr.pieces(text)), "no terminal codes are written into files and pipes")
    ls, rest = lines(plain_text(text))
    ctx.prove(not rest and len(ls) >= 2, "a heading and a line of dashes come first")
    by = {r["run_id"]: r for r in done + act if want(r)}
    got = []
    for ps in ls[2:]:
        rid = next((i for i in by if "".join(v for k, v in ps[: len(i) + 1] if k == "c") == i + " "), None)
        ctx.prove(rid is not None, "only the selected runs are listed", repr(ps)[:200])
        got.append(rid)
        ctx.cover("listed")
        r = by[rid]
        rest = column(ps[len(rid):])
        code = str_of(r["exit_code"]) if "exit_code" in r else "..."
        want_ps = pieces(mkstr(SymStr.pieces(code)))
        label = "a run is listed with its own values"
        ctx.prove(joined(rest[: len(want_ps)]) == code, label, "exit code")
        rest = column(rest[len(want_ps):])
        words = "".join(v if k == "c" else "\0" for k, v in rest).split("   ")
        words = [x.strip() for x in words if x.strip()]
        ctx.prove(len(words) == 6 - 1, label, repr(words))
        ctx.prove(words[0] == r["job_name"], label, "job")
        ctx.prove(words[1] == ("0:00:07" if rid != "act0" else str_td(START / 1e6 - r["start_time"])), label, "duration")
        same_instant(ctx, words[2], r["start_time"], label)
        ctx.prove(words[3:] == [r["trigger_type"], "0:00:02"], label)
    ctx.prove(sorted(got) == sorted(by), "exactly the selected runs are listed, each once", repr(got))
    for x, y in zip(got, got[1:]):
        ctx.prove(by[x]["start_time"] >= by[y]["start_time"], "the newest run comes first")


def str_td(s):
    import datetime

    return str(datetime.timedelta(microseconds=round(s * 1e6)))


# -- C61 ---------------------------------------------------------------------------------

DAY = 86400 * SEC


@harness(
    "C61",
    params={f: f for f in ("json", "yaml", "tabular", "pretty")},
    bounds="a job with a daily schedule, in a named zone of any offset changing by an hour within three days or the local one, one with an explicit command and none; all or filtered; the daemon started at the same instant (any of three days)",
    stubs=STUBS + ["croniter: exact answers for one time of the day (the real croniter in replays)"], cron_stub=True, covers=["listed", "run"], max_seconds=300,
)
def jobs_listed(ctx, fmt):
    near = START + 20 * DAY
    off1 = ctx.int("off1", -12 * 60, 12 * 60)
    off2 = off1 + ctx.choice("change", [60, -60])
    # at night, as in C42
    trans = (near // DAY) * DAY + ctx.int("day", 0, 2) * DAY + ctx.int("tod", 0, 4 * 3600) * SEC - off1 * 60 * SEC
    named = ctx.choice("zone", [True, False])
    if not named:
        ctx.set_local_zone(trans, off1, off2)
    a = {"command": ["x y", "z"], "schedule": "30 12 * * * 15", "render_reports": False}
    if named:
        a["schedule_timezone"] = "Zone/A"
    conf = {"jobs": {"a": a, "b": {"command": ["w"], "concurrency_groups": ["g"]}}}
    s = Sim(ctx, conf, start_us=ctx.int("start", near - DAY, near + 2 * DAY))
    w = s.w
    w.fixed_order = True
    w.cron_daily = True
    if named:
        w.zones = {"Zone/A": (off1 * 60 * SEC, trans, off2 * 60 * SEC)}
    args, names = {"all": ([], "ab"), "a": (["--job", "a"], "a"), "b": (["--job", "b", "--job", "A"], "b"), "none": (["--job", "A"], "")}[
        ctx.choice("filter", ["all", "a", "b", "none"])
    ]
    text = info(ctx, w, "job", "list", "--format", fmt, *args, etc="/vworld/etc")
    ctx.prove(text is not None, "the jobs are listed")
    got = {}
    if fmt in ("json", "yaml"):
        for k, j in structure(text, fmt).items():
            ctx.prove(k not in got, "exactly the selected jobs are listed, each once")
            got[k] = (j["schedule"], j["next_scheduled_run"], j["command"], j)
    else:
        ls, rest = lines(plain_text(text))
        ctx.prove(not rest, "each job has its line")
        for ps in ls[2:] if fmt == "pretty" else ls:
            cols = [[]]
            if fmt == "tabular":
                for q in ps:
                    if q == ("c", "\t"):
                        cols.append([])
                    else:
                        cols[-1].append(q)
            else:
                # the column of the command is the last one
                for i, q in enumerate(ps):
                    if q[0] == "o" or [x for x in ps[i : i + 2]] == [("c", " ")] * 2 or ps[i - 1 : i + 1] == [("c", " ")] * 2:
                        if cols[-1]:
                            cols.append([])
                    else:
                        cols[-1].append(q)
                cols = [c for c in (column(c) for c in cols) if c]
                if len(cols) == 2:
                    cols = [cols[0], [], [], cols[1]]
            ctx.prove(len(cols) == 4, "a line has its four columns", repr(cols))
            k, sched, nxt, cmd = [joined(c) if c else None for c in cols]
            if fmt == "tabular":
                nxt, cmd = cmd, nxt
            ctx.prove(k not in got, "exactly the selected jobs are listed, each once")
            import shlex

            got[k] = (sched, nxt, shlex.split(cmd), None)
    ctx.prove(set(got) == set(names), "exactly the selected jobs are listed, each once", repr(set(got)))
    for k, (sched, nxt, cmd, j) in got.items():
        ctx.cover("listed")
        c = conf["jobs"][k]
        ctx.prove(sched == c.get("schedule") and cmd == c["command"], "a job is listed with its own settings")
        if j is not None:
            for o, default in (("render_reports", True), ("concurrency_groups", []), ("environment", {})):
                same_value(ctx, j[o], c.get(o, default), "a job is listed with its own settings")
        if k == "b":
            ctx.prove(nxt is None, "a job without a schedule has no next run")
    if "a" not in got:
        return
    t = instant(got["a"][1])
    ctx.prove(t is not None, "a scheduled job has a next run")
    s.max_jump = 2 * DAY
    s.max_idle = 3
    s.start()
    s.loop(1)
    for e in w.evs("fork"):
        ctx.cover("run")
        ctx.prove(ctx.eq_real(t / 1e6, us_of(e.data["run"].schedule_time) / 1e6), "the next run of a job is the one the daemon makes")


@harness(
    "C61",
    bounds="2 running runs of which any, or none, has an output file, or gets one before the second look; a finished run; all or by run id",
    stubs=STUBS, cron_stub=True, covers=["tail", "waits"],
)
def tail(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    done, act = rows_of(ctx, 1, 2)
    seed(w, "runs", done)
    seed(w, "runs_running", act)
    out = {r["run_id"]: out_path(r["job_name"], r["run_id"]) for r in done + act}
    w.put(out["run-0"], b"z")

    def write(n):
        for r in act:
            if out[r["run_id"]] not in w.fs and ctx.choice("{}_{}".format(r["run_id"], n), [False, True]):
                w.put(out[r["run_id"]], b"a\n")

    args, ids = {"all": ([], ["act0", "act1"]), "one": (["act1"], ["act1"]), "two": (["act1", "act0"], ["act0", "act1"]), "finished": (["run-0", "act0"], ["act0"])}[
        ctx.choice("runs", ["all", "one", "two", "finished"])
    ]
    state = {"n": 0}

    def slept(d):
        ctx.cover("waits")
        ctx.prove(not [i for i in ids if out[i] in w.fs], "the output of running runs is followed once there is one")
        state["n"] += 1
        if state["n"] > 2:
            raise W.StopSim("waits")
        write(state["n"])

    w.on_sleep = slept
    write(0)
    try:
        info(ctx, w, "run", "tail", *args)
        ctx.prove(False, "the output is followed")
    except W.StopSim:
        return
    except W.ExecDone:
        pass
    ctx.cover("tail")
    ctx.prove(w.exec_record is not None, "the output is followed")
    f, argv, env = w.exec_record
    want = [out[i] for i in ids if out[i] in w.fs]
    ctx.prove(f == "tail" and sorted(argv[2:] if argv[1:2] == ["-f"] else []) == sorted(want), "exactly the outputs of the asked for running runs are followed", repr(argv))
    ctx.prove(bool(want), "there is an output to be followed")


@harness(
    "C57",
    params={"top": TOP, "job": JOB},
    bounds="one option of every documented kind with a value of every YAML type, at the top or of a job; or no configuration file; or one that is not a mapping",
    stubs=FILES, cron_stub=True, covers=["valid", "invalid"],
)
def checked(ctx, table):
    import dsari.config

    w = W.World(ctx, start_us=START)
    w.zones = {"Zone/A": (3600 * SEC,)}
    how = ctx.choice("file", ["option", "none", "list"])
    m = base()
    if how == "option":
        o = ctx.choice("option", sorted(table))
        k = ctx.choice("kind", list(table[o]) + [k for k in ALL if k not in table[o]])
        fixed = {"data_dir": "/vworld/d", "schedule": "1 2 3 4 5", "schedule_timezone": "No/Such_Zone"}
        v = fixed[o] if o in fixed and k == "str" else some(ctx, k)
        if table is TOP:
            m[o] = v
        else:
            m["jobs"]["a"] = dict({"command": ["y"]}, **{o: v})
    files = {} if how == "none" else {"dsari.yaml": m if how == "option" else [m]}
    c = load(ctx, w, files)
    try:
        text = info(ctx, w, "config", "check")
    except dsari.config.ConfigError:
        text = None
    ctx.cover("invalid" if c is None else "valid")
    ctx.prove((text is None) == (c is None), "a check succeeds exactly for a configuration which can be loaded")


@harness(
    ["C60", "C58"],
    params={"json": "json", "tabular": "tabular", "pretty": "pretty", "pages": "pages"},
    bounds="260 finished runs and 30 running ones, one with any exit code, listed in a format; or 120 finished runs of two jobs rendered to pages",
    stubs=STUBS, cron_stub=True,
)
def many_listed(ctx, how):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    rows = crowd_of(ctx, 120 if how == "pages" else 260)
    rows[5]["exit_code"] = ctx.int("exit", 0, 255)
    act = [{k: v for k, v in dict(r, run_id="act" + r["run_id"]).items() if k not in ("stop_time", "exit_code")} for r in rows[:30]]
    for r in rows[-3:] if how == "pages" else []:
        r["job_name"] = "b"
    seed(w, "runs", rows)
    seed(w, "runs_running", act)
    if how == "pages":
        from .render import HTML, ids_in, page, render, run_page

        render(ctx, w)
        for r in rows:
            ctx.prove(page(w, run_page(r["job_name"], r["run_id"])) is not None, "every finished run of the jobs with reports has a page, and no other")
        for j in "ab":
            t = page(w, HTML + "/" + j + "/index.html")
            ctx.prove(t is not None, "jobs with runs have a page")
            got = ids_in(t)
            ctx.prove(sorted(set(got)) == sorted(r["run_id"] for r in rows if r["job_name"] == j), "a job's page: exactly its runs")
            ctx.prove(got == sorted(got, reverse=True), "a job's page: newest first")
        return
    if how == "pretty":
        text = info(ctx, w, "run", "list")
        ctx.prove(text is not None, "the runs are listed")
        ls, rest = lines(plain_text(text))
        ids = ["".join(v for k, v in ps if k == "c").split(" ")[0] for ps in ls[2:]]
        ctx.prove(sorted(ids) == sorted(r["run_id"] for r in rows + act), "exactly the selected runs are listed, once each")
        return
    text = info(ctx, w, "run", "list", "--format", how)
    ctx.prove(text is not None, "the runs are listed")
    es = entries(ctx, text, how)
    ctx.prove(sorted(i for i, _ in es) == sorted(r["run_id"] for r in rows + act), "exactly the selected runs are listed, once each")
    for i, e in es:
        if i == rows[5]["run_id"]:
            check_entry(ctx, e, rows[5], how)


@harness(
    ["C61", "C57", "C33"],
    params={"json": "json", "tabular": "tabular", "yaml": "yaml", "dump": "dump"},
    bounds="154 jobs, 60 of them of a job group, each with its own name (some part of others'), command and environment, one with any limit, in 70 concurrency groups; all or chosen ones listed in a format, or dumped and loaded again",
    stubs=FILES, cron_stub=True,
)
def many_jobs(ctx, how):
    w = W.World(ctx, start_us=START)
    own = ["j{:03}".format(i) for i in range(90)] + ["j04", "J045", "45", "k"]
    grouped = ["k{:03}".format(i) for i in range(60)]
    jobs = {n: {"command": ["x", n], "environment": {"V": n}, "concurrency_groups": ["g" + n[-2:]]} for n in own}
    top = ctx.int("limit", 1, 10**6)
    jobs["j045"]["max_execution"] = top
    conf = {"jobs": jobs, "job_groups": {"t": {"command": ["y"], "job_names": grouped, "concurrency_groups": ["g01", "shared"]}}}
    conf["concurrency_groups"] = {"g{:02}".format(i): {"max": i + 2} for i in range(70)}
    conf["data_dir"] = DATA
    names = sorted(own + grouped)
    if how == "dump":
        c = load(ctx, w, {"dsari.json": conf})
        ctx.prove(c is not None and sorted(c.jobs) == names, "every job exists")
        for n in grouped:
            ctx.prove(c.jobs[n].job_group == "t" and c.jobs[n].command == ["y"], "a job of a group equals the job written out")
        text = info(ctx, w, "config", "dump")
        ctx.prove(text is not None, "the configuration is dumped")
        back = load(ctx, w, {AGAIN + "/dsari.json": structure(text, "json")}, etc=AGAIN)
        ctx.prove(back is not None, "a dumped configuration is accepted")
        ctx.prove(sorted(back.jobs) == names and set(back.concurrency_groups) == set(c.concurrency_groups), "a dumped configuration loads back to the same configuration")
        for n in names:
            a, b = job_state(c.jobs[n]), job_state(back.jobs[n])
            ctx.prove(a["command"] == b["command"] and sorted(a["groups"]) == sorted(b["groups"]) and a["environment"] == b["environment"], "a dumped configuration loads back to the same configuration", n)
        for g in c.concurrency_groups:
            ctx.prove(back.concurrency_groups[g].max == c.concurrency_groups[g].max, "a dumped configuration loads back to the same configuration", g)
        ctx.prove(td_us_of(back.jobs["j045"].max_execution) == top * SEC, "a dumped configuration loads back to the same configuration", "limit")
        return
    w.put(ETC + "/dsari.json", conf, fmt="json")
    args, want = {
        "all": ([], names), "part of others": (["--job", "j04"], ["j04"]), "two": (["--job", "j045", "--job", "k"], ["j045", "k"]),
        "end": (["--job", "45"], ["45"]),
    }[ctx.choice("filter", ["all", "part of others", "two", "end"])]
    own, names = [n for n in own if n in want], want
    text = info(ctx, w, "job", "list", "--format", how, *args)
    ctx.prove(text is not None, "the jobs are listed")
    if how == "tabular":
        ls, rest = lines(text)
        got = ["".join(v if k == "c" else "\0" for k, v in ps).split("\t")[0] for ps in ls]
        ctx.prove(not rest and got == names, "exactly the configured jobs are listed, each once", repr(got)[:200])
        return
    d = structure(text, how)
    ctx.prove(sorted(d) == names, "exactly the configured jobs are listed, each once")
    for n in own:
        ctx.prove(d[n]["command"] == ["x", n] and d[n]["environment"] == {"V": n}, "a job is listed with its own settings", n)
    if "j045" in d:
        ctx.prove(ctx.eq_real(d["j045"]["max_execution"] * 1.0, top * 1.0), "a job is listed with its own settings", "limit")


# -- C63 ---------------------------------------------------------------------------------


class Reader:
    """A pager, or a program reading a pipe, which may stop reading at any time."""

    def __init__(self, ctx, name):
        self.ctx, self.name = ctx, name
        self.parts, self.n, self.gone, self.closed = [], 0, None, False
        self.encoding = "utf-8"
        self.returncode = None
        self.stdin = self
        self.tty = False

    def isatty(self):
        return self.tty

    def fileno(self):
        return 1

    def step(self, what, errors):
        if self.gone is None and self.ctx.decide(self.ctx.bool("{}_{}_{}".format(self.name, what, self.n))):
            self.gone = self.ctx.choice("{}_{}".format(self.name, what), errors)
            raise {"broken": BrokenPipeError, "interrupt": KeyboardInterrupt}[self.gone]()
        if self.gone == "broken":
            raise BrokenPipeError()

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if self.n < 6:
            self.n += 1
            self.step("write", ["broken", "interrupt"] if self.name == "pager" else ["broken"])
        elif self.gone == "broken":
            raise BrokenPipeError()
        self.parts.append(s.s if type(s) is SymBytes else s.decode("utf-8") if isinstance(s, bytes) else s)

    def flush(self):
        pass

    def close(self):
        self.closed = True
        self.step("close", ["broken"])

    def wait(self, *a, **k):
        if self.n < 100 and self.gone is None:
            self.n += 100
            self.step("wait", ["interrupt"])
        self.returncode = 0
        return 0


COMMANDS = {
    "config": ["config", "dump"], "jobs": ["job", "list", "--format", "tabular"], "json": ["job", "list", "--format", "json"],
    "runs": ["run", "list", "--format", "tabular"], "pretty": ["run", "list"], "output": ["run", "output", "run-0"],
}


@harness(
    "C63",
    params={k: k for k in COMMANDS},
    bounds="every dsari-info command printing by a pager, of runs with any exit codes and an output with any character; on a terminal or not; PAGER absent, empty, blank, a command with options, one with unbalanced quotes, one that is not found, cannot be executed or is no program; LESS set or not; the pager, or the reader of the output, quitting at any of the first writes or at the end, or interrupted there or while the pager is waited for",
    stubs=STUBS, cron_stub=True, covers=["paged", "not paged", "stopped"],
)
def paging(ctx, kind):
    import os
    import sys

    import dsari.info

    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    seed(w, "runs", [dict(plain(i), exit_code=ctx.int("exit_{}".format(i), 0, 255)) for i in (0, 1)])
    c = char(ctx, "character", 0x80)
    text = mkstr([("c", "some\n")] + SymStr.pieces(c) + [("c", "output\n")])
    w.put(out_path("a", "run-0"), SymBytes(text) if isinstance(text, SymStr) else text.encode("utf-8"))
    whole = info(ctx, w, *COMMANDS[kind])
    tty = ctx.choice("terminal", [True, False])
    env = {k: os.environ.get(k) for k in ("PAGER", "LESS")}
    started = []
    if tty:
        pager = ctx.choice("PAGER", [None, "", " ", "more", "less -R 'a b'", "les's", "missing", "/etc", "text", "a/b"])
        less = ctx.choice("LESS", [None, "-X"])
        fails = {
            "missing": FileNotFoundError, "/etc": PermissionError, "text": OSError, "a/b": NotADirectoryError,
        }.get(pager)
    else:
        pager = less = fails = None

    def popen(cmd, *a, **k):
        if not cmd:
            raise IndexError("list index out of range")
        if fails:
            raise fails(8, "cannot be executed")
        e = k.get("env") or os.environ
        ctx.prove(k.get("shell", False) is False, "the pager is started as asked for")
        ctx.prove(list(cmd) == {None: ["pager"], "": ["pager"], " ": ["pager"], "more": ["more"], "less -R 'a b'": ["less", "-R", "a b"]}.get(pager, "?"), "the pager is started as asked for", repr(cmd))
        ctx.prove(less is None or e.get("LESS") == less, "options for less are left as they are")
        started.append(Reader(ctx, "pager"))
        return started[-1]

    out = Reader(ctx, "stdout")
    out.tty = tty
    if tty:
        out.gone = "never"
    old = sys.argv, sys.stdout, sys.stderr
    sys.argv = ["dsari-info", "--config-dir", ETC] + COMMANDS[kind]
    sys.stdout = sys.stderr = out
    w.popen = popen
    W.activate(w)
    try:
        for k, v in (("PAGER", pager), ("LESS", less)):
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        try:
            code = dsari.info.main()
        except SystemExit as e:
            code = e.code
        except (KeyboardInterrupt, BrokenPipeError) as e:
            code = type(e).__name__
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
        W.activate(w)
        w.popen = None
    ctx.prove(code in (None, 0), "a reader which stops reading is no failure", repr(code))
    ctx.prove(len(started) <= (1 if tty else 0), "one pager is started, on terminals only")
    sure = {None: True, "more": True, "": True, "less -R 'a b'": True}.get(pager, False)
    ctx.prove(not tty or not sure or len(started) == 1, "the pager is started on terminals")
    to = started[0] if started else out
    ctx.cover("paged" if started else "not paged")
    if started:
        ctx.prove(not out.parts, "what is paged is not printed as well")
        ctx.prove(to.closed and to.returncode == 0, "the pager is waited for")
    text = mkstr([p for x in to.parts for p in SymStr.pieces(x)])
    if to.gone in (None, "never") or to.n >= 100:
        ctx.prove(text == whole, "everything is printed", repr(text)[:200])
    else:
        ctx.cover("stopped")
        ctx.prove(joined(pieces(whole)[: len(pieces(text))]) == text, "up to its end the reader gets everything")


# -- C65 ---------------------------------------------------------------------------------


@harness(
    "C65",
    params={"plain": False, "IPython": True},
    bounds="a job of any of two names and group limit, with or without recorded runs of any exit code; with and without IPython",
    stubs=STUBS, cron_stub=True,
)
def shell(ctx, ipython):
    import code
    import sys
    import types

    import dsari

    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    n = ctx.choice("runs", [0, 1, 2])
    seed(w, "runs", [dict(plain(i), exit_code=ctx.int("exit_{}".format(i), 0, 255)) for i in range(n)])
    top = ctx.int("max", 1, 9)
    name = ctx.choice("job", ["a", "b c"])
    w.put(ETC + "/dsari.json", {"data_dir": DATA, "jobs": {name: {"command": ["x"], "concurrency_groups": ["g"]}}, "concurrency_groups": {"g": {"max": top}}}, fmt="json")
    given = []

    class Embed:
        def __init__(self, user_ns=None, **k):
            self.ns = user_ns

        def __call__(self, *a, **k):
            given.append(self.ns)

    fake = types.ModuleType("IPython.terminal.embed")
    fake.InteractiveShellEmbed = Embed
    mods = {"IPython": types.ModuleType("IPython") if ipython else None, "IPython.terminal": types.ModuleType("IPython.terminal") if ipython else None, "IPython.terminal.embed": fake if ipython else None}
    old = {m: sys.modules.get(m, 0) for m in mods}
    real = code.InteractiveConsole.interact, code.interact

    def interact(self, *a, **k):
        given.append(self.locals)

    try:
        sys.modules.update(mods)
        code.InteractiveConsole.interact = interact
        code.interact = lambda banner=None, readfunc=None, local=None, **k: given.append(local)
        text = info(ctx, w, "shell")
    finally:
        code.InteractiveConsole.interact, code.interact = real
        for m, v in old.items():
            if v == 0:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v
    ctx.prove(text is not None and len(given) == 1, "one shell is started")
    v = given[0] or {}
    for k in ("concurrency_groups", "config", "db", "dsari", "jobs"):
        ctx.prove(k in v, "the shell has the variables it says are available", k)
    ctx.prove(v["dsari"] is dsari, "the variables are what their names say")
    ctx.prove(isinstance(v["jobs"], dict) and isinstance(v["concurrency_groups"], dict), "the variables are what their names say", "dictionaries")
    ctx.prove(list(v["jobs"]) == [name] and v["jobs"][name].command == ["x"] and v["config"].jobs[name].name == name, "the variables are what their names say", "jobs")
    ctx.prove(v["concurrency_groups"]["g"].max == top, "the variables are what their names say", "groups")
    W.activate(w)
    ctx.prove(len(v["db"].get_runs()) == n, "the variables are what their names say", "db")
