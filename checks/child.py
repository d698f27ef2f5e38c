"""The started process: its environment (C15, C16) and its set-up (C17)."""
import os
import signal

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Iff, Ite, Not, Or, SDict, Sym, SymInt, SymReal, SymStr, us_of

from .sim import SEC, SIGNUM, STUBS, Sim

START = 1_700_000_000_250_000
DATA = "/vworld/data"


def setenv(ctx, **kw):
    """Variables of the daemon's own environment (None: not set)."""
    old = {k: os.environ.get(k) for k in kw}

    def undo():
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    ctx.cleanups.append(undo)
    for k, v in kw.items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v


# what a daemon's own environment typically holds
TYPICAL = dict(
    LC_ALL="C.UTF-8", LC_CTYPE="de_DE", LANG="de_DE.UTF-8", LANGUAGE="de", TZ="", SHELL="/bin/zsh", USER="op", USERNAME="op",
    TERM="xterm", EDITOR="vi", PAGER="less", DISPLAY=":0", PYTHONPATH="/nope", PYTHONHASHSEED="0", PYTHONUNBUFFERED="1",
    PYTHONIOENCODING="utf-8", VIRTUAL_ENV="/nope", LD_LIBRARY_PATH="/nope", LD_PRELOAD="", DSARI_HOME="/nope", DSARI_X="1",
    SSH_AUTH_SOCK="/nope", SSH_CONNECTION="x", TMPDIR="/nope", TEMP="/nope", HTTP_PROXY="http://nope", http_proxy="http://nope",
    https_proxy="x", NO_PROXY="x", MAIL="/nope", HOSTNAME="host", OLDPWD="/nope", SHLVL="2", _="/nope", INVOCATION_ID="x",
    JOURNAL_STREAM="8:1", NOTIFY_SOCKET="/nope", LISTEN_FDS="0", XDG_RUNTIME_DIR="/nope", DBUS_SESSION_BUS_ADDRESS="x",
    JOB_GROUP="nope", CONCURRENCY_GROUP="nope", PREVIOUS_RUN_ID="nope", BUILD_ID="nope", EXECUTOR_NUMBER="3", PS1="$", IFS=" ",
    JAVA_HOME="/nope", MANPATH="/nope", CDPATH="/nope", BASH_ENV="/nope", ENV="/nope", LESS="-R", CI_X="1",
)


class Launch:
    def __init__(self, file, args, env, run):
        self.file, self.args, self.env, self.run = file, args, env, run


def launch(ctx, s, job):
    """Run the daemon up to the exec of the first run of a job."""
    s.w.fork_mode = "child"
    s.start()
    try:
        s.loop(2)
    except W.ExecDone:
        pass
    ctx.prove(s.w.exec_record is not None, "a due run is executed")
    run = s.w.evs("fork")[-1].data["run"]
    ctx.prove(run is not None and run.job.name == job, "the run belongs to the due job")
    f, a, e = s.w.exec_record
    ctx.prove(e is not None, "the run gets an environment of its own")
    return Launch(f, a, e, run)


def num(ctx, v):
    """The number a variable shows."""
    if type(v) is SymStr and len(v.p) == 1:
        k, x = v.p[0]
        if k == "r":
            return SymReal(x)
        if k == "d":
            return SymInt(x)
    if isinstance(v, Sym):
        raise core.Unsupported("number in text {!r}".format(v))
    try:
        return float(v)
    except (TypeError, ValueError):
        ctx.prove(False, "times and exit codes are shown as numbers", repr(v))


def same_us(ctx, v, us):
    return ctx.eq_real(num(ctx, v) * 1.0, us / 1e6)


def automatic(s, run, now, **more):
    """The automatic variables of a plain triggered run, except the times."""
    j, r = run.job.name, run.id
    e = {
        "CI": "true", "DSARI": "true", "DATA_DIR": DATA, "JOB_NAME": j,
        "JOB_DIR": "{}/runs/{}".format(DATA, j), "RUN_ID": r,
        "RUN_DIR": "{}/runs/{}/{}".format(DATA, j, r), "TRIGGER_DIR": DATA + "/trigger",
    }
    if s.w.user is not None:
        e["LOGNAME"], e["HOME"] = s.w.user
    e.update(more)
    return e


# -- C15 ---------------------------------------------------------------------------------


@harness(
    "C15",
    max_seconds=400, params={"global-job": (0, 1, 1), "global-trigger": (0, 2, 0), "job-trigger": (1, 2, 2)},
    bounds="one variable at each of two levels (every pair of levels), names any 1-12 letters, digits and _ (so also equal to each other or to any automatic variable, except PWD), one value any text of up to 6 characters, the other any integer -1000..1000 (thorough: either for both)",
    stubs=STUBS, cron_stub=True, covers=["same name", "automatic name", "number"],
)
def precedence(ctx, levels):
    numeric, levels = levels[2], levels[:2]
    own = dict(TYPICAL)
    own.pop("TZ")  # (read by the replay's own clock)
    setenv(ctx, PATH="/some/bin:/other", VT_SECRET="x", MAILNAME="y", **own)
    s = Sim(ctx, {"jobs": {}}, start_us=START)
    names, values = [], []
    # a text and a number, as both must be accepted everywhere
    for i, lv in enumerate(levels):
        k = ctx.str("name_{}".format(i), maxlen=12, minlen=1, chars="A-Za-z_0-9")
        ctx.assume(k != "PWD")
        names.append(k)
        if core.TIER == "thorough":
            isnum = ctx.decide(ctx.bool("is_number_{}".format(i)))
        else:
            isnum = lv == numeric
        if isnum:
            ctx.cover("number")
            values.append(ctx.int("value_{}".format(i), -1000, 1000))
        else:
            values.append(ctx.str("value_{}".format(i), maxlen=6, chars="A-Za-z0-9 =$~%{}/:\\n\u00e9"))
    envs = {}
    for lv, k, v in zip(levels, names, values):
        envs[lv] = SDict([(k, v)])
    conf = {"jobs": {"a": {"command": ["x"]}}}
    if 0 in envs:
        conf["environment"] = envs[0]
    if 1 in envs:
        conf["jobs"]["a"]["environment"] = envs[1]
    trig = {"tag": 1}
    if 2 in envs:
        trig["environment"] = envs[2]
    conf["data_dir"] = DATA
    s.config = conf
    s.set_config(conf)
    s.trigger("a", trig)
    e = launch(ctx, s, "a")
    want = automatic(s, e.run, s.w.now, PATH="/some/bin:/other", TRIGGER_TYPE="file")
    want["PWD"] = want["RUN_DIR"]
    times = ["SCHEDULE_TIME", "START_TIME"]
    allowed = list(want) + times
    texts = [v if not isinstance(v, (int, SymInt)) else mktext(v) for v in values]
    # the variables the user set: the highest level wins
    for i in (1, 0):
        if i == 0 and ctx.decide(names[0] == names[1]):
            ctx.cover("same name")
            continue
        got = get(e.env, names[i])
        ctx.prove(got is not None, "every configured variable is in the run's environment")
        ctx.prove(isinstance(got, str), "every value is text")
        ctx.prove(got == texts[i], "the most specific level's value wins")
    # automatic ones which nobody overrides are there
    for k in allowed:
        o = Or(names[0] == k, names[1] == k)
        if ctx.decide(o):
            ctx.cover("automatic name")
            continue
        got = get(e.env, k)
        ctx.prove(got is not None, "every automatic variable is in the run's environment", k)
        if k in want:
            ctx.prove(got == want[k], "automatic variables have their values", k)
        else:
            ctx.prove(same_us(ctx, got, START), "automatic variables have their values", k)
    # and nothing else is
    for k in list(e.env.keys()):
        if isinstance(k, str) and not isinstance(k, Sym) and k in allowed:
            continue
        ctx.prove(
            Or(k == names[0], k == names[1], *[k == a for a in allowed]),
            "nothing else reaches the run's environment", repr(k),
        )


def mktext(v):
    from vt import rt

    return rt._str(v) if isinstance(v, Sym) else str(v)


def get(env, k):
    if isinstance(env, SDict) or not isinstance(k, Sym):
        return env.get(k)
    for kk in env:
        if core.CTX.decide(kk == k):
            return env[kk]
    return None


VALUES = [
    "", " ", " padded ", "$HOME/x", "${PATH}", "$", "~", "~/y", "%s", "%(x)s", "{}", "{0}", "a\tb", "two\nlines\n", "'q'", '"q"', "\\n", "\\", "a=b", "=", "#x", "1", "01", "1.0", "1e3",
    "true", "None", "null", "\u00e9\u20ac", "*", "a;b", "`id`", "$(id)", "x" * 5000,
]


@harness(
    "C15",
    params={"global": 0, "job": 1, "trigger": 2},
    bounds="a variable of any of 34 particular texts (blanks, quotes, references to variables, format directives, line ends, long ones) or any number, at one level (the first three also with 8 different names), together with another level's value for it or not",
    stubs=STUBS, cron_stub=True, covers={"global": ["overridden", "alone"], "job": ["overridden", "alone"], "trigger": ["alone"]},
)
def plain_values(ctx, level):
    own = dict(TYPICAL)
    own.pop("TZ")
    setenv(ctx, PATH="/some/bin:/other", **own)
    s = Sim(ctx, {"jobs": {}}, start_us=START)
    i = ctx.choice("value", list(range(len(VALUES) + 1)))
    k = ctx.choice("name", ["X", "x", "HOME", "Path", "JOB_NAME", "TZ", "A B", "\u00e9"]) if i < 3 else "X"
    v = ctx.int("number", -(10**6), 10**6) if i == len(VALUES) else VALUES[i]
    other = ctx.choice("other level", [None] + [x for x in range(3) if x != level]) if i in (0, 2, 3) else None
    envs = {level: {k: v, "OTHER": "kept"}}
    if other is not None:
        envs[other] = {k: "else", "MORE": "kept too"}
    conf = {"jobs": {"a": {"command": ["x"]}}, "data_dir": DATA}
    if 0 in envs:
        conf["environment"] = envs[0]
    if 1 in envs:
        conf["jobs"]["a"]["environment"] = envs[1]
    s.config = conf
    s.set_config(conf)
    s.trigger("a", dict({"tag": 1}, **({"environment": envs[2]} if 2 in envs else {})))
    e = launch(ctx, s, "a")
    got = get(e.env, k)
    ctx.prove(got is not None, "every configured variable is in the run's environment", k)
    if other is not None and other > level:
        ctx.cover("overridden")
        ctx.prove(got == "else", "the most specific level's value wins", k)
    else:
        ctx.cover("alone")
        ctx.prove(got == (v if isinstance(v, str) else mktext(v)), "the most specific level's value wins", k)
    ctx.prove(get(e.env, "OTHER") == "kept" and (other is None or get(e.env, "MORE") == "kept too"), "every configured variable is in the run's environment")
    auto = get(e.env, "JOB_NAME")
    ctx.prove(k == "JOB_NAME" or auto == "a", "automatic variables have their values")


# -- C16 ---------------------------------------------------------------------------------


@harness(
    "C16",
    bounds="one run, schedule time and start time any instants (schedule not after start) in any fixed local offset; all combinations of: PATH and user known or not, job in a job group or not, in a concurrency group or not, Jenkins variables on or off, trigger or schedule",
    stubs=STUBS, cron_stub=True, covers=["jenkins", "no user", "no path", "group", "scheduled"],
)
def standard(ctx):
    ctx.set_local_offset()
    jenkins, group, cgroup = (ctx.decide(ctx.bool(n)) for n in ("jenkins", "job_group", "conc_group"))
    user, path, cron = (ctx.decide(ctx.bool(n)) for n in ("known_user", "known_path", "cron"))
    own = dict(TYPICAL, LOGNAME="nope", HOME="/nope")
    own.pop("TZ")
    setenv(ctx, PATH="/some/bin:/other" if path else None, **own)
    job = {"command": ["x"]}
    if jenkins:
        job["jenkins_environment"] = True
    if cgroup:
        job["concurrency_groups"] = ["cg"]
    if cron:
        job["schedule"] = "1 2 3 4 5"
    conf = {"jobs": {"a": job}}
    if group:
        conf = {"job_groups": {"grp": dict(job, job_names=["a"])}}
    s = Sim(ctx, conf)
    if not user:
        s.w.user = None
        ctx.cover("no user")
    if cron:
        ctx.cover("scheduled")
        s.jump = 401 * 86400 * SEC
    else:
        s.trigger("a", {}, mtime=s.w.now - ctx.int("age", 0, 10**13))
    # starting the run takes time
    lag = ctx.int("lag", 0, 10) * SEC

    def forked(ev):
        if ev.kind == "fork":
            ev.data["now"] = s.w.now
            s.w.advance(lag)

    s.w.monitors.append(forked)
    e = launch(ctx, s, "a")
    env = e.env
    want = automatic(
        s, e.run, s.w.now, PATH="/some/bin:/other" if path else "/usr/bin:/bin",
        TRIGGER_TYPE="schedule" if cron else "file",
    )
    want["PWD"] = want["RUN_DIR"]
    rid = e.run.id
    if cgroup:
        want["CONCURRENCY_GROUP"] = "cg"
        ctx.cover("group")
    if group:
        want["JOB_GROUP"] = "grp"
    if not path:
        ctx.cover("no path")
    if jenkins:
        ctx.cover("jenkins")
        want.update(
            BUILD_ID=rid, BUILD_NUMBER=rid, BUILD_TAG="dsari-a-" + rid, EXECUTOR_NUMBER="0",
            NODE_NAME="master", WORKSPACE=want["RUN_DIR"],
            BUILD_URL="file://{}/".format(want["RUN_DIR"]), JENKINS_URL="file://{}/".format(DATA),
        )
    for k in want:
        ctx.prove(k in env, "every documented variable is present", k)
        ctx.prove(env[k] == want[k], "documented variables have their values", k)
    for k in env:
        ctx.prove(k in want or k in ("SCHEDULE_TIME", "START_TIME"), "variables appear only when they apply", k)
    if cron:
        st = us_of(e.run.schedule_time)
        ctx.prove(st <= s.w.evs("fork")[-1].data["now"], "schedule time is not after start time")
    else:
        st = s.w.fs_removed["a"] if hasattr(s.w, "fs_removed") else [
            x.data["node"].mtime for x in s.w.evs("remove")][0]
    ctx.prove("SCHEDULE_TIME" in env and "START_TIME" in env, "every documented variable is present")
    ctx.prove(same_us(ctx, env["SCHEDULE_TIME"], st), "SCHEDULE_TIME is the run's schedule time")
    recorded = s.w.table("runs_running")
    if recorded:
        ctx.prove(ctx.eq_real(num(ctx, env["START_TIME"]), recorded[0]["start_time"]), "START_TIME is the run's start time")
    else:
        ctx.prove(same_us(ctx, env["START_TIME"], us_of(e.run.start_time)), "START_TIME is the run's start time")


@harness(
    "C16",
    bounds="history of 3 finished runs (thorough 4), each of this or another job, with any start and stop times (milliseconds) and any exit code, plus one running run of the job",
    stubs=STUBS, cron_stub=True, covers=["good and bad", "none"],
)
def previous(ctx):
    ctx.set_local_offset()
    setenv(ctx, PATH="/bin")
    n = 4 if core.TIER == "thorough" else 3
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}, "a b": {"command": ["x"]}}}, start_us=START)
    rows = []
    for i in range(n):
        st, d1, d2 = (ctx.int("{}_{}".format(k, i), 0, 10**12) for k in ("sched", "wait", "took"))
        rows.append({
            "job_name": "a" if ctx.decide(ctx.bool("mine_{}".format(i))) else "a b",
            "run_id": "run-{}".format(i),
            "schedule_time": st / 1000, "start_time": (st + d1) / 1000, "stop_time": (st + d1 + d2) / 1000,
            "exit_code": ctx.int("exit_{}".format(i), 0, 255), "trigger_type": "schedule",
            "trigger_data": "{}", "run_data": "{}", "_ms": (st, st + d1, st + d1 + d2),
        })
    s.w.seed_table("runs", [{k: v for k, v in r.items() if k != "_ms"} for r in rows])
    s.w.seed_table("runs_running", [{
        "job_name": "a", "run_id": "stale", "schedule_time": 1.0, "start_time": 2.0,
        "trigger_type": "schedule", "trigger_data": "{}", "run_data": "{}"}])
    s.trigger("a", {})
    env = launch(ctx, s, "a").env
    mine = [r for r in rows if r["job_name"] == "a"]
    kinds = {
        "PREVIOUS": lambda r: True,
        "PREVIOUS_GOOD": lambda r: r["exit_code"] == 0,
        "PREVIOUS_BAD": lambda r: r["exit_code"] != 0,
    }
    parts = {"ID": "RUN_ID", "st": "SCHEDULE_TIME", "start": "START_TIME", "stop": "STOP_TIME", "x": "EXIT_CODE"}
    seen = 0
    for p, ok in kinds.items():
        names = {k: "{}_{}".format(p, v) for k, v in parts.items()}
        there = [k in env for k in names.values()]
        ctx.prove(all(there) or not any(there), "the variables of a previous run come together", p)
        if not all(there):
            for r in mine:
                ctx.prove(Not(ok(r)), "a previous run is described if there is one", p)
            continue
        seen += 1
        hit = [r for r in rows if r["run_id"] == env[names["ID"]]]
        ctx.prove(len(hit) == 1, "the previous run is a finished run", p)
        r = hit[0]
        ctx.prove(r["job_name"] == "a", "the previous run is one of the same job", p)
        ctx.prove(ok(r), "the previous run is of the right kind", p)
        for o in mine:
            ctx.prove(Or(Not(ok(o)), o["_ms"][2] <= r["_ms"][2]), "the previous run is the latest", p)
        for k, i in (("st", 0), ("start", 1), ("stop", 2)):
            ctx.prove(same_us(ctx, env[names[k]], r["_ms"][i] * 1000), "the previous run's times are shown", p)
        ctx.prove(num(ctx, env[names["x"]]) == r["exit_code"], "the previous run's exit code is shown", p)
    ctx.cover("good and bad" if seen == 3 else "none" if not seen else "some")


# -- C17 ---------------------------------------------------------------------------------


@harness(
    "C17",
    bounds="commands of 1 to 3 arguments, any texts of up to 6 characters, command_append_run on or off, PWD not set, set to an existing or a missing directory, a file or nothing at the job or trigger level; a run directory that exists already or not",
    stubs=STUBS, cron_stub=True, covers=["append", "pwd", "no pwd dir"],
)
def setup(ctx):
    PATH = "/usr/bin:/opt/x"
    setenv(ctx, PATH=PATH)
    n = ctx.choice("args", [1, 2, 3])
    cmd = [ctx.str("arg_{}".format(i), maxlen=6, minlen=1 if i == 0 else 0) for i in range(n)]
    append = ctx.decide(ctx.bool("append"))
    pwd = ctx.choice("pwd", ["none", "exists", "missing", "file", "empty"])
    level = ctx.choice("level", [1, 2]) if pwd != "none" else 1
    job = {"command": cmd}
    if append:
        job["command_append_run"] = True
        ctx.cover("append")
    trig = {}
    if pwd != "none":
        d = {"PWD": {"exists": "/vworld/elsewhere", "missing": "/vworld/nowhere", "file": "/vworld/file", "empty": ""}[pwd]}
        if level == 1:
            job["environment"] = d
        else:
            trig["environment"] = d
    s = Sim(ctx, {"jobs": {"a": job}}, start_us=START)
    w = s.w
    w.dirs.add("/vworld/elsewhere")
    w.put("/vworld/file", b"")
    s.trigger("a", trig)
    e = launch(ctx, s, "a")
    rd = "{}/runs/a/{}".format(DATA, e.run.id)
    # the command
    want = list(cmd) + (["a", e.run.id] if append else [])
    ctx.prove(e.file == cmd[0], "the configured program is executed")
    ctx.prove(len(e.args) == len(want), "the command line has exactly the configured arguments")
    for x, y in zip(e.args, want):
        ctx.prove(x == y, "the command line is executed unmodified")
    ctx.prove(w.exec_path or "/" in cmd[0], "the program is looked for in PATH")
    ctx.prove(get(e.env, "PATH") == PATH, "the run's PATH is used to find the program")
    # working directory
    cwd = "/vworld/elsewhere" if pwd == "exists" else rd
    ctx.prove(w.cwd == cwd, "the run starts in its directory")
    ctx.prove(get(e.env, "PWD") == cwd, "PWD names the working directory")
    ctx.cover({"exists": "pwd", "none": "default"}.get(pwd, "no pwd dir"))
    ctx.prove(rd in w.dirs, "the run directory exists")
    # process set-up: standard files, process group, signals
    out = [x for x in w.evs("open") if x.data["path"] == rd + "/output.txt"]
    null = [x for x in w.evs("open") if x.data["path"] == "/dev/null"]
    fds = {}
    for x in w.evs("dup2"):
        fds[x.data["args"][1]] = x.data["args"][0]
    # chains of duplicates
    def source(fd):
        seen = set()
        while fd in fds and fd not in seen:
            seen.add(fd)
            fd = fds[fd]
        return fd

    ctx.prove(any(source(1) == x.data["fd"] for x in out), "standard output goes to output.txt")
    ctx.prove(any(source(2) == x.data["fd"] for x in out), "standard error goes to output.txt")
    # one open file description: two would overwrite each other
    ctx.prove(source(1) == source(2) or all("a" in x.data["mode"] for x in out), "output and errors share one file")
    ctx.prove(any(source(0) == x.data["fd"] for x in null), "standard input is empty")
    ctx.prove(rd + "/output.txt" in w.fs, "output.txt is created")
    pg = w.evs("setpgid")
    ctx.prove(
        any(x.data["args"] in ((), (0, 0), (4242, 0), (4242, 4242), (0, 4242)) for x in pg),
        "the run is in its own process group",
    )
    for name in ("HUP", "INT", "TERM", "QUIT", "USR1"):
        h = w.child_sigs.get(SIGNUM[name], w.handlers.get(SIGNUM[name]))
        ctx.prove(h != signal.SIG_IGN, "no signal of the daemon's is ignored in the run")
    ctx.prove(
        w.child_sigs.get(int(signal.SIGPIPE), signal.SIG_IGN) == signal.SIG_DFL,
        "SIGPIPE has its default disposition in the run",
    )


@harness(
    "C17",
    bounds="a job's second (thorough: third) run, its first ones having been started and ended before, with any command of 2 arguments and a PWD, environment values and command_append_run or not",
    stubs=STUBS, cron_stub=True, covers=["append", "pwd"],
)
def again(ctx):
    setenv(ctx, PATH="/bin")
    cmd = [ctx.str("arg_{}".format(i), maxlen=6, minlen=1) for i in range(2)]
    append, pwd = (ctx.decide(ctx.bool(k)) for k in ("append", "pwd"))
    job = {"command": list(cmd), "environment": {"A": ctx.str("value", maxlen=4)}}
    if append:
        job["command_append_run"] = True
        ctx.cover("append")
    trig = {"environment": {"PWD": "/vworld/elsewhere", "B": "1"}} if pwd else {}
    s = Sim(ctx, {"jobs": {"a": job}}, start_us=START)
    w = s.w
    w.dirs.add("/vworld/elsewhere")
    s.jump = 700 * SEC
    s.after_sleep = True
    s.trigger("a", trig, mtime=START - 5 * SEC)
    s.start()
    s.exits = lambda live: (live[0], 0)
    last = 3 if core.TIER == "thorough" else 2

    def step(n):
        if len(w.evs("fork")) == last - 1:
            w.fork_mode = "child"
        s.trigger("a", {}, mtime=START - 5 * SEC)

    s.env_step = step
    try:
        s.loop(2 * last + 2)
    except W.ExecDone:
        pass
    ctx.prove(w.exec_record is not None and len(w.evs("fork")) == last, "a due run is executed")
    run = w.evs("fork")[-1].data["run"]
    f, args, env = w.exec_record
    want = list(cmd) + (["a", run.id] if append else [])
    ctx.prove(len(args) == len(want), "the command line has exactly the configured arguments")
    for x, y in zip(args, want):
        ctx.prove(x == y, "the command line is executed unmodified")
    rd = "{}/runs/a/{}".format(DATA, run.id)
    ctx.prove(w.cwd == rd and get(env, "PWD") == rd and get(env, "RUN_DIR") == rd, "the run starts in its own directory")
    ctx.prove(get(env, "A") == job["environment"]["A"], "the run has its own environment")
    ctx.prove(get(env, "B") is None, "the run has its own environment")
    ctx.cover("pwd" if pwd else "none")
