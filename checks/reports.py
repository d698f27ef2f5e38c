"""Metrics, reports and listings (C50-C60)."""
import signal

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Implies, Ite, Not, Or, SDict, Sym, SymBytes, SymInt, SymReal, SymStr, mkstr, us_of

from .child import DATA, mktext, num
from .db import MANY, START, crowd_of, row, seed
from .sim import SEC, STUBS

ETC = "/vworld/etc"
JOBS = ("a", "b")
WSGI = ["WSGI server: the environ and start_response of PEP 3333"]


def module(ctx):
    """The exporter's module, which builds an application when it is imported."""
    import sys

    import dsari.config

    if "dsari.prometheus_exporter" not in sys.modules:
        w = W.World(ctx, start_us=START)
        w.put(dsari.config.DEFAULT_CONFIG_DIR + "/dsari.json", {"data_dir": DATA}, fmt="json")
        import dsari.prometheus_exporter

        w.close()
    return sys.modules["dsari.prometheus_exporter"]


def config(w, jobs=JOBS, **more):
    c = {"data_dir": DATA, "jobs": {j: {"command": ["x"]} for j in jobs}}
    c.update(more)
    w.put(ETC + "/dsari.json", c, fmt="json")


class Exporter:
    def __init__(self, ctx, w, argv=(), quantiles=None, cache=None):
        m = module(ctx)
        W.activate(w)
        args = m.parse_args(["--config-dir", ETC] + list(argv))
        if quantiles is not None:
            args.quantiles = quantiles
        if cache is not None:
            args.job_cache_time = cache
        self.ctx, self.w = ctx, w
        self.app = m.PrometheusHandler(prom=m.Prometheus(args))

    def get(self, path="/metrics", **environ):
        got = []
        env = {"REQUEST_METHOD": "GET", "PATH_INFO": path, "SCRIPT_NAME": ""}
        env.update(environ)
        body = self.app(env, lambda status, headers, *a: got.append((status, headers)))
        self.ctx.prove(len(got) == 1, "a request is answered once")
        status, headers = got[0]
        parts = list(body)
        self.ctx.prove(len(parts) == 1, "the body is one piece")
        b = parts[0]
        self.ctx.prove(isinstance(b, bytes), "the body is bytes")
        self.text = b.s if type(b) is SymBytes else b.decode("utf-8")
        self.length = self.text.len() if isinstance(self.text, SymStr) else len(b)
        return status, dict(headers)

    def metrics(self):
        """{(name, job, run, quantile index): value}; quantiles are counted."""
        status, _ = self.get()
        self.ctx.prove(status.startswith("200"), "the metrics are served")
        return parse(self.ctx, self.text)


def pieces(text):
    """The text as characters and symbolic pieces."""
    out = []
    for k, v in SymStr.pieces(text):
        out += [("c", ch) for ch in v] if k == "c" else [(k, v)]
    return out


def lines(text):
    out, cur = [], []
    for p in pieces(text):
        if p == ("c", "\n"):
            out.append(cur)
            cur = []
        else:
            cur.append(p)
    return out, cur


def joined(ps):
    return mkstr([p for p in ps])


def parse(ctx, text, heads=None):
    def ok(c):
        if not c:
            ctx.prove(False, "the text is in the exposition format")

    out = {}
    ls, rest = lines(text)
    ok(not rest)
    last = None
    for ps in ls:
        ok(len(ps) > 0)
        if ps[0] == ("c", "#"):
            t = joined(ps)
            ok(isinstance(t, str) and not isinstance(t, Sym))
            f = t.split(" ", 3)
            ok(len(f) == 4 and f[1] in ("HELP", "TYPE"))
            if heads is not None:
                heads.append((f[1], f[2], f[3]))
            continue
        i = 0
        name = ""
        while i < len(ps) and ps[i][0] == "c" and ps[i][1] not in "{ ":
            name += ps[i][1]
            i += 1
        ok(i < len(ps) and ps[i][0] == "c" and name != "")
        labels = {}
        if ps[i][1] == "{":
            i += 1
            while True:
                k = ""
                while i < len(ps) and ps[i][0] == "c" and ps[i][1] != "=":
                    k += ps[i][1]
                    i += 1
                ok(i + 1 < len(ps) and ps[i + 1] == ("c", '"') and k not in labels)
                i += 2
                v = []
                while i < len(ps) and ps[i] != ("c", '"'):
                    v.append(ps[i])
                    i += 1
                ok(i + 1 < len(ps))
                labels[k] = joined(v)
                i += 1
                if ps[i] == ("c", "}"):
                    i += 1
                    break
                ok(ps[i] == ("c", ","))
                i += 1
        ok(i < len(ps) and ps[i] == ("c", " "))
        v = joined(ps[i + 1 :])
        ok(isinstance(v, Sym) or v != "")
        extra = tuple(sorted(k for k in labels if k not in ("job_name", "run_id", "quantile")))
        q = None
        if "quantile" in labels:
            q = 0
            while (name, labels.get("job_name"), labels.get("run_id"), q) in out:
                q += 1
        key = (name, labels.get("job_name"), labels.get("run_id"), q)
        if key in out:
            ctx.prove(False, "each value is listed once", repr(key))
        out[key] = (num(ctx, v), labels.get("quantile"))
        if heads is not None:
            heads.append(("VALUE", name, extra))
    return out


def close(ctx, a, b, tol=1e-5):
    d = a * 1.0 - b * 1.0
    return And(d <= tol, d >= -tol)


def history(ctx, n, names=("a", "b", "gone")):
    """n finished runs of any of the jobs."""
    return [row(ctx, i, ctx.choice("job_{}".format(i), list(names))) for i in range(n)]


# -- C50 ---------------------------------------------------------------------------------


def in_order(vs):
    from vt import rt

    return rt._sorted(vs)


GRID = (0, 0.01, 0.2, 0.25, 0.5, 0.75, 0.9, 0.99, 1)


def check_quantiles(ctx, m, what, vs, qs):
    vs = in_order(vs)
    n = len(vs)
    ctx.cover("one" if n == 1 else "several")
    name = "dsari_run_{}_seconds".format(what)
    got = []
    for i, q in enumerate(qs):
        ctx.prove((name, "a", None, i) in m, "every quantile is exported")
        v, ql = m[(name, "a", None, i)]
        ctx.prove(close(ctx, num(ctx, ql), q), "a quantile is labelled with itself")
        got.append(v)
        ctx.prove(And(v >= vs[0] - 1e-5, v <= vs[-1] + 1e-5), "a quantile is between the least and the greatest value")
        ctx.prove(Implies(q == 0, close(ctx, v, vs[0])), "quantile 0 is the least value")
        ctx.prove(Implies(q == 1, close(ctx, v, vs[-1])), "quantile 1 is the greatest value")
        pos = q * (n - 1)
        for j in range(n - 1):
            want = vs[j] + (vs[j + 1] - vs[j]) * (pos - j)
            ctx.prove(Implies(And(pos >= j, pos <= j + 1), close(ctx, v, want, 1e-4)), "a quantile is interpolated between its neighbours")
        if i:
            ctx.prove(Implies(qs[i - 1] <= q, got[i - 1] <= v + 1e-5), "quantiles are monotone")
            ctx.prove(Implies(qs[i - 1] >= q, got[i - 1] >= v - 1e-5), "quantiles are monotone")
    ctx.prove((name, "a", None, len(qs)) not in m, "every quantile is exported once")


def observed(rows, what):
    if what == "duration":
        return [r["stop_time"] - r["start_time"] for r in rows]
    return [r["start_time"] - r["schedule_time"] for r in rows]


@harness(
    "C50",
    bounds="1 to 3 finished runs (thorough 5) of any durations and latencies (milliseconds, up to 31 years) for the quantiles {}; another job's run beside them".format(GRID),
    stubs=STUBS + WSGI, cron_stub=True, covers=["one", "several"], max_seconds=400,
)
def any_values(ctx):
    w = W.World(ctx, start_us=START)
    config(w)
    e = Exporter(ctx, w, argv=["--quantiles", ",".join(str(q) for q in GRID)])
    n = ctx.choice("n", [1, 2, 3, 4, 5] if core.TIER == "thorough" else [1, 2, 3])
    rows = [row(ctx, i, "a") for i in range(n)]
    seed(w, "runs", rows[:1] + [row(ctx, "o", "b")] + rows[1:])
    m = e.metrics()
    for what in ("duration", "latency"):
        check_quantiles(ctx, m, what, observed(rows, what), GRID)


VALUES = [[5], [0, 0], [7, 2], [3, 0, 1000], [1, 1, 8], [9, 2, 4, 1], [0.001, 86400 * 400, 0, 3.25], [2, 1, 3, 5, 4], [4, 4, 4, 4, 4, 9]]


@harness(
    "C50",
    bounds="any two quantiles in [0, 1] of 5 lists of 1 to 3 values (thorough: {} lists of 1 to 6)".format(len(VALUES)),
    stubs=STUBS + WSGI, cron_stub=True, covers=["one", "several"], max_seconds=400,
)
def any_quantile(ctx):
    w = W.World(ctx, start_us=START)
    config(w)
    qs = [ctx.real("q{}".format(i), 0, 1) for i in range(2)]
    e = Exporter(ctx, w, quantiles=mktext(qs[0]) + "," + mktext(qs[1]))
    vs = ctx.choice("values", VALUES if core.TIER == "thorough" else VALUES[:5])
    rows = []
    for i, v in enumerate(vs):
        r = row(ctx, i, "a")
        r.update(schedule_time=1e9 + i, start_time=1e9 + i + v, stop_time=1e9 + i + v + vs[-1 - i])
        rows.append(r)
    seed(w, "runs", rows)
    m = e.metrics()
    for what in ("duration", "latency"):
        check_quantiles(ctx, m, what, observed(rows, what), qs)


# -- C51 ---------------------------------------------------------------------------------


@harness(
    "C51",
    bounds="3 finished runs (thorough 4) and 3 running ones of either of two configured jobs or one that is gone, any times (milliseconds) and exit codes 0-255, any local offset",
    stubs=STUBS + WSGI, cron_stub=True, covers=["no runs", "several runs"], max_seconds=400,
)
def agree(ctx):
    ctx.set_local_offset()
    w = W.World(ctx, start_us=START)
    config(w)
    e = Exporter(ctx, w)
    rows = history(ctx, 4 if core.TIER == "thorough" else 3)
    act = [row(ctx, "r{}".format(i), ctx.choice("job_r{}".format(i), ["a", "gone"]) if i == 0 else "ab"[i - 1], running=True) for i in range(3)]
    seed(w, "runs", rows)
    seed(w, "runs_running", act)
    m = e.metrics()

    def val(name, job, run=None):
        k = (name, job, run, None)
        ctx.prove(k in m, "every metric of a job is exported", name)
        return m[k][0]

    for j in JOBS:
        mine = [r for r in rows if r["job_name"] == j]
        n = len(mine)
        ctx.cover("no runs" if n == 0 else "one run" if n == 1 else "several runs")
        good = sum((Ite(r["exit_code"] == 0, 1, 0) for r in mine), 0)
        label = "the counters are the numbers of runs"
        ctx.prove(val("dsari_run_count", j) == n, label)
        ctx.prove(val("dsari_run_success_count", j) == good, label)
        ctx.prove(val("dsari_run_failure_count", j) == n - good, label)
        some = [k for k in m if k[1] == j and k[2] is None and not k[0].endswith(("run_count", "success_count", "failure_count"))]
        if n == 0:
            ctx.prove(not some, "a job without runs has no other metrics")
            continue
        for what, a, b in (("duration", "start_time", "stop_time"), ("latency", "schedule_time", "start_time")):
            base = "dsari_run_{}_seconds".format(what)
            ctx.prove(val(base + "_count", j) == n, "the summaries count the job's runs")
            total = sum((r[b] - r[a] for r in mine), 0.0)
            ctx.prove(close(ctx, val(base + "_sum", j), total), "the sums are those of the job's runs")
        label = "the last-run values are those of the run which stopped last"
        last = [val("dsari_last_run_" + x, j) for x in ("exit_code", "schedule_time", "start_time", "stop_time")]
        ctx.prove(And(*[r["stop_time"] - 1e-5 <= last[3] for r in mine]), label)
        ctx.prove(Or(*[And(r["exit_code"] == last[0], *[close(ctx, r[k], v) for k, v in zip(("schedule_time", "start_time", "stop_time"), last[1:])]) for r in mine]), label)
    for f in ("schedule_time", "start_time"):
        label = "the running metrics list the runs in progress"
        name = "dsari_running_run_" + f
        got = [k for k in m if k[0] == name]
        want = [r for r in act if r["job_name"] in JOBS]
        ctx.prove(len(got) == len(want), label)
        for r in want:
            ctx.prove(close(ctx, val(name, r["job_name"], r["run_id"]), r[f]), label)
    ctx.prove(not [k for k in m if k[1] not in JOBS + (None,)], "only configured jobs are exported")
    ctx.prove(close(ctx, val("dsari_time", None), w.now / 1e6, 1.0), "the time is the current one")


# -- C52 ---------------------------------------------------------------------------------


def plain(i, running=False):
    t = 1_699_000_000.0 + 10 * i
    r = {"job_name": "a", "run_id": "run-{}".format(i), "schedule_time": t, "start_time": t + 1}
    if not running:
        r.update(stop_time=t + 3, exit_code=i % 2)
    r.update(trigger_type="schedule", trigger_data="{}", run_data="{}")
    return r


def jobs_of(m):
    return sorted({k[1] for k in m if k[0] == "dsari_run_count"})


@harness(
    "C52",
    params={"reload": ["none", "reload", "same", "invalid"], "plain": ["none"]},
    bounds="3 requests (thorough 4) any times apart (up to 1000 s each), any cache time up to 1000 s (whole microseconds), a run finishing and another one starting any time before any request, a reload with other jobs, the same ones or an invalid configuration before one of them",
    stubs=STUBS + WSGI, cron_stub=True, covers={"reload": ["cached", "collected", "reloaded"], "plain": ["cached", "collected"]},
)
def cached(ctx, kinds):
    w = W.World(ctx, start_us=START)
    config(w, ["a"])
    cache = ctx.int("cache", 0, 1000 * SEC)
    listed = True
    if len(kinds) == 1:
        listed = ctx.choice("running", [True, False])
    e = Exporter(ctx, w, argv=["--quantiles", "0.5"] + ([] if listed else ["--no-running"]), cache=cache / SEC if ctx.sym else cache / 1e6)
    jobs = ["a"]
    n = running = 0
    until = {}  # number of finished runs -> the last moment of it
    since = w.now
    reloads = 0
    for i in range(4 if core.TIER == "thorough" else 3):
        w.advance(ctx.int("wait{}".format(i), 0, 1000 * SEC))
        if ctx.decide(ctx.bool("finished{}".format(i))):
            until[n] = w.now
            seed(w, "runs", [plain(i)])
            n += 1
        if ctx.decide(ctx.bool("started{}".format(i))):
            seed(w, "runs_running", [plain(i, running=True)])
            running += 1
        if i:
            w.advance(ctx.int("then{}".format(i), 0, 1000 * SEC))
        kind = ctx.choice("reload{}".format(i), kinds) if i and not reloads else "none"
        if kind != "none":
            ctx.cover("reloaded")
            reloads += 1
            if kind == "reload":
                jobs = ["a", "b"]
                config(w, jobs)
            else:
                if kind == "invalid":
                    w.put(ETC + "/dsari.json", {"jobs": {"a": {}}}, fmt="json")
            w.deliver(signal.SIGHUP)
            if kind != "invalid":
                since = w.now
        m = e.metrics()
        c = [k for k in range(n + 1) if ctx.decide(m[("dsari_run_count", "a", None, None)][0] == k)]
        ctx.prove(len(c) == 1, "the metrics of finished runs were collected")
        c = c[0]
        ctx.cover("collected" if c == n else "cached")
        if c != n:
            ctx.prove(until[c] >= w.now - cache, "metrics are not older than the cache time")
            ctx.prove(until[c] >= since, "metrics are collected anew after a reload")
        ctx.prove(jobs_of(m) == jobs, "the jobs of the current configuration are exported")
        act = len([k for k in m if k[0] == "dsari_running_run_start_time"])
        ctx.prove(act == (running if listed else 0), "running runs are never cached, and left out exactly when disabled")


@harness(
    "C52",
    bounds="SIGHUP with other jobs in the configuration before any one statement executed by the exporter during one of 2 requests 100 s apart, cached or not; one more request afterwards",
    stubs=STUBS + WSGI, cron_stub=True, yields=True, covers=["arrived"],
)
def reload_any_point(ctx):
    from vt import rt

    w = W.World(ctx, start_us=START)
    config(w, ["a"])
    e = Exporter(ctx, w, argv=["--quantiles", "0.5"], cache=ctx.choice("cache", [10, 1000]))
    st = {"n": 0, "at": None}
    at = ctx.int("at", 1, 500)

    def arrive(lineno, frame):
        st["n"] += 1
        if st["at"] is None and ctx.decide(at == st["n"]):
            st["at"] = st["n"]
            ctx.cover("arrived")
            config(w, ["a", "b"])
            w.deliver(signal.SIGHUP)

    seed(w, "runs", [plain(0)])
    rt.YIELD_HOOK = arrive
    try:
        for i in range(2):
            before = st["at"] is not None
            m = e.metrics()
            ctx.prove(jobs_of(m) in ((["a", "b"],) if before else (["a"], ["a", "b"])), "the jobs of the current configuration are exported")
            w.advance(100 * SEC)
    finally:
        rt.YIELD_HOOK = None
    m = e.metrics()
    ctx.prove(jobs_of(m) == (["a", "b"] if st["at"] is not None else ["a"]), "the jobs of the current configuration are exported")
    ctx.prove(("dsari_last_run_exit_code", "a", None, None) in m, "the metrics are complete")


# -- C53 ---------------------------------------------------------------------------------


@harness(
    "C53",
    params={p: p for p in ("/metrics", "/", "/a%b c")},
    bounds="any request path of up to 10 characters, several query strings (malformed ones included) or none, two requests; up to 2 finished and 1 running run",
    stubs=STUBS + WSGI, cron_stub=True, covers=["found", "not found"],
)
def paths(ctx, own):
    w = W.World(ctx, start_us=START)
    config(w)
    rows = [row(ctx, i, "a") for i in range(ctx.choice("n", [0, 2]))]
    e = Exporter(ctx, w, argv=["--metrics-path", own])
    seed(w, "runs", rows)
    if rows:
        seed(w, "runs_running", [row(ctx, "r", "b", running=True)])
    for i in range(2):
        path = ctx.str("path{}".format(i), maxlen=10)
        env = {}
        q = ctx.choice("query", [None, "", "x=1&y", "%ff=%00&&=;", "a" * 70 + "="]) if i == 0 else None
        if q is not None:
            env["QUERY_STRING"] = q
        status, headers = e.get(path, **env)
        label = "exactly the configured path has the metrics"
        if ctx.decide(path == own):
            ctx.cover("found")
            ctx.prove(status.startswith("200"), label)
            ctx.prove(headers.get("Content-Type", "").startswith("text/plain"), "the content type is text")
            well_formed(ctx, e.text)
        else:
            ctx.cover("not found")
            ctx.prove(status.startswith("404"), label)
        n = headers.get("Content-Length")
        ctx.prove(n is not None, "the length is given")
        ctx.prove(num(ctx, n) == e.length, "the length is the number of bytes")


def well_formed(ctx, text):
    heads = []
    parse(ctx, text, heads)
    seen = {}
    label = "HELP and TYPE come once, before a metric's values"
    for kind, name, more in heads:
        ctx.prove((kind, name) not in seen or kind == "VALUE", label)
        if kind != "VALUE":
            ctx.prove(("VALUE", name) not in seen, label)
        if kind == "TYPE":
            ctx.prove(more in ("counter", "gauge", "summary", "untyped", "histogram"), label)
        seen[(kind, name)] = True
    ctx.prove(any(k[0] == "VALUE" for k in seen), "there are metrics")


@harness(
    ["C51", "C50"],
    bounds="300 finished runs of one job and 30 running ones, one finished run with any exit code and any duration up to 10 minutes; quantiles 0, 0.5 and 1",
    stubs=STUBS + WSGI, cron_stub=True, covers=["failed", "successful"],
)
def many_runs(ctx):
    w = W.World(ctx, start_us=START)
    config(w)
    e = Exporter(ctx, w, argv=["--quantiles", "0,0.5,1"])
    rows = crowd_of(ctx, MANY)
    code, took = ctx.int("exit", 0, 255), ctx.int("took", 0, 600)
    rows[7].update(exit_code=code, stop_time=rows[7]["start_time"] + took)
    act = [{k: v for k, v in dict(r, run_id="act" + r["run_id"]).items() if k not in ("stop_time", "exit_code")} for r in rows[:30]]
    seed(w, "runs", rows)
    seed(w, "runs_running", act)
    m = e.metrics()
    bad = ctx.decide(code != 0)
    ctx.cover("failed" if bad else "successful")
    label = "the counters are the numbers of runs"
    for k, n in (("run_count", MANY), ("run_success_count", MANY - bad), ("run_failure_count", int(bad))):
        ctx.prove(m[("dsari_" + k, "a", None, None)][0] == n, label)
    ctx.prove(close(ctx, m[("dsari_run_duration_seconds_sum", "a", None, None)][0], 2 * (MANY - 1) + took), "the sums are those of the job's runs")
    ctx.prove(m[("dsari_run_duration_seconds_count", "a", None, None)][0] == MANY, "the summaries count the job's runs")
    q = [m[("dsari_run_duration_seconds", "a", None, i)][0] for i in range(3)]
    for got, want in zip(q, (Ite(took < 2, took, 2), 2, Ite(took > 2, took, 2))):
        ctx.prove(close(ctx, got, want), "a quantile is interpolated between its neighbours")
    running = [k for k in m if k[0] == "dsari_running_run_start_time"]
    ctx.prove(sorted(k[2] for k in running) == sorted(r["run_id"] for r in act), "the running metrics list the runs in progress")
