BUGS = {}

OPEN = '''
def opened(d):
    import dsari.config, dsari.database
    c = dsari.config.get_config(d.etc)
    return c, dsari.database.get_database(c)


def finished(c, db, job, rid, start, stop, code=0, schedule=None):
    import dsari
    from dsari.utils import dtlocalize, epoch_to_dt
    at = lambda e: dtlocalize(epoch_to_dt(e))
    r = dsari.Run(c.jobs[job], id=rid)
    r.schedule_time, r.start_time, r.stop_time = at(start if schedule is None else schedule), at(start), at(stop)
    r.exit_code, r.trigger_type = code, "file"
    db.insert_run(r)


'''

BUGS["c01-two-groups"] = dict(
    prop="C01", file="dsari/daemon.py",
    edits=[("            job_concurrency_groups = copy.copy(job.concurrency_groups)\n", "            job_concurrency_groups = copy.copy(job.concurrency_groups[:2])\n")],
    needs="a job in three or more concurrency groups of which only a later one has room",
    breaks="the job is held back although one of its groups has room",
    demo='''
jobs = {n: {"command": ["sleep", "5"], "concurrency_groups": [n]} for n in "gh"}
jobs["x"] = {"command": ["true"], "concurrency_groups": ["g", "h", "i"]}
with Daemon({"jobs": jobs}) as d:
    d.trigger("g")
    d.trigger("h")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "two groups are full")
    d.trigger("x")
    check(d.wait(lambda: len(d.rows()) >= 1, 4) and d.rows()[0]["job_name"] == "x", "the third group has room")
    d.wait(lambda: len(d.rows()) == 3)
''')

BUGS["c02-only-recurring"] = dict(
    prop="C02", file="dsari/daemon.py",
    edits=[("        if (not job.concurrent_runs) and (job in [x.job for x in self.running_runs]):\n", "        if (not job.concurrent_runs) and (\n            job in [x.job for x in self.running_runs if x.respawn]\n        ):\n")],
    needs="another trigger for a job of which a triggered run is in progress",
    breaks="two runs of the job overlap",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sleep", "3"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "running")
    d.trigger("a")
    check(not d.wait(lambda: len(d.rows("runs_running")) == 2, 2), "only one at a time")
    d.wait(lambda: len(d.rows()) >= 1)
''')

BUGS["c03-long-backoff"] = dict(
    prop="C03", file="dsari/daemon.py",
    edits=[("    elif r > max:\n        return seconds_to_td(max)\n", "    elif r > max * 2:\n        return seconds_to_td(max)\n")],
    needs="a run which has been blocked for more than an hour",
    breaks="the time until it is tried again exceeds 5 minutes",
    demo='''
import dsari.daemon
from dsari.utils import dtnow, seconds_to_td
now = dtnow()
for h in (1, 2, 3, 24):
    check(dsari.daemon.backoff(now - seconds_to_td(3600 * h), now) <= seconds_to_td(300), "at most 5 minutes")
''')

BUGS["c06-number-names"] = dict(
    prop="C06", file="dsari/daemon.py",
    edits=[("            except (KeyError, ValueError) as e:\n                self.logger.error(\n                    \"[{}] Cannot load trigger: {}\".format(job.name, str(e))\n", "            except ValueError as e:\n                self.logger.error(\n                    \"[{}] Cannot load trigger: {}\".format(job.name, str(e))\n")],
    needs="a YAML trigger whose environment has a number as a name",
    breaks="the daemon ends",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    t = os.path.join(d.data, "trigger", "a")
    os.makedirs(t)
    open(t + "/new", "w").write("environment:\\n  5: x\\n")
    os.rename(t + "/new", t + "/trigger.yaml")
    d.poke()
    d.wait(lambda: not os.path.exists(t + "/trigger.yaml"), 5)
    time.sleep(0.5)
    check(d.p.poll() is None, "the daemon goes on")
''')

BUGS["c14-slow-look"] = dict(
    prop="C14", file="dsari/daemon.py",
    edits=[("                    else:\n                        time.sleep(1)\n", "                    else:\n                        time.sleep(max(1, td_to_seconds(self.next_wakeup - now) / 8))\n")],
    needs="SIGUSR1 while the daemon is idle for long",
    breaks="the daemon takes many seconds to look",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    time.sleep(0.6)
    d.trigger("a")
    check(d.wait(lambda: len(d.rows()) == 1, 3.5), "looked within about a second")
''')

BUGS["c18-yaml-first"] = dict(
    prop="C18", file="dsari/daemon.py",
    edits=[('        for fn, fn_type in [("return_data.json", "json"), ("return_data.yaml", "yaml")]:\n', '        for fn, fn_type in [("return_data.yaml", "yaml"), ("return_data.json", "json")]:\n')],
    needs="a run which leaves return data in both forms",
    breaks="the YAML file is taken instead of the JSON one",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "echo 1 >return_data.json; echo 2 >return_data.yaml"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "finished")
    check(json.loads(d.rows()[0]["run_data"]) == {"return_data": 1}, "JSON is taken first")
''')

BUGS["c32-true-is-one"] = dict(
    prop="C32", file="dsari/config.py",
    edits=[("            if type(v) not in valid_values[k]:\n", "            if not isinstance(v, valid_values[k]):\n")],
    needs="true or false given for an option which is a number",
    breaks="it is accepted as 1 or 0",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "max_execution": True}}}) as d:
    import dsari.config
    try:
        dsari.config.get_config(d.etc)
        ok = False
    except dsari.config.ConfigError:
        ok = True
    check(ok, "refused")
''')

BUGS["c34-unknown-alias"] = dict(
    prop="C34", file="dsari/config.py",
    edits=[("        if job.schedule is not None:\n", "        if job.schedule is not None and not job.schedule.startswith(\"@\"):\n")],
    needs="a schedule which begins with @ but is no known alias",
    breaks="it is accepted although it can never be evaluated",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "schedule": "@often"}}}) as d:
    import dsari.config
    try:
        dsari.config.get_config(d.etc)
        ok = False
    except dsari.config.ConfigError:
        ok = True
    check(ok, "refused")
''')

BUGS["c40-small-random"] = dict(
    prop="C40", file="dsari/croniter_hash.py",
    edits=[("            crc = random.randint(0, 0xFFFFFFFF)\n", "            crc = random.randint(0, 59)\n")],
    needs="R in the month, day of the month or seconds field",
    breaks="some values of the field's range are never taken",
    demo='''
import dsari.croniter_hash as h
c = h.croniter_hash("* * * * *", hash_id="x")
got = set(int(c._hash_expand("* * * * * R", "x").split()[5]) for i in range(3000))
check(len(got) > 30, "every second is possible: {}".format(sorted(got)))
''')

BUGS["c50-unsorted"] = dict(
    prop="C50", file="dsari/prometheus_exporter.py",
    edits=[("""                            percentile(
                                sorted(
                                    [
                                        (
                                            run.start_time - run.schedule_time
                                        ).total_seconds()
                                        for run in runs
                                    ]
                                ),
                                quantile,
""", """                            percentile(
                                list(
                                    [
                                        (
                                            run.start_time - run.schedule_time
                                        ).total_seconds()
                                        for run in runs
                                    ]
                                ),
                                quantile,
""")],
    needs="recorded runs whose latencies do not grow from run to run",
    breaks="the latency quantiles are those of the unsorted values",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    for i, lat in enumerate((5, 1, 3)):
        finished(c, db, "a", "run%d" % i, 1000 + i * 100, 1001 + i * 100, schedule=1000 + i * 100 - lat)
    import subprocess
    out = subprocess.check_output([sys.executable, "-m", "dsari.prometheus_exporter", "-c", d.etc, "--dump", "--quantiles", "0,1"], cwd=REPO).decode()
    v = [float(l.split()[1]) for l in out.split("\\n") if l.startswith("dsari_run_latency_seconds{")]
    check(v == [1, 5], "minimum and maximum: {}".format(v))
''')

BUGS["c51-last-started"] = dict(
    prop="C51", file="dsari/prometheus_exporter.py",
    edits=[("                last_run = sorted(runs, key=lambda run: run.stop_time)[-1]\n", "                last_run = sorted(runs, key=lambda run: run.start_time)[-1]\n")],
    needs="overlapping runs of a job with concurrent_runs, the one started first ending last",
    breaks="the last-run metrics are not those of the run which ended last",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"], "concurrent_runs": True}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000, 3)
    finished(c, db, "a", "r2", 1100, 1200, 4)
    import subprocess
    out = subprocess.check_output([sys.executable, "-m", "dsari.prometheus_exporter", "-c", d.etc, "--dump"], cwd=REPO).decode()
    v = [l.split()[1] for l in out.split("\\n") if l.startswith("dsari_last_run_exit_code{")]
    check(v == ["3"], "the last run: {}".format(v))
''')

BUGS["c52-kept-cache"] = dict(
    prop="C52", file="dsari/prometheus_exporter.py",
    edits=[("        self.job_cache = None\n        self.job_cache_time = None\n", "        self.job_cache = getattr(self, \"job_cache\", None)\n        self.job_cache_time = getattr(self, \"job_cache_time\", None)\n")],
    needs="a reload while metrics are cached",
    breaks="the metrics of the jobs of the old configuration are served on",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.prometheus_exporter as e
    p = e.Prometheus(e.parse_args(["-c", d.etc]))
    check('job_name="a"' in p.get_metrics(), "a")
    d.config({"jobs": {"b": {"command": ["true"]}}})
    p.reload_requested = True
    t = p.get_metrics()
    check('job_name="b"' in t and 'job_name="a"' not in t, "the new jobs")
''')

BUGS["c53-slash"] = dict(
    prop="C53", file="dsari/prometheus_exporter.py",
    edits=[('        if self.environ["PATH_INFO"] != self.prom.args.metrics_path:\n', '        if self.environ["PATH_INFO"].rstrip("/") != self.prom.args.metrics_path:\n')],
    needs="a configured path which is / or a request with a slash at its end",
    breaks="other paths are answered with the metrics, and / never is",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.prometheus_exporter as e
    h = e.PrometheusHandler(e.Prometheus(e.parse_args(["-c", d.etc])))
    got = []
    for p in ("/metrics", "/metrics/", "/"):
        h({"PATH_INFO": p}, lambda s, hs: got.append(s[:3]))
    check(got == ["200", "404", "404"], "statuses {}".format(got))
''')

BUGS["c57-grace-days"] = dict(
    prop="C57", file="dsari/info.py",
    edits=[("                    config[attr] = td_to_seconds(config[attr])\n", "                    config[attr] = config[attr].seconds\n")],
    needs="a shutdown_kill_grace of more than a day or with a fraction",
    breaks="the dumped value differs from the configured one",
    demo='''
import subprocess
with Daemon({"shutdown_kill_grace": 90000.5, "jobs": {}}) as d:
    out = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "config", "dump"], cwd=REPO)
    check(json.loads(out)["shutdown_kill_grace"] == 90000.5, "the same value")
''')

BUGS["c58-failed-by-start"] = dict(
    prop="C58", file="dsari/render.py",
    edits=[("""                    [run for run in self.runs if run.exit_code > 0],
                    key=lambda run: run.stop_time,
""", """                    [run for run in self.runs if run.exit_code > 0],
                    key=lambda run: run.start_time,
""")],
    needs="failed runs which overlap, the one started first ending last",
    breaks="the failed runs on the index are not in the order of the other lists",
    demo=OPEN + '''
import subprocess, re
with Daemon({"jobs": {n: {"command": ["true"]} for n in "ab"}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "run-first", 1000, 2000, 3)
    finished(c, db, "b", "run-short", 1100, 1200, 4)
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t = open(d.data + "/html/index.html").read()
    ids = re.findall("run-(?:first|short)", t)
    order = [i for n, i in enumerate(ids) if n == 0 or ids[n - 1] != i]
    check(order.count("run-short") == 1 or order == ["run-first", "run-short"] * 2, "one order for all lists: {}".format(order))
''')

BUGS["c59-page-folder"] = dict(
    prop="C59", file="dsari/render.py",
    edits=[("        if os.path.isfile(run_html_filename):\n            if not self.args.regenerate:\n", "        if os.path.isdir(os.path.dirname(run_html_filename)):\n            if not self.args.regenerate:\n")],
    needs="rendering which is interrupted after the folder of a run's page was made",
    breaks="the page is never written",
    demo=OPEN + '''
import subprocess
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000)
    os.makedirs(d.data + "/html/a/r1")
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check(os.path.exists(d.data + "/html/a/r1/index.html"), "the page is written")
''')

BUGS["c60-by-schedule"] = dict(
    prop="C60", file="dsari/info.py",
    edits=[("                for run in sorted(runs, key=lambda run: run.start_time):\n", "                for run in sorted(runs, key=lambda run: run.schedule_time):\n")],
    needs="a tabular listing of runs which did not start in the order of their scheduled times",
    breaks="the runs are not in start order",
    demo=OPEN + '''
import subprocess
with Daemon({"jobs": {n: {"command": ["true"]} for n in "ab"}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000, schedule=10)
    finished(c, db, "b", "r2", 900, 950, schedule=800)
    out = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "run", "list", "--format", "tabular"], cwd=REPO).decode()
    check([l.split("\\t")[0] for l in out.strip().split("\\n")] == ["r2", "r1"], "start order")
''')

BUGS["c08-late-running"] = dict(
    prop="C08", file="dsari/daemon.py",
    edits=[("        self.db.insert_running_run(run)\n\n        child_pid = os.fork()\n", "        child_pid = os.fork()\n"),
           ("        run.pid = child_pid\n        self.logger.info(\n", "        run.pid = child_pid\n        self.db.insert_running_run(run)\n        self.logger.info(\n")],
    needs="a look at the running list (or the daemon's end) between the process's start and its listing",
    breaks="a process can exist without being listed as running",
    demo='''
import dsari, dsari.daemon, logging, os
from dsari.utils import dtnow, seconds_to_td
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.config, dsari.database
    s = dsari.daemon.Scheduler.__new__(dsari.daemon.Scheduler)
    s.logger = logging.getLogger()
    s.config = dsari.config.get_config(d.etc)
    s.db = dsari.database.get_database(s.config)
    r = dsari.Run(s.config.jobs["a"])
    r.schedule_time, r.trigger_type = dtnow() - seconds_to_td(1), "file"
    s.scheduled_runs, s.running_runs, s.running_groups, s.wakeups, s.pending_signals = [r], [], {}, [], []
    seen = []
    def fork():
        seen.append(len(d.rows("runs_running")))
        return 99999999
    dsari.daemon.os = type("O", (), dict(vars(os), fork=staticmethod(fork)))
    s.process_scheduled_run(r)
    check(seen == [1], "listed before the process exists")
''')

BUGS["c13-status-group"] = dict(
    prop="C13", file="dsari/daemon.py",
    edits=[("                        len(self.running_groups[concurrency_group]),\n", "                        sorted(self.running_groups[concurrency_group]).index(run) + 1,\n"),
           ("                    self.running_groups[concurrency_group].append(run)\n                else:\n", "                    self.running_groups[concurrency_group].insert(0, run.id)\n                else:\n")],
    needs="SIGQUIT after a reload while runs are in progress in a concurrency group",
    breaks="the daemon fails",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sleep", "4"], "concurrency_groups": ["g"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "running")
    d.poke(signal.SIGHUP)
    d.wait(lambda: "reloading" in d.text())
    d.poke(signal.SIGQUIT)
    time.sleep(1.5)
    ok = d.p.poll() is None
    d.wait(lambda: len(d.rows()) == 1, 6)
    check(ok, "the daemon goes on")
''')
