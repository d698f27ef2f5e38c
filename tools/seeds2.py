BUGS = {}

BUGS["b07-float-time"] = dict(
    prop="C07", file="dsari/daemon.py",
    edits=[("""            if type(j["schedule_time"]) in (int, float):
""", """            if type(j["schedule_time"]) == int:
""")],
    needs="a trigger whose schedule_time is a number with a fraction of a second",
    breaks="the trigger is refused",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    t = int(time.time()) - 100 + 0.375
    d.trigger("a", {"schedule_time": t})
    d.start()
    d.wait(lambda: len(d.rows()) == 1, 5)
    check(len(d.rows()) == 1 and abs(d.rows()[0]["schedule_time"] - t) < 0.001, "the requested time is kept")
'''
)

BUGS["b08-shared-run-data"] = dict(
    prop="C18", file="dsari/__init__.py",
    edits=[("""class Run(object):
    def __init__(self, job, id=None):
""", """class Run(object):
    run_data = {}

    def __init__(self, job, id=None):
"""), ("""        self.run_data = {}
        self.respawn = False
""", """        self.respawn = False
""")],
    needs="a run which leaves return data, then another one which does not, under the same daemon",
    breaks="the return data of a run is recorded for the runs after it, too",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "echo 5 >return_data.json"]}, "b": {"command": ["true"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "first run")
    d.trigger("b")
    check(d.wait(lambda: len(d.rows()) == 2), "second run")
    r = d.rows(where="job_name='b'")[0]
    check(json.loads(r["run_data"]) == {}, "a run has its own data only: " + r["run_data"])
''')

BUGS["b09-high-codes"] = dict(
    prop="C09", file="dsari/daemon.py",
    edits=[("            child_exit = child_exit >> 8\n", "            child_exit = (child_exit >> 8) & 0x7F\n")],
    needs="a command exiting with a status of 128 or more",
    breaks="exit codes from 128 to 255 are recorded as 0 to 127, failures possibly as success",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "exit 128"]}}}) as d:
    d.trigger("a")
    d.start()
    d.wait(lambda: len(d.rows()) == 1)
    check(d.rows()[0]["exit_code"] == 128, "the exit status is recorded: {}".format(d.rows()[0]["exit_code"]))
''')

BUGS["b12-stale-job"] = dict(
    prop="C12", file="dsari/daemon.py",
    edits=[("""            if run.job.name in self.config.jobs:
                run.job = self.config.jobs[run.job.name]
""", """            if run.job.name in self.config.jobs:
                if run.concurrency_group:
                    run.job = self.config.jobs[run.job.name]
""")],
    needs="a reload which changes the execution limit of a job while a run of it outside any concurrency group is in progress",
    breaks="the running run keeps its old job, so the new limit is not applied to it",
    demo='''
job = {"command": ["sleep", "60"], "max_execution_grace": 1}
with Daemon({"jobs": {"a": job}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "running")
    d.config({"jobs": {"a": dict(job, max_execution=1)}})
    time.sleep(0.3)
    d.poke(signal.SIGHUP)
    d.wait(lambda: len(d.rows()) == 1, 15)
    if not d.rows():
        import subprocess
        subprocess.run(["pkill", "-P", str(d.p.pid)])
        time.sleep(1)
        check(False, "the new limit applies to the running run")
    check(d.rows()[0]["exit_code"] == 143, "the new limit applies to the running run")
''')

BUGS["b14-no-retry-wakeup"] = dict(
    prop="C14", file="dsari/daemon.py",
    edits=[("                self.wakeups.append(now + backoff_time)\n", "                if run.respawn:\n                    self.wakeups.append(now + backoff_time)\n")],
    needs="a triggered run which is due while all its concurrency groups are full",
    breaks="the daemon sleeps past the time the run is to be tried again",
    demo='''
import datetime
import dsari, dsari.daemon
from dsari.utils import dtnow, seconds_to_td

s = dsari.daemon.Scheduler.__new__(dsari.daemon.Scheduler)
import logging
s.logger = logging.getLogger()
j = dsari.Job("a"); j.command = ["true"]
g = dsari.ConcurrencyGroup("g"); j.concurrency_groups = [g]
s.running_runs, s.running_groups, s.wakeups, s.pending_signals = [], {g: [dsari.Run(dsari.Job("b"))]}, [], []
r = dsari.Run(j)
r.schedule_time = dtnow() - seconds_to_td(1)
r.trigger_type = "file"
s.scheduled_runs = [r]
s.process_scheduled_run(r)
s.process_wakeups()
check(s.next_wakeup <= dtnow() + seconds_to_td(6), "tried again within the backoff time")
''')

BUGS["b16-good-from-last"] = dict(
    prop="C16", file="dsari/daemon.py",
    edits=[("                dt_to_epoch(run.previous_good_run.stop_time)\n", "                dt_to_epoch(run.previous_run.stop_time)\n")],
    needs="a job whose last run failed after an earlier good one",
    breaks="PREVIOUS_GOOD_STOP_TIME is the stop time of the failed run",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", 'echo "$PREVIOUS_GOOD_STOP_TIME"; exit $CODE']}}}) as d:
    d.start()
    for i, c in enumerate("012"):
        d.trigger("a", {"environment": {"CODE": c}})
        check(d.wait(lambda: len(d.rows()) == i + 1), "run")
    rows = sorted(d.rows(), key=lambda r: r["stop_time"])
    out = open(d.data + "/runs/a/" + rows[-1]["run_id"] + "/output.txt").read()
    check(abs(float(out) - rows[0]["stop_time"]) < 0.001, "the stop time of the last good run")
''')

BUGS["b17-pwd-anything"] = dict(
    prop="C17", file="dsari/daemon.py",
    edits=[("""        if ("PWD" in environ) and os.path.isdir(environ["PWD"]):
""", """        if ("PWD" in environ) and os.path.exists(environ["PWD"]):
""")],
    needs="a PWD in a job's environment which is a file",
    breaks="the run cannot change to it and ends without executing its command",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "pwd"], "environment": {"PWD": "/etc/passwd"}}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) >= 1), "recorded")
    r = d.rows()[0]
    out = open(d.data + "/runs/a/" + r["run_id"] + "/output.txt").read()
    check(r["exit_code"] == 0 and out.strip().endswith(r["run_id"]), "the command is run in the run's directory: " + out[-80:])
''')

BUGS["b21-zero-times"] = dict(
    prop="C21", file="dsari/database.py",
    edits=[("            if type(f[k]) == dict:\n                setattr(run, k, f[k])\n", "            if type(f[k]) == dict or len(f[k]) > 65535:\n                setattr(run, k, f[k] if type(f[k]) == dict else {})\n")],
    needs="a run with more than 64 kB of trigger data or return data",
    breaks="large data is read back as empty",
    demo='''
import sqlite3
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.config, dsari.database, dsari
    from dsari.utils import dtnow
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    r = dsari.Run(c.jobs["a"])
    r.schedule_time = r.start_time = r.stop_time = dtnow()
    r.exit_code, r.trigger_type, r.trigger_data = 0, "file", {"environment": {"X": "y" * 70000}}
    db.insert_run(r)
    check(db.get_runs()[0].trigger_data == r.trigger_data, "data is read back")
''')

BUGS["b23-empty-filter"] = dict(
    prop="C23", file="dsari/database.py",
    edits=[("""        if run_ids is not None:
            where = "run_id"
            where_in = run_ids
        elif job_names is not None:
            where = "job_name"
            where_in = job_names
        else:
            where = None
            where_in = []
        if runs_running:
            table_name""", """        if run_ids is not None:
            where = "run_id"
            where_in = run_ids
        elif job_names:
            where = "job_name"
            where_in = job_names
        else:
            where = None
            where_in = []
        if runs_running:
            table_name""")],
    needs="a query for the runs of no jobs at all, as rendering does if no job has reports",
    breaks="all runs are selected instead of none",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.config, dsari.database, dsari
    from dsari.utils import dtnow
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    r = dsari.Run(c.jobs["a"])
    r.schedule_time = r.start_time = r.stop_time = dtnow()
    r.exit_code, r.trigger_type = 0, "file"
    db.insert_run(r)
    check(db.get_runs(job_names=[]) == [], "no jobs, no runs")
''')

BUGS["b30-unicode-names"] = dict(
    prop="C30", file="dsari/config.py",
    edits=[("        if len(job_name) > 64:\n", "        if len(job_name.strip()) > 64:\n")],
    needs="a name longer than 64 characters, of which the last ones are spaces",
    breaks="a name which is too long is accepted",
    demo='''
import dsari.config
l = dsari.config.ConfigLoader(None)
check(not l.is_valid_name("a" * 64 + " "), "65 characters are too many")
check(l.is_valid_name("a" * 63 + " "), "64 are not")
''')

BUGS["b31-json-first"] = dict(
    prop="C31", file="dsari/config.py",
    edits=[("                config_files.sort()\n", "                config_files.sort(key=str.lower)\n")],
    needs="two files of config.d whose names differ in the case of a letter and which set the same option",
    breaks="files are not merged in the order of their names",
    demo='''
with Daemon({}) as d:
    import dsari.config
    os.makedirs(d.etc + "/config.d")
    for n, v in (("b.json", 1), ("C.json", 2)):
        json.dump({"report_run_output_start": v}, open(d.etc + "/config.d/" + n, "w"))
    check(dsari.config.get_config(d.etc).report_run_output_start == 1, "the last file by name wins")
''')

BUGS["b33-shared-template"] = dict(
    prop="C33", file="dsari/config.py",
    edits=[("                jobs[job_name] = copy.deepcopy(job_template)\n", "                jobs[job_name] = copy.deepcopy(dict(jobs.get(job_name, {}), **job_template))\n")],
    needs="a job group which names a job that is also defined by itself, with options the group does not set",
    breaks="the options of the job of its own are mixed with those of the group",
    demo='''
with Daemon({"jobs": {"a": {"command": ["x"], "max_execution": 5}}, "job_groups": {"g": {"command": ["y"], "job_names": ["a"]}}}) as d:
    import dsari.config
    j = dsari.config.get_config(d.etc).jobs["a"]
    check(j.command == ["y"] and j.max_execution is None, "the job is the group's")
''')

BUGS["b35-bool-environment"] = dict(
    prop="C35", file="dsari/utils.py",
    edits=[("        elif type(env_in[k]) in (int, float):\n", "        elif isinstance(env_in[k], (int, float)):\n")],
    needs="an environment variable set to true or false",
    breaks="it is accepted as a value",
    demo='''
import dsari.utils
try:
    dsari.utils.validate_environment_dict({"A": True})
    check(False, "refused")
except ValueError:
    check(True, "refused")
''')

BUGS["b36-group-twice"] = dict(
    prop="C36", file="dsari/config.py",
    edits=[("""            if concurrency_group_name in self.config.concurrency_groups:
                concurrency_group = self.config.concurrency_groups[
                    concurrency_group_name
                ]
            else:
""", """            if (
                concurrency_group_name in self.config.concurrency_groups
                and self.config.concurrency_groups[concurrency_group_name].max > 1
            ):
                concurrency_group = self.config.concurrency_groups[
                    concurrency_group_name
                ]
            else:
""")],
    needs="two jobs of one concurrency group whose maximum is one (given or by default)",
    breaks="each job has a group of its own, so their runs are not limited together",
    demo='''
with Daemon({"jobs": {n: {"command": ["x"], "concurrency_groups": ["g"]} for n in "ab"}}) as d:
    import dsari.config
    c = dsari.config.get_config(d.etc)
    check(c.jobs["a"].concurrency_groups[0] is c.jobs["b"].concurrency_groups[0], "one group")
''')

BUGS["b43-lower-case"] = dict(
    prop="C43", file="dsari/utils.py",
    edits=[("    if schedule.upper().startswith(\"RRULE:\"):\n", "    if schedule.startswith((\"RRULE:\", \"rrule:\")):\n")],
    needs="a recurrence rule with its name in mixed case",
    breaks="the schedule is refused",
    demo='''
import dsari.utils
check(dsari.utils.get_next_schedule_time("Rrule:freq=daily", "a") is not None, "accepted")
'''
)

BUGS["b50-nearest"] = dict(
    prop="C50", file="dsari/prometheus_exporter.py",
    edits=[("    d1 = key(N[int(c)]) * (k - f)\n", "    d1 = key(N[int(c)]) * round(k - f, 1)\n")],
    needs="a quantile whose place is not a multiple of a tenth between two runs",
    breaks="the interpolated value is off",
    demo='''
import dsari.prometheus_exporter as p
check(abs(p.percentile([0.0, 100.0], 0.25) - 25) < 1e-9, "interpolated")
''')

BUGS["b51-negative-codes"] = dict(
    prop="C51", file="dsari/prometheus_exporter.py",
    edits=[("                last_run = sorted(runs, key=lambda run: run.stop_time)[-1]\n", "                last_run = sorted(runs, key=lambda run: run.start_time)[-1]\n")],
    needs="overlapping runs of a job: the later started one finishes first",
    breaks="the metrics of the last run are not those of the run which finished last",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "concurrent_runs": True}}}) as d:
    import dsari.prometheus_exporter as p, dsari.database, dsari
    from dsari.utils import dtnow, seconds_to_td
    e = p.Prometheus(p.parse_args(["--config-dir", d.etc]))
    now = dtnow()
    for start, stop, code in ((50, 1, 3), (40, 20, 4)):
        r = dsari.Run(e.config.jobs["a"])
        r.schedule_time = r.start_time = now - seconds_to_td(start)
        r.stop_time = now - seconds_to_td(stop)
        r.exit_code, r.trigger_type = code, "file"
        e.db.insert_run(r)
    check('dsari_last_run_exit_code{job_name="a"} 3' in e.get_metrics(), "the last run is the one which finished last")
''')

BUGS["b52-cache-from-start"] = dict(
    prop="C52", file="dsari/prometheus_exporter.py",
    edits=[("            (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()\n        ):\n            self.job_cache = self.get_job_metrics()\n            self.job_cache_time = dtnow()\n        metrics.update(self.job_cache)\n", "            (self.job_cache_time + seconds_to_td(self.args.job_cache_time)) < dtnow()\n        ):\n            self.job_cache = self.get_job_metrics()\n        self.job_cache_time = dtnow()\n        metrics.update(self.job_cache)\n")],
    needs="requests which follow each other faster than the cache time",
    breaks="each request prolongs the cache, so metrics grow older than the cache time",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.prometheus_exporter as p, dsari
    from dsari.utils import dtnow
    e = p.Prometheus(p.parse_args(["--config-dir", d.etc, "--job-cache-time", "1"]))
    e.get_metrics()
    r = dsari.Run(e.config.jobs["a"])
    r.schedule_time = r.start_time = r.stop_time = dtnow()
    r.exit_code, r.trigger_type = 0, "file"
    e.db.insert_run(r)
    for i in range(4):
        time.sleep(0.6)
        t = e.get_metrics()
    check('dsari_run_count{job_name="a"} 1' in t, "not older than a second")
''')

BUGS["b53-content-length"] = dict(
    prop="C53", file="dsari/prometheus_exporter.py",
    edits=[("""        if self.environ["PATH_INFO"] != self.prom.args.metrics_path:
""", """        if not self.prom.args.metrics_path.startswith(self.environ["PATH_INFO"]):
""")],
    needs="a request for a beginning of the metrics path, like / or /met",
    breaks="metrics are answered for other paths",
    demo='''
with Daemon({"jobs": {}}) as d:
    import dsari.prometheus_exporter as p
    h = p.PrometheusHandler(p.Prometheus(p.parse_args(["--config-dir", d.etc])))
    got = []
    h({"PATH_INFO": "/met"}, lambda s, hs: got.append(s))
    check(got[0].startswith("404"), "not found")
''')

BUGS["b54-end-only"] = dict(
    prop="C54", file="dsari/render.py",
    edits=[("                run.output += raw_output[(0 - limit_end) :]\n", "                run.output += raw_output[(raw_len - limit_end) :].lstrip(\"\\n\")\n")],
    needs="output which is cut where an empty line begins",
    breaks="less than the configured end of the output is shown",
    demo='''
with Daemon({"report_run_output_end": 3, "jobs": {"a": {"command": ["printf", "aaaaaaaa\\\\n\\\\nz"]}}}) as d:
    d.trigger("a")
    d.start()
    d.wait(lambda: len(d.rows()) == 1)
    import subprocess
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    t = open(d.data + "/html/a/" + d.rows()[0]["run_id"] + "/index.html").read()
    check("[...]\\n\\n\\n\\n\\nz" in t, "the last three characters")
''')

BUGS["b55-xhtml"] = dict(
    prop="C55", file="dsari/render.py",
    edits=[("    return ext in (\"html\", \"htm\", \"xml\")\n", "    return ext in (\"html\", \"htm\", \"xml\") and not base.endswith(\".min\")\n")],
    needs="a custom template which includes one named like footer.min.html",
    breaks="data in such templates is not escaped",
    demo='''
import dsari.render as r
check(r.guess_autoescape("run.html") and r.guess_autoescape("footer.min.html"), "escaped")
''')

BUGS["b58-job-page-skipped"] = dict(
    prop="C58", file="dsari/render.py",
    edits=[("            if job not in self.jobs_written:\n                if not self.args.regenerate:\n", "            if job not in self.jobs_written or not job.last_successful_run:\n                if not self.args.regenerate:\n")],
    needs="new runs of a job of which no run ever succeeded",
    breaks="the job's page is not written",
    demo='''
with Daemon({"jobs": {n: {"command": ["true"]} for n in "ab"}}) as d:
    import dsari.config, dsari.database, dsari, subprocess
    from dsari.utils import dtnow, seconds_to_td
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    for i, j in enumerate("ba"):
        r = dsari.Run(c.jobs[j], id="run%d" % i)
        r.schedule_time = r.start_time = r.stop_time = dtnow() - seconds_to_td(1000 - i)
        r.exit_code, r.trigger_type = i, "file"
        db.insert_run(r)
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check(os.path.exists(d.data + "/html/a/index.html") and os.path.exists(d.data + "/html/b/index.html"), "both job pages")
''')

BUGS["b60-killed-runs"] = dict(
    prop="C60", file="dsari/info.py",
    edits=[("""                                ("" if not run.stop_time else str(run.exit_code)),
""", """                                ("" if not run.exit_code else str(run.exit_code)),
""")],
    needs="a finished run with exit code 0 in a tabular listing",
    breaks="its exit code is not listed, as if it was running",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    import dsari.config, dsari.database, dsari, subprocess
    from dsari.utils import dtnow
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    r = dsari.Run(c.jobs["a"], id="run")
    r.schedule_time = r.start_time = r.stop_time = dtnow()
    r.exit_code, r.trigger_type = 0, "file"
    db.insert_run(r)
    out = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "run", "list", "--format", "tabular"], cwd=REPO, text=True)
    check(out.split("\\t")[2] == "0", "exit code 0")
''')

BUGS["b61-past-next"] = dict(
    prop="C61", file="dsari/info.py",
    edits=[("""        runs = self.db.get_runs(
            run_ids=(self.args.run if self.args.run else None), runs_running=True
        )
""", """        runs = self.db.get_runs(
            run_ids=(self.args.run[:1] if self.args.run else None), runs_running=True
        )
""")],
    needs="following the outputs of more than one run by id",
    breaks="only the first one is followed",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sleep", "4"], "concurrent_runs": True}}}) as d:
    import subprocess
    d.start()
    d.trigger("a")
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "one")
    d.trigger("a")
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "two")
    os.makedirs(d.dir + "/bin")
    with open(d.dir + "/bin/tail", "w") as f:
        f.write("#!/bin/sh\\necho \\"$@\\"\\n")
    os.chmod(d.dir + "/bin/tail", 0o755)
    ids = [r["run_id"] for r in d.rows("runs_running")]
    out = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "run", "tail"] + ids, cwd=REPO, text=True, env=dict(os.environ, PATH=d.dir + "/bin:" + os.environ["PATH"]))
    check(all(i in out for i in ids), "both are followed")
    d.wait(lambda: len(d.rows()) == 2)
''')

BUGS["b05-trigger-env"] = dict(
    prop="C05", file="dsari/daemon.py",
    edits=[("""            scheduled_job_runs = [x for x in self.scheduled_runs if x.job == job]
""", """            scheduled_job_runs = [
                x
                for x in self.scheduled_runs
                if x.job == job and x.schedule_time > t
            ]
""")],
    needs="a trigger for a later time than a run of the job which is pending (due, but held back)",
    breaks="the pending run is not replaced, so the job runs twice",
    demo='''
with Daemon({"concurrency_groups": {"g": {"max": 1}}, "jobs": {n: {"command": ["sleep", "4"], "concurrency_groups": ["g"]} for n in "ab"}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "running")
    d.trigger("b", {"schedule_time": time.time() - 50})
    time.sleep(0.7)
    d.trigger("b", {"schedule_time": time.time() - 5})
    d.wait(lambda: len(d.rows()) == 3, 40)
    check(len(d.rows(where="job_name='b'")) == 1, "the pending run was replaced")
''')

BUGS["b24-clear-all-later"] = dict(
    prop="C24", file="dsari/daemon.py",
    edits=[("        self.db.clear_runs_running()\n\n        self.reset_jobs()\n", "        self.reset_jobs()\n"), ("    def loop(self):\n        while True:\n", "    def loop(self):\n        if self.jobs:\n            self.db.clear_runs_running()\n        while True:\n")],
    needs="a daemon without any jobs starting after one which ended while runs were running",
    breaks="stale entries stay among the running runs",
    demo='''
with Daemon({"jobs": {}}) as d:
    import dsari.config, dsari.database, dsari
    from dsari.utils import dtnow
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    r = dsari.Run(dsari.Job("a"))
    r.schedule_time = r.start_time = dtnow()
    r.trigger_type = "file"
    db.insert_running_run(r)
    d.start()
    d.wait(lambda: not d.rows("runs_running"), 5)
    check(not d.rows("runs_running"), "no stale runs")
''')
