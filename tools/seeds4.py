BUGS = {}

OPEN = '''
def opened(d):
    import dsari.config, dsari.database
    c = dsari.config.get_config(d.etc)
    return c, dsari.database.get_database(c)


def finished(c, db, job, rid, start, stop, code=0, schedule=None):
    import dsari
    from dsari.utils import dtlocalize, epoch_to_dt
    at = lambda e: dtlocalize(epoch_to_dt(e))
    r = dsari.Run(c.jobs[job], id=rid)
    r.schedule_time, r.start_time, r.stop_time = at(start if schedule is None else schedule), at(start), at(stop)
    r.exit_code, r.trigger_type = code, "file"
    db.insert_run(r)


'''

BUGS["d01-groups-dropped"] = dict(
    prop="C01", file="dsari/daemon.py",
    edits=[("        if run.concurrency_group and run in self.running_groups[run.concurrency_group]:\n", "        if job.concurrency_groups and run.concurrency_group and run in self.running_groups[run.concurrency_group]:\n")],
    needs="a reload which removes the groups of a job while a run of it is in progress in one of them",
    breaks="the run holds its place in the group forever",
    demo='''
def cfg(groups):
    return {"jobs": {"a": {"command": ["sleep", "2"], "concurrency_groups": groups}, "b": {"command": ["true"], "concurrency_groups": ["g"]}}}
with Daemon(cfg(["g"])) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "a runs")
    d.config(cfg([]))
    d.poke(signal.SIGHUP)
    check(d.wait(lambda: len(d.rows()) == 1), "a ends")
    d.trigger("b")
    check(d.wait(lambda: len(d.rows()) == 2, 12), "b runs in the group a has left")
''')

BUGS["d01-removed-job-group"] = dict(
    prop="C12", file="dsari/daemon.py",
    edits=[("                # Job disappeared from config during SIGHUP\n                run.respawn = False\n", "                # Job disappeared from config during SIGHUP\n                run.respawn = False\n                continue\n")],
    needs="a reload which removes a job while a run of it is in progress in a group, then a further run of the group",
    breaks="the run no longer counts against its group's maximum",
    demo='''
b = {"command": ["true"], "concurrency_groups": ["g"]}
with Daemon({"jobs": {"a": {"command": ["sleep", "5"], "concurrency_groups": ["g"]}, "b": b}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "a runs")
    d.config({"jobs": {"b": b}})
    d.poke(signal.SIGHUP)
    time.sleep(1)
    d.trigger("b")
    time.sleep(2)
    check(len(d.rows()) == 0 and len(d.rows("runs_running")) == 1, "b waits for the group")
    d.wait(lambda: len(d.rows()) == 2)
''')

BUGS["d02-same-job-kept"] = dict(
    prop="C02", file="dsari/daemon.py",
    edits=[("            if run.job.name in self.config.jobs:\n                run.job = self.config.jobs[run.job.name]\n            else:\n", "            if run.job.name in self.config.jobs:\n                if not run.concurrency_group or run.concurrency_group.name in self.config.concurrency_groups:\n                    run.job = self.config.jobs[run.job.name]\n            else:\n")],
    needs="a reload which removes the group a run in progress is in, then another run of its job",
    breaks="two runs of one job overlap",
    demo='''
def cfg(groups):
    return {"jobs": {"a": {"command": ["sleep", "4"], "concurrency_groups": groups}}}
with Daemon(cfg(["g"])) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "a runs")
    d.config(cfg([]))
    d.poke(signal.SIGHUP)
    time.sleep(1)
    d.trigger("a")
    time.sleep(1.5)
    check(len(d.rows("runs_running")) == 1, "only one run of the job")
''')

BUGS["d03-whole-second"] = dict(
    prop="C03", file="dsari/daemon.py",
    edits=[("        if run.schedule_time > now:\n", "        if run.schedule_time.replace(microsecond=0) > now:\n")],
    needs="a look within the second of a scheduled time but before it (a signal, or another run ending then)",
    breaks="a run starts up to a second early",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    t = int(time.time()) + 3
    d.trigger("a", {"schedule_time": t + 0.9})
    while time.time() < t + 0.1:
        time.sleep(0.01)
    d.poke()
    check(d.wait(lambda: len(d.rows()) == 1), "the run was made")
    check(d.rows()[0]["start_time"] >= t + 0.9, "it did not start early")
''')

BUGS["d04-second-trigger"] = dict(
    prop="C04", file="dsari/daemon.py",
    edits=[("                run.respawn = old_run.respawn\n", "                run.respawn = old_run.trigger_type == \"schedule\"\n")],
    needs="two triggers, one after the other, for later times, of a scheduled job",
    breaks="the job's recurrence ends",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "schedule": "* * * * * */2"}}}) as d:
    d.start()
    check(d.wait(lambda: len(d.rows()) >= 1), "the job recurs")
    f = d.trigger("a", {"schedule_time": time.time() + 3})
    check(d.wait(lambda: not os.path.exists(f)), "first trigger")
    d.trigger("a", {"schedule_time": time.time() + 2})
    check(d.wait(lambda: any(r["trigger_type"] == "file" for r in d.rows())), "triggered run")
    n = len(d.rows())
    check(d.wait(lambda: len(d.rows()) > n, 10), "the job still recurs")
''')

BUGS["d05-data-popped"] = dict(
    prop="C05", file="dsari/daemon.py",
    edits=[('                    t = dateutil_parser.parse(j["schedule_time"])\n', '                    t = dateutil_parser.parse(j.pop("schedule_time"))\n')],
    needs="a trigger with a time given as text",
    breaks="the run's recorded data is not the trigger's",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("a", {"schedule_time": "2020-01-01 10:00", "schedule_timezone": "UTC"})
    check(d.wait(lambda: len(d.rows()) == 1), "the run was made")
    check("schedule_time" in json.loads(d.rows()[0]["trigger_data"]), "with the trigger's data")
''')

BUGS["d06-falsy-environment"] = dict(
    prop="C06", file="dsari/daemon.py",
    edits=[('        if ("environment" in j) and (type(j["environment"]) != dict):\n', '        if j.get("environment") and (type(j["environment"]) != dict):\n')],
    needs="a trigger whose environment is null, 0 or false",
    breaks="the daemon ends",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("a", {"environment": None})
    time.sleep(3)
    check(d.p.poll() is None, "the daemon lives on")
    check(len(d.rows()) == 0, "and there is no run")
''')

BUGS["d06-kept-invalid"] = dict(
    prop="C06", file="dsari/utils.py",
    edits=[("        if delete_during:\n            os.remove(file)\n        try:\n            if file_type == \"yaml\":\n                return yaml.safe_load(f)\n            else:\n                return json.load(f)\n",
            "        try:\n            if file_type == \"yaml\":\n                data = yaml.safe_load(f)\n            else:\n                data = json.load(f)\n            if delete_during:\n                os.remove(file)\n            return data\n")],
    needs="a trigger file which is not valid JSON",
    breaks="it is never removed and reported at every look",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    os.makedirs(d.data + "/trigger/a")
    with open(d.data + "/trigger/a/trigger.json", "w") as f:
        f.write("{")
    d.start()
    check(d.wait(lambda: not os.path.exists(d.data + "/trigger/a/trigger.json"), 5), "removed")
''')

BUGS["d07-digits"] = dict(
    prop="C07", file="dsari/daemon.py",
    edits=[("""            if type(j["schedule_time"]) in (int, float):
""", """            if type(j["schedule_time"]) in (int, float) or (
                type(j["schedule_time"]) == str and j["schedule_time"].isdigit()
            ):
""")],
    needs="a date given as text of digits only, like 20300101",
    breaks="the text is taken as an epoch number",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    f = d.trigger("a", {"schedule_time": "20990101"})
    d.start()
    check(d.wait(lambda: not os.path.exists(f)), "trigger taken")
    time.sleep(1)
    check(len(d.rows()) == 0, "the run is for 2099, not for 1970")
''')

BUGS["d08-killed-unrecorded"] = dict(
    prop="C08", file="dsari/daemon.py",
    edits=[("            if r.pid == child_pid:\n", "            if r.pid == child_pid and not r.kill_sent:\n")],
    needs="a run which ignores SIGTERM after max_execution and is killed",
    breaks="it is never recorded as finished",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "trap '' TERM; while :; do sleep 1; done"], "max_execution": 1, "max_execution_grace": 1}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1, 30), "the killed run is recorded")
''')

BUGS["d11-one-kill"] = dict(
    prop="C11", file="dsari/daemon.py",
    edits=[("""                "[{} {}] Shutdown grace time exceeded, sending SIGKILL to PID {}".format(
                    job.name, run.id, run.pid
                )
            )
            os.kill(run.pid, signal.SIGKILL)
            run.kill_sent = True
""", """                "[{} {}] Shutdown grace time exceeded, sending SIGKILL to PID {}".format(
                    job.name, run.id, run.pid
                )
            )
            os.kill(run.pid, signal.SIGKILL)
            run.kill_sent = True
            return
""")],
    needs="two runs which ignore SIGTERM at a shutdown with shutdown_kill_grace",
    breaks="only one of them is killed when the grace time has passed",
    demo='''
c = ["sh", "-c", "trap '' TERM; sleep 25 & while :; do wait; sleep 1; done"]
with Daemon({"shutdown_kill_runs": True, "shutdown_kill_grace": 1, "jobs": {n: {"command": c} for n in "ab"}}) as d:
    d.trigger("a")
    d.trigger("b")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "two run")
    time.sleep(0.5)
    d.poke(signal.SIGTERM)
    check(d.wait(lambda: d.p.poll() is not None, 12), "the daemon ends")
''')

BUGS["d11-second-exit"] = dict(
    prop="C11", file="dsari/daemon.py",
    edits=[("            self.begin_shutdown()\n", "            if self.shutdown:\n                sys.exit(1)\n            self.begin_shutdown()\n")],
    needs="a second SIGTERM while the daemon waits for its runs",
    breaks="the daemon ends before its runs, which are never recorded",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sleep", "3"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "running")
    d.poke(signal.SIGTERM)
    time.sleep(0.7)
    d.poke(signal.SIGTERM)
    check(d.wait(lambda: d.p.poll() is not None, 12), "the daemon ends")
    check(len(d.rows()) == 1, "the run is recorded")
''')

BUGS["d12-kept-triggered"] = dict(
    prop="C12", file="dsari/daemon.py",
    edits=[("            return\n        self.jobs = []\n        self.scheduled_runs = []\n", "            return\n        self.jobs = []\n        self.scheduled_runs = [\n            run for run in self.scheduled_runs if run.trigger_type == \"file\"\n        ]\n")],
    needs="a reload while a triggered run is pending",
    breaks="the pending run survives the reload, with its old job",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    f = d.trigger("a", {"schedule_time": time.time() + 4})
    check(d.wait(lambda: not os.path.exists(f)), "trigger taken")
    d.config({"jobs": {"b": {"command": ["true"]}}})
    d.poke(signal.SIGHUP)
    time.sleep(6)
    check(len(d.rows()) == 0, "no run of the removed job")
''')

BUGS["d15-locale"] = dict(
    prop="C15", file="dsari/daemon.py",
    edits=[("        job = run.job\n        environ = {}\n", "        job = run.job\n        environ = {k: v for k, v in os.environ.items() if k.startswith(\"LC_\")}\n")],
    needs="a daemon started with LC_ variables",
    breaks="variables of the daemon's environment reach the runs",
    demo='''
os.environ["LC_WHATEVER"] = "C"
with Daemon({"jobs": {"a": {"command": ["env"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "ran")
    t = open(d.data + "/runs/a/" + d.rows()[0]["run_id"] + "/output.txt").read()
    check("LC_WHATEVER" not in t, "not in its environment")
''')

BUGS["d16-previous-of-good"] = dict(
    prop="C16", file="dsari/daemon.py",
    edits=[("        if run.previous_bad_run:\n", "        if run.previous_bad_run and run.previous_bad_run is not run.previous_run and not run.previous_good_run:\n")],
    needs="a job with a failed and a good run",
    breaks="the last failed run is not described",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "env; [ -e ../once ] || { touch ../once; exit 3; }"]}}}) as d:
    d.start()
    for n in range(3):
        d.trigger("a")
        check(d.wait(lambda: len(d.rows()) == n + 1), "ran")
    last = max(d.rows(), key=lambda r: r["start_time"])
    t = open(d.data + "/runs/a/" + last["run_id"] + "/output.txt").read()
    check("PREVIOUS_BAD_EXIT_CODE=3" in t, "the failed run is described")
''')

BUGS["d17-sigint-ignored"] = dict(
    prop="C17", file="dsari/daemon.py",
    edits=[("        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):\n            signal.signal(signum, signal.SIG_DFL)\n", "        for signum in (signal.SIGHUP, signal.SIGINT, signal.SIGTERM, signal.SIGQUIT):\n            signal.signal(\n                signum,\n                signal.SIG_IGN if signum == signal.SIGINT else signal.SIG_DFL,\n            )\n")],
    needs="a command which relies on SIGINT",
    breaks="runs ignore SIGINT",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sh", "-c", "kill -INT $$; exit 5"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "ran")
    check(d.rows()[0]["exit_code"] == 130, "SIGINT ended it: {}".format(d.rows()[0]["exit_code"]))
''')

BUGS["d18-value-error"] = dict(
    prop="C18", file="dsari/daemon.py",
    edits=[("                run.run_data[\"return_data\"] = return_data\n            except Exception:\n", "                run.run_data[\"return_data\"] = return_data\n            except (ValueError, TypeError):\n")],
    needs="return data which cannot be opened (a folder of that name), or invalid YAML",
    breaks="the run is not recorded and the daemon ends",
    demo='''
with Daemon({"jobs": {"a": {"command": ["mkdir", "return_data.json"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1, 8), "recorded")
''')

BUGS["d20-like"] = dict(
    prop="C20", file="dsari/database.py",
    edits=[("""                job_name = {}
            AND
                exit_code != 0
""", """                job_name LIKE {}
            AND
                exit_code != 0
""")],
    needs="job names with an underscore, or which differ in the case of letters",
    breaks="failed runs of another job are taken for the job's own",
    demo=OPEN + '''
with Daemon({"jobs": {n: {"command": ["true"]} for n in ("a_b", "axb")}}) as d:
    c, db = opened(d)
    finished(c, db, "axb", "r1", 1000, 2000, 4)
    check(db.get_previous_runs(c.jobs["a_b"]) == (None, None, None), "no run of its own")
''')

BUGS["d21-milli"] = dict(
    prop="C21", file="dsari/database.py",
    edits=[("            if type(f[k]) in (int, float):\n                setattr(run, k, epoch_to_dt(f[k]).astimezone())\n", "            if type(f[k]) in (int, float):\n                setattr(run, k, epoch_to_dt(int(f[k] * 100) / 100).astimezone())\n")],
    needs="times with more than two decimals",
    breaks="times read back differ by up to 10 ms",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000.125, 2000.127)
    check(abs(db.get_runs()[0].stop_time.timestamp() - 2000.127) < 0.001, "the same instant")
''')

BUGS["d22-autocommit"] = dict(
    prop="C22", file="dsari/database.py",
    edits=[("        self.db_conn = sqlite3.connect(config.database[\"file\"])\n", "        self.db_conn = sqlite3.connect(config.database[\"file\"], isolation_level=None)\n")],
    needs="a reader (or a crash) between the two statements which record a finished run",
    breaks="a run can be seen as finished and running at once",
    demo=OPEN + '''
import sqlite3
seen = []
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    import dsari
    from dsari.utils import dtnow
    r = dsari.Run(c.jobs["a"], id="r1")
    r.schedule_time = r.start_time = r.stop_time = dtnow()
    r.exit_code, r.trigger_type = 0, "file"
    db.insert_running_run(r)
    def look(s):
        if "DELETE" in s.upper():
            seen.append(len(d.rows()) + len(d.rows("runs_running")))
    db.db_conn.set_trace_callback(look)
    db.insert_run(r)
    check(all(n == 1 for n in seen), "never both: {}".format(seen))
''')

BUGS["d23-unconfigured"] = dict(
    prop="C23", file="dsari/database.py",
    edits=[("                job = dsari.Job(db_result[\"job_name\"])\n                fake_jobs[db_result[\"job_name\"]] = job\n            runs.append(self._build_run_from_result(job, db_result))\n        cur.close()\n", "                job = dsari.Job(db_result[\"job_name\"])\n                fake_jobs.setdefault(None, job)\n                job = fake_jobs[None]\n            runs.append(self._build_run_from_result(job, db_result))\n        cur.close()\n")],
    needs="runs of two jobs which are no longer configured",
    breaks="the runs of the second are attributed to the first",
    demo=OPEN + '''
with Daemon({"jobs": {n: {"command": ["true"]} for n in "ab"}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000)
    finished(c, db, "b", "r2", 1000, 2000)
    d.config({"jobs": {}})
    c, db = opened(d)
    check(sorted(r.job.name for r in db.get_runs()) == ["a", "b"], "each its own name")
''')

BUGS["d24-schema-again"] = dict(
    prop="C24", file="dsari/database.py",
    edits=[("""        if not runs_running_exists:
            sql_statement = \"\"\"
                CREATE TABLE runs_running (
                    job_name text,
                    run_id text,
                    schedule_time real,
""", """        if runs_running_exists:
            # Left over from a daemon which has ended
            cur = self.db_conn.cursor()
            cur.execute(
                "DELETE FROM runs_running WHERE start_time < (SELECT MIN(start_time) FROM runs)"
            )
            cur.close()
            self.db_conn.commit()
        else:
            sql_statement = \"\"\"
                CREATE TABLE runs_running (
                    job_name text,
                    run_id text,
                    schedule_time real,
""")],
    needs="a tool opening the database while a run is in progress which started before any finished one",
    breaks="the run is no longer listed as running",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    import dsari
    from dsari.utils import dtlocalize, epoch_to_dt
    r = dsari.Run(c.jobs["a"], id="r1")
    r.schedule_time = r.start_time = dtlocalize(epoch_to_dt(900))
    r.trigger_type = "file"
    db.insert_running_run(r)
    finished(c, db, "a", "r2", 1000, 2000)
    opened(d)
    check(len(d.rows("runs_running")) == 1, "still listed")
''')

BUGS["d31-lists-extend"] = dict(
    prop="C31", file="dsari/utils.py",
    edits=[("        if k in out and isinstance(out[k], dict):\n            out[k] = dict_merge(out[k], v)\n", "        if k in out and isinstance(out[k], dict):\n            out[k] = dict_merge(out[k], v)\n        elif isinstance(out.get(k), list) and isinstance(v, list) and k != \"command\":\n            out[k] = out[k] + v\n")],
    needs="two files which give the same list, like a job's concurrency_groups",
    breaks="the lists are joined instead of replaced",
    demo='''
import dsari.config
with Daemon({"jobs": {"a": {"command": ["true"], "concurrency_groups": ["g"]}}}) as d:
    os.makedirs(d.etc + "/config.d")
    json.dump({"jobs": {"a": {"concurrency_groups": ["h"]}}}, open(d.etc + "/config.d/x.json", "w"))
    c = dsari.config.get_config(d.etc)
    check([g.name for g in c.jobs["a"].concurrency_groups] == ["h"], "replaced")
''')

BUGS["d33-own-group-name"] = dict(
    prop="C33", file="dsari/config.py",
    edits=[("                jobs[job_name][\"job_group\"] = job_group_name\n", "                jobs[job_name].setdefault(\"job_group\", job_group_name)\n")],
    needs="a job group whose options contain job_group",
    breaks="its jobs are not marked as of the group",
    demo='''
import dsari.config
with Daemon({"job_groups": {"g": {"job_names": ["a"], "command": ["true"], "job_group": "h"}}}) as d:
    check(dsari.config.get_config(d.etc).jobs["a"].job_group == "g", "of its group")
''')

BUGS["d35-rounded"] = dict(
    prop="C35", file="dsari/utils.py",
    edits=[("            env_out[k] = str(env_in[k])\n", "            env_out[k] = \"{:g}\".format(env_in[k])\n")],
    needs="a number with more than six digits",
    breaks="its value is rounded",
    demo='''
import dsari.utils
check(dsari.utils.validate_environment_dict({"a": 12345678})["a"] == "12345678", "the number")
''')

BUGS["d36-at-least-one"] = dict(
    prop="C36", file="dsari/config.py",
    edits=[("            job.concurrency_groups.append(concurrency_group)\n", "            if concurrency_group.max > 0:\n                job.concurrency_groups.append(concurrency_group)\n")],
    needs="a concurrency group with a maximum of zero (to hold its jobs back)",
    breaks="its jobs run as if they were not in it",
    demo='''
import dsari.config
with Daemon({"jobs": {"a": {"command": ["true"], "concurrency_groups": ["g"]}}, "concurrency_groups": {"g": {"max": 0}}}) as d:
    check(len(dsari.config.get_config(d.etc).jobs["a"].concurrency_groups) == 1, "in its group")
''')

BUGS["d41-two-digits"] = dict(
    prop="C41", file="dsari/croniter_hash.py",
    edits=[("        m = re.match(r\"^(H|R)\\((\\d+)-(\\d+)\\)\\/(\\d+)$\", item)\n", "        m = re.match(r\"^(H|R)\\((\\d+)-(\\d+)\\)\\/([1-9])$\", item)\n")],
    needs="a hashed range with a step of two digits",
    breaks="the field is not expanded",
    demo='''
from dsari.croniter_hash import croniter_hash
import datetime
croniter_hash("H(0-59)/15 * * * *", start_time=datetime.datetime(2020, 1, 1), hash_id="a").get_next()
check(True, "expanded")
''')

BUGS["d42-spaces"] = dict(
    prop="C42", file="dsari/utils.py",
    edits=[("    t = croniter_hash.croniter_hash(\n        schedule, start_time=start_time, hash_id=job_name\n    ).get_next(datetime.datetime)\n", "    t = croniter_hash.croniter_hash(\n        schedule, start_time=start_time.replace(microsecond=0), hash_id=job_name\n    ).get_next(datetime.datetime)\n")],
    needs="nothing special", breaks="x", demo='''check(True, "x")''')
del BUGS["d42-spaces"]

BUGS["d50-ceil"] = dict(
    prop="C50", file="dsari/prometheus_exporter.py",
    edits=[("    if f == c:\n        return key(N[int(k)])\n", "    if f == c or len(N) == 2:\n        return key(N[int(k)])\n")],
    needs="exactly two recorded runs",
    breaks="quantiles between them are not interpolated",
    demo='''
from dsari.prometheus_exporter import percentile
check(percentile([1, 3], 0.5) == 2, "the middle")
''')

BUGS["d51-seconds"] = dict(
    prop="C51", file="dsari/prometheus_exporter.py",
    edits=[("                        sum(\n                            [\n                                (run.start_time - run.schedule_time).total_seconds()\n                                for run in runs\n                            ]\n                        ),\n",
            "                        sum(\n                            [\n                                (run.start_time - run.schedule_time).seconds\n                                for run in runs\n                            ]\n                        ),\n")],
    needs="a latency with a fraction of a second, or of more than a day",
    breaks="the sum of latencies is wrong",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 200000, 200010, schedule=1000)
    t = subprocess.check_output([sys.executable, "-m", "dsari.prometheus_exporter", "--dump", "-c", d.etc], cwd=REPO, text=True, stdin=subprocess.DEVNULL)
    check('dsari_run_latency_seconds_sum{job_name="a"} 199000.0' in t, "the sum")
''')

BUGS["d52-same-jobs"] = dict(
    prop="C52", file="dsari/prometheus_exporter.py",
    edits=[("        self.config = dsari.config.get_config(self.args.config_dir)\n        self.job_cache = None\n", "        old = getattr(self, \"config\", None)\n        self.config = dsari.config.get_config(self.args.config_dir)\n        if old is not None and sorted(old.jobs) == sorted(self.config.jobs):\n            return\n        self.job_cache = None\n")],
    needs="a reload with the same job names while metrics are cached",
    breaks="metrics are not collected anew after the reload",
    demo=OPEN + '''
import dsari.prometheus_exporter as m
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    p = m.Prometheus(m.parse_args(["-c", d.etc]))
    check('dsari_run_count{job_name="a"} 0' in p.get_metrics(), "none")
    finished(c, db, "a", "r1", 1000, 2000)
    p.reload_requested = True
    if hasattr(p, "reload_config"):
        p.reload_config()
    check('dsari_run_count{job_name="a"} 1' in p.get_metrics(), "one after the reload")
''')

BUGS["d55-description"] = dict(
    prop="C55", file="dsari/templates/run.html",
    edits=[("<td>{{ run.trigger_data.description }}</td>", "<td>{{ run.trigger_data.description|replace(\"\\n\", \"<br>\"|safe) }}</td>")],
    needs="nothing", breaks="x", demo='check(True, "x")')
del BUGS["d55-description"]
BUGS["d55-type"] = dict(
    prop="C55", file="dsari/templates/run.html",
    edits=[("<td>{{ run.trigger_data.description }}</td>", "<td>{{ run.trigger_data.description|urlize|safe if \"http\" in run.trigger_data.description else run.trigger_data.description }}</td>"),
           ("<tr><th>Trigger</th><td>{{ run.trigger_type }} ({{ run.schedule_time }})</td></tr>", "<tr><th>Trigger</th><td>{{ (run.trigger_type ~ \" (\" ~ run.schedule_time ~ \")\")|safe }}</td></tr>")],
    needs="a recorded run of another trigger type, with markup in it",
    breaks="its type is not escaped",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000)
    db.db_conn.execute("update runs set trigger_type = '<b>x'")
    db.db_conn.commit()
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    check("<b>x" not in open(d.data + "/html/a/r1/index.html").read(), "escaped")
''')

BUGS["d56-compressed-first"] = dict(
    prop="C56", file="dsari/utils.py",
    edits=[("    if os.path.isfile(filename):\n", "    if os.path.isfile(filename) and not os.path.isfile(filename + \".gz\"):\n")],
    needs="an output which is being compressed, so both forms exist",
    breaks="the incomplete compressed form is read",
    demo='''
import dsari.utils
d = tempfile.mkdtemp()
try:
    open(d + "/o", "w").write("all")
    open(d + "/o.gz", "w").close()
    check(dsari.utils.read_output(d + "/o") == "all", "the whole output")
finally:
    shutil.rmtree(d)
''')

BUGS["d57-raw-expanded"] = dict(
    prop="C57", file="dsari/config.py",
    edits=[("        self.config.raw_config = copy.deepcopy(config)\n", "        self.config.raw_config = copy.copy(config)\n")],
    needs="a job group, or a command given as text, in the raw dump",
    breaks="the raw form is not the input",
    demo='''
import dsari.config
with Daemon({"jobs": {"a": {"command": "true x"}}}) as d:
    check(dsari.config.get_config(d.etc).raw_config["jobs"]["a"]["command"] == "true x", "as given")
''')

BUGS["d58-gz-again"] = dict(
    prop="C58", file="dsari/render.py",
    edits=[("        if os.path.isfile(run_html_filename):\n            if not self.args.regenerate:\n", "        if os.path.isfile(run_html_filename[: -len(\".gz\")] if run_html_filename.endswith(\".gz\") else run_html_filename):\n            if not self.args.regenerate:\n")],
    needs="report_html_gz and a second rendering",
    breaks="existing run pages are written again",
    demo=OPEN + '''
with Daemon({"report_html_gz": True, "jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000)
    p = d.data + "/html/a/r1/index.html.gz"
    for n in range(2):
        subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if n == 0:
            os.utime(p, (1, 1))
    check(os.stat(p).st_mtime == 1, "not written again")
''')

BUGS["d60-zero-json"] = dict(
    prop="C60", file="dsari/info.py",
    edits=[('                    "exit_code": (None if not run.stop_time else run.exit_code),\n', '                    "exit_code": run.exit_code or None,\n')],
    needs="a run which succeeded, listed as JSON or YAML",
    breaks="its exit code is not listed",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    finished(c, db, "a", "r1", 1000, 2000)
    t = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "run", "list", "--format", "json"], cwd=REPO, text=True, stdin=subprocess.DEVNULL)
    check(json.loads(t)["r1"]["exit_code"] == 0, "its exit code")
''')

BUGS["d61-all-outputs"] = dict(
    prop="C61", file="dsari/info.py",
    edits=[("        if filenames:\n", "        if filenames and len(filenames) == len(runs):\n")],
    needs="following several running runs of which one has no output file yet",
    breaks="none is followed",
    demo=OPEN + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    c, db = opened(d)
    import dsari, dsari.info
    from dsari.utils import dtnow
    for i in ("r1", "r2"):
        r = dsari.Run(c.jobs["a"], id=i)
        r.schedule_time = r.start_time = dtnow()
        r.trigger_type = "file"
        db.insert_running_run(r)
    os.makedirs(d.data + "/runs/a/r1")
    open(d.data + "/runs/a/r1/output.txt", "w").close()
    sys.argv = ["dsari-info", "-c", d.etc, "run", "tail"]
    seen = []
    dsari.info.os.execvp = lambda *a: seen.append(a)
    dsari.info.Info(dsari.info.parse_args()).cmd_tail_run_output_loop()
    check(len(seen) == 1, "followed")
''')
