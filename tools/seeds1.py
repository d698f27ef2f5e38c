BUGS = {}

BUGS["b01-reload-group-count"] = dict(
    prop="C01", file="dsari/daemon.py",
    edits=[("""                        self.running_groups[concurrency_group] = []
                    self.running_groups[concurrency_group].append(run)
                else:""", """                        self.running_groups[concurrency_group] = [run]
                else:""")],
    needs="a reload while at least two runs hold the same concurrency group, then a further run of the group",
    breaks="after a reload only the first running run of a group is counted, so the group's limit is exceeded",
    demo='''
conf = {"concurrency_groups": {"g": {"max": 2}}, "jobs": {n: {"command": ["sleep", "6"], "concurrency_groups": ["g"]} for n in "abc"}}
with Daemon(conf) as d:
    d.start()
    d.trigger("a"); d.trigger("b")
    check(d.wait(lambda: len(d.rows("runs_running")) == 2), "two runs of the group started")
    d.poke(signal.SIGHUP)
    d.wait(lambda: "reloading" in d.text())
    time.sleep(0.5)
    d.trigger("c")
    time.sleep(2)
    check(len(d.rows("runs_running")) <= 2 and not d.rows(where="job_name='c'"), "never more than two runs of the group")
''')

BUGS["b04-respawn-lost"] = dict(
    prop="C04", file="dsari/daemon.py",
    edits=[("                run.respawn = old_run.respawn\n", "                run.respawn = old_run.respawn and t > old_run.schedule_time\n")],
    needs="a trigger file replacing a pending scheduled run which was due later than the trigger's own time",
    breaks="the job's recurring schedule ends once such a triggered run was started",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "schedule": "* * * * * *"}}}) as d:
    d.trigger("a")
    d.start()
    d.wait(lambda: len(d.rows(where="trigger_type='file'")) == 1)
    check(len(d.rows(where="trigger_type='file'")) == 1, "triggered run")
    check(d.wait(lambda: len(d.rows(where="trigger_type='schedule'")) > 0, 8), "the schedule goes on")
''')

BUGS["b15-empty-override"] = dict(
    prop="C15", file="dsari/daemon.py",
    edits=[("""        for (key, val) in job.environment.items():
            environ[str(key)] = str(val)
""", """        for (key, val) in job.environment.items():
            environ[str(key)] = str(val) or environ.get(str(key), "")
""")],
    needs="a job which sets a globally (or automatically) defined variable to the empty string",
    breaks="a job's environment no longer takes precedence when its value is empty",
    demo='''
with Daemon({"environment": {"MODE": "fast"}, "jobs": {"a": {"command": ["sh", "-c", 'echo "mode=[$MODE]"'], "environment": {"MODE": ""}}}}) as d:
    d.trigger("a")
    d.start()
    d.wait(lambda: len(d.rows()) == 1)
    r = d.rows()[0]
    out = open(d.data + "/runs/a/" + r["run_id"] + "/output.txt").read()
    check(out == "mode=[]\\n", "the job's own value wins: " + repr(out))
''')

BUGS["b10-limit-from-schedule"] = dict(
    prop="C10", file="dsari/daemon.py",
    edits=[("        delta = now - run.start_time\n", "        delta = now - run.schedule_time\n")],
    needs="a run of a job with max_execution which started late because another run of the job was still in progress",
    breaks="the run is terminated although it has not run for max_execution yet",
    demo='''
with Daemon({"jobs": {"a": {"command": ["sleep", "4"], "max_execution": 7, "max_execution_grace": 1}}}) as d:
    d.trigger("a")
    d.start()
    d.wait(lambda: len(d.rows("runs_running")) == 1)
    d.trigger("a", {"schedule_time": time.time() - 30})
    d.p.send_signal(signal.SIGUSR1)
    d.wait(lambda: len(d.rows()) == 2, 90)
    check([r["exit_code"] for r in d.rows()] == [0, 0], "no run is ended early: {}".format([r["exit_code"] for r in d.rows()]))
''')

BUGS["b22-early-commit"] = dict(
    prop="C22", file="dsari/database.py",
    edits=[("""                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                    ("run_data", run.run_data),
                ]
            ),
        )

        sql_statement = \"\"\"
            DELETE
            FROM
                runs_running
            WHERE
                run_id = {}
        \"\"\"
""", """                    ("exit_code", run.exit_code),
                    ("trigger_type", run.trigger_type),
                    ("trigger_data", run.trigger_data),
                    ("run_data", run.run_data),
                ]
            ),
        )
        self.db_conn.commit()

        sql_statement = \"\"\"
            DELETE
            FROM
                runs_running
            WHERE
                run_id = {}
        \"\"\"
""")],
    needs="a reader (or a crash) between the two statements which record a finished run",
    breaks="a run can be seen as finished and running at once",
    demo='''
import datetime, types, tempfile, shutil
import dsari, dsari.database
tmp = tempfile.mkdtemp(prefix="dsari-demo-")
try:
    cfg = types.SimpleNamespace(database={"type": "sqlite3", "file": None}, data_dir=tmp, jobs={})
    db = dsari.database.get_database(cfg)
    run = dsari.Run(dsari.Job("a"), id="r1")
    t = datetime.datetime.now().astimezone()
    run.schedule_time = run.start_time = t
    run.trigger_type = "file"
    db.insert_running_run(run)
    run.stop_time, run.exit_code = t, 0
    other = sqlite3.connect(os.path.join(tmp, "dsari.sqlite3"))
    bad = []
    def look(sql):
        n = [other.execute("select count(*) from " + x).fetchone()[0] for x in ("runs", "runs_running")]
        if sum(n) != 1:
            bad.append((n, sql))
    db.db_conn.set_trace_callback(look)
    db.insert_run(run)
    check(not bad, "always in exactly one table " + repr(bad)[:100])
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

BUGS["b20-bad-run-order"] = dict(
    prop="C20", file="dsari/database.py",
    edits=[("""            AND
                exit_code != 0
            ORDER BY
                stop_time DESC
""", """            AND
                exit_code != 0
            ORDER BY
                start_time DESC
""")],
    needs="overlapping failed runs of one job: the later started one ends first",
    breaks="the previous bad run is not the failed run which finished last",
    demo='''
import datetime, types, tempfile, shutil
import dsari, dsari.database
tmp = tempfile.mkdtemp(prefix="dsari-demo-")
try:
    cfg = types.SimpleNamespace(database={"type": "sqlite3", "file": None}, data_dir=tmp, jobs={})
    db = dsari.database.get_database(cfg)
    job = dsari.Job("a")
    t = datetime.datetime.now().astimezone()
    for rid, a, b in (("long", 0, 100), ("short", 10, 20)):
        run = dsari.Run(job, id=rid)
        run.schedule_time = run.start_time = t + datetime.timedelta(seconds=a)
        run.stop_time = t + datetime.timedelta(seconds=b)
        run.trigger_type, run.exit_code = "file", 1
        db.insert_run(run)
    check(db.get_previous_runs(job)[2].id == "long", "previous bad run is the one which finished last")
finally:
    shutil.rmtree(tmp, ignore_errors=True)
''')

BUGS["b02-replace-first-of-all"] = dict(
    prop="C05", file="dsari/daemon.py",
    edits=[("scheduled_job_runs = [x for x in self.scheduled_runs if x.job == job]", "scheduled_job_runs = [x for x in self.scheduled_runs if not x.job < job]")],
    needs="a trigger for a job while another job later in the alphabet has a pending run",
    breaks="a trigger file replaces another job's pending run",
    demo='''
with Daemon({"jobs": {n: {"command": ["true"]} for n in "ab"}}) as d:
    d.start()
    d.trigger("b", {"schedule_time": time.time() + 4})
    d.wait(lambda: "Trigger detected" in d.text())
    time.sleep(0.5)
    d.trigger("a", {"schedule_time": time.time() + 4})
    d.wait(lambda: len(d.rows()) == 2, 12)
    check(sorted(r["job_name"] for r in d.rows()) == ["a", "b"], "both triggered jobs ran")
''')

BUGS["b11-shutdown-forgets"] = dict(
    prop="C11", file="dsari/daemon.py",
    edits=[("        if dtnow() < (self.shutdown_begin + self.config.shutdown_kill_grace):\n", "        if dtnow() <= max(run.start_time for run in self.running_runs or [self.jobs]) + self.config.shutdown_kill_grace:\n") if 0 else
           ("""        for run in self.running_runs:
            run.respawn = False

        if self.config.shutdown_kill_runs:""", """        for run in self.running_runs:
            run.respawn = False
            run.kill_sent = run.term_sent

        if self.config.shutdown_kill_runs:""")],
    needs="shutdown with shutdown_kill_runs while a run which ignores SIGTERM had already exceeded max_execution",
    breaks="such a run is never sent SIGKILL, so the shutdown does not end",
    demo='''
with Daemon({"shutdown_kill_runs": True, "shutdown_kill_grace": 2, "jobs": {"a": {"command": ["sh", "-c", "trap '' TERM; sleep 15; sleep 0"], "max_execution": 1, "max_execution_grace": 3600}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: "sending SIGTERM" in d.text()), "max_execution exceeded")
    d.p.send_signal(signal.SIGTERM)
    check(d.wait(lambda: d.p.poll() is not None, 9), "the shutdown ends after the grace time")
''')
