BUGS = {}

RENDER = '''
import dsari, re
from urllib.parse import urljoin, unquote


def render(job, rid="11111111-1111-4111-8111-111111111111"):
    import dsari.config, dsari.database
    d = Daemon({"jobs": {job: {"command": ["true"]}}})
    c = dsari.config.get_config(d.etc)
    db = dsari.database.get_database(c)
    from dsari.utils import dtlocalize, epoch_to_dt
    at = lambda e: dtlocalize(epoch_to_dt(e))
    r = dsari.Run(c.jobs[job], id=rid)
    r.schedule_time = r.start_time = at(1600000000)
    r.stop_time, r.exit_code, r.trigger_type = at(1600000060), 0, "file"
    db.insert_run(r)
    subprocess.check_call([sys.executable, "-m", "dsari.render", "-c", d.etc], cwd=REPO, env=dict(os.environ, PYTHONPATH=REPO))
    return d


def links(d):
    top = d.data + "/html"
    for where, _, files in os.walk(top):
        for fn in files:
            if fn.endswith(".html"):
                page = os.path.relpath(os.path.join(where, fn), top)
                from urllib.parse import quote
                import html
                for a in re.findall('href="([^"]*)"', open(os.path.join(where, fn)).read()):
                    to = urljoin("http://h/" + quote(page), html.unescape(a))
                    if to.startswith("http://h/"):
                        yield page, a, top + unquote(to[len("http://h"):])


'''

PAGE = '''
import pty


def paged(d, *args, pager=None, keys=None, **env):
    """What a dsari-info command shows on a terminal."""
    m, s = pty.openpty()
    e = {k: v for k, v in os.environ.items() if k not in ("PAGER", "LESS")}
    e.update(PYTHONPATH=REPO, **env)
    if pager:
        e["PAGER"] = pager
    p = subprocess.Popen([sys.executable, "-m", "dsari.info", "-c", d.etc] + list(args), cwd=REPO, env=e, stdout=s, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    os.close(s)
    out = b""
    while True:
        try:
            b = os.read(m, 4096)
        except OSError:
            break
        if not b:
            break
        out += b
    os.close(m)
    err = p.stderr.read()
    return p.wait(), out.decode(), err.decode()


def script(d, name, text):
    with open(d.dir + "/" + name, "w") as f:
        f.write("#!/bin/sh\\n" + text)
    os.chmod(d.dir + "/" + name, 0o755)
    return d.dir + "/" + name


'''

BUGS["g62-run-link"] = dict(
    prop="C62", file="dsari/templates/job.html",
    edits=[('href="{{ run.id }}/"', 'href="/{{ job.name }}/{{ run.id }}/"')],
    needs="reports which are not served from the root of a site, or opened as files",
    breaks="the runs listed on a job's page lead nowhere",
    demo=RENDER + '''
d = render("a")
try:
    bad = [x for x in links(d) if x[1].startswith("/")]
    check(not bad, "every link of the reports can be followed where they are %s" % bad)
    check(all(os.path.exists(to) for _, _, to in links(d)), "each leads to a file or folder")
finally:
    d.close()
''')

BUGS["g62-stylesheet"] = dict(
    prop="C62", file="dsari/render.py",
    edits=[('"darkly.min.css")\n        if not', '"darkly.css")\n        if not')],
    needs="following a page's link to its style sheet",
    breaks="no page finds its style sheet",
    demo=RENDER + '''
d = render("a b")
try:
    bad = [x for x in links(d) if not os.path.exists(x[2])]
    check(not bad, "every link leads to something %s" % bad)
finally:
    d.close()
''')

BUGS["g62-run-folder"] = dict(
    prop="C62", file="dsari/render.py",
    edits=[('run_html_filename = os.path.join(\n            self.config.data_dir, "html", job.name, run.id, "index.html"', 'run_html_filename = os.path.join(\n            self.config.data_dir, "html", job.name.replace(" ", "_"), run.id, "index.html"'),
           ('"html", job.name, run.id)\n        ):\n            os.makedirs(os.path.join(self.config.data_dir, "html", job.name, run.id))', '"html", job.name.replace(" ", "_"), run.id)\n        ):\n            os.makedirs(\n                os.path.join(\n                    self.config.data_dir, "html", job.name.replace(" ", "_"), run.id\n                )\n            )')],
    needs="a job whose name holds a space",
    breaks="its page links to folders which are not there",
    demo=RENDER + '''
d = render("nightly backup")
try:
    bad = [x for x in links(d) if not os.path.exists(x[2])]
    check(not bad, "every link leads to something %s" % bad)
finally:
    d.close()
''')

BUGS["g63-pager-interrupted"] = dict(
    prop="C63", file="dsari/info.py",
    edits=[('                except KeyboardInterrupt:\n                    continue', '                except KeyboardInterrupt:\n                    break')],
    needs="an interrupt while the pager is still showing its text",
    breaks="the command ends and leaves its pager behind on the terminal",
    demo=PAGE + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    mark, pid = d.dir + "/ended", d.dir + "/pid"
    s = script(d, "p", "trap '' INT\\nps -o ppid= -p $$ > %s\\ncat\\nsleep 3\\necho x > %s\\n" % (pid, mark))
    import threading
    def hit():
        d.wait(lambda: os.path.exists(pid) and open(pid).read().strip())
        time.sleep(0.7)
        os.kill(int(open(pid).read()), signal.SIGINT)
    t = threading.Thread(target=hit)
    t.start()
    m, sl = pty.openpty()
    p = subprocess.Popen([sys.executable, "-m", "dsari.info", "-c", d.etc, "job", "list", "--format", "json"], cwd=REPO, env=dict(os.environ, PYTHONPATH=REPO, PAGER=s), stdout=sl, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    p.wait()
    t.join()
    check(os.path.exists(mark), "the command waits until its pager has ended")
''')

BUGS["g63-quit-early"] = dict(
    prop="C63", file="dsari/info.py",
    edits=[('            try:\n                self.pager.stdin.close()\n            except BrokenPipeError:\n                pass\n            ret', '            self.pager.stdin.close()\n            ret')],
    needs="a pager which is left before it has taken the (short) text",
    breaks="leaving the pager ends the command with a traceback",
    demo=PAGE + '''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    s = script(d, "p", "exit 0\\n")
    for _ in range(5):
        # an import which takes a while, so that the pager has ended before the text is written
        hook = d.dir + "/h"
        os.makedirs(hook, exist_ok=True)
        with open(hook + "/sitecustomize.py", "w") as f:
            f.write("import subprocess, time\\nP = subprocess.Popen\\nclass Q(P):\\n    def __init__(self, *a, **k):\\n        super().__init__(*a, **k)\\n        time.sleep(0.5)\\nsubprocess.Popen = Q\\n")
        e = dict(os.environ, PYTHONPATH=hook + ":" + REPO, PAGER=s)
        m, sl = pty.openpty()
        p = subprocess.run([sys.executable, "-m", "dsari.info", "-c", d.etc, "job", "list", "--format", "json"], cwd=REPO, env=e, stdout=sl, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        check("Traceback" not in p.stderr.decode() and p.returncode == 0, "leaving the pager is no error")
''')

BUGS["g63-long-text"] = dict(
    prop="C63", file="dsari/info.py",
    edits=[('                self.pager.stdin.write(line.encode("utf-8"))', '                self.pager.stdin.write(line.encode("ascii", "replace"))')],
    needs="a text on a terminal which is not plain ASCII",
    breaks="the pager does not show the command's text",
    demo=PAGE + '''
with Daemon({"jobs": {"a": {"command": ["printf", "caf\\u00e9"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "a runs")
    rc, out, err = paged(d, "run", "output", d.rows()[0]["run_id"], pager="cat")
    check(rc == 0 and "caf\\u00e9" in out, "the pager shows the text %r %r" % (out, err))
''')

PLACES = '''
def places(**env):
    h = tempfile.mkdtemp(prefix="dsari-demo-")
    try:
        e = {k: v for k, v in os.environ.items() if k != "DSARI_HOME"}
        e.update(HOME=h, PYTHONPATH=REPO, **env)
        for p in FILES:
            os.makedirs(os.path.dirname(h + "/" + p), exist_ok=True)
            open(h + "/" + p, "w").write("{}")
        out = subprocess.check_output([sys.executable, "-c", HOOK + "import dsari.config as c; print(c.DEFAULT_CONFIG_DIR); print(c.DEFAULT_DATA_DIR)"], cwd=h, env=e, text=True)
        return [x.replace(h, "~") for x in out.split()]
    finally:
        shutil.rmtree(h, ignore_errors=True)


'''

BUGS["g64-yaml-only"] = dict(
    prop="C64", file="dsari/config.py",
    edits=[('    elif os.path.exists(os.path.join(dir, "dsari.yaml")):\n        return True\n    elif', '    elif')],
    needs="a directory which holds nothing but dsari.yaml",
    breaks="its configuration is not found",
    demo=PLACES + '''
FILES = []
HOOK = """
import os.path
X = os.path.exists
os.path.exists = lambda p: p == "/usr/local/etc/dsari/dsari.yaml" or (X(p) and "dsari.json" not in str(p) and "config.d" not in str(p))
"""
check(places() == ["/usr/local/etc/dsari", "/usr/local/lib/dsari"], "a directory which holds dsari.yaml is taken")
''')

BUGS["g64-data-dir"] = dict(
    prop="C64", file="dsari/config.py",
    edits=[('    DEFAULT_CONFIG_DIR = "/usr/local/etc/dsari"\n    DEFAULT_DATA_DIR = "/usr/local/lib/dsari"', '    DEFAULT_CONFIG_DIR = "/usr/local/etc/dsari"\n    DEFAULT_DATA_DIR = "/var/lib/dsari"')],
    needs="a configuration in /usr/local/etc/dsari",
    breaks="the history is kept at another installation's place",
    demo=PLACES + '''
FILES = []
HOOK = """
import os.path
X = os.path.exists
os.path.exists = lambda p: p == "/usr/local/etc/dsari/dsari.json" or (X(p) and "dsari" not in str(p).rsplit("/etc/", 1)[-1])
"""
check(places() == ["/usr/local/etc/dsari", "/usr/local/lib/dsari"], "data goes with its configuration")
''')

BUGS["g64-home-first"] = dict(
    prop="C64", file="dsari/config.py",
    edits=[('if "DSARI_HOME" in os.environ:\n', 'if "DSARI_HOME" in os.environ and dir_has_config(\n    os.path.join(os.environ["DSARI_HOME"], "etc")\n):\n')],
    needs="DSARI_HOME set to a place which holds no configuration yet",
    breaks="another place's configuration and history are used",
    demo=PLACES + '''
FILES = [".dsari/etc/dsari.json"]
HOOK = ""
check(places(DSARI_HOME="/nonexistent/home") == ["/nonexistent/home/etc", "/nonexistent/home/var"], "DSARI_HOME wins")
''')

BUGS["g65-shell-jobs"] = dict(
    prop="C65", file="dsari/info.py",
    edits=[('            "jobs": self.config.jobs,\n        }\n        banner', '            "jobs": sorted(self.config.jobs),\n        }\n        banner')],
    needs="looking a job up in the shell",
    breaks="jobs holds names, not jobs",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    fake = d.dir + "/f"
    os.makedirs(fake + "/IPython/terminal")
    for p in ("/IPython", "/IPython/terminal"):
        open(fake + p + "/__init__.py", "w").close()
    with open(fake + "/IPython/terminal/embed.py", "w") as f:
        f.write("class InteractiveShellEmbed:\\n    def __init__(self, user_ns=None, **k):\\n        self.n = user_ns\\n    def __call__(self):\\n        print('SHELL', self.n['jobs']['a'].command)\\n")
    p = subprocess.run([sys.executable, "-m", "dsari.info", "-c", d.etc, "shell"], cwd=REPO, env=dict(os.environ, PYTHONPATH=fake + ":" + REPO), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    check("SHELL ['true']" in p.stdout, "the shell knows the jobs " + p.stderr[-200:])
''')

BUGS["g65-shell-namespace"] = dict(
    prop="C65", file="dsari/info.py",
    edits=[('user_ns=vars', 'user_ns=vars.copy().clear()')],
    needs="using a listed variable in IPython's shell",
    breaks="the shell knows none of the variables it lists",
    demo=BUGS["g65-shell-jobs"]["demo"])

BUGS["g31-shared-nodes"] = dict(
    prop="C31", file="dsari/utils.py",
    edits=[('            out[k] = copy.deepcopy(v)\n', '            out[k] = v\n'), ('    out = copy.deepcopy(s)\n', '    out = s\n')],
    needs="a YAML file in which two jobs share a node (anchor and alias), and a file which overrides one of them",
    breaks="the override reaches the other job too",
    demo='''
import dsari.config
with Daemon({}) as d:
    os.remove(d.etc + "/dsari.json")
    os.makedirs(d.etc + "/config.d")
    with open(d.etc + "/dsari.yaml", "w") as f:
        f.write("jobs:\\n  a: &j\\n    command: ['true']\\n    environment: {X: one}\\n  b: *j\\n")
    with open(d.etc + "/config.d/a.json", "w") as f:
        json.dump({"jobs": {"a": {"environment": {"X": "two"}}}}, f)
    c = dsari.config.get_config(d.etc)
    check(c.jobs["a"].environment == {"X": "two"}, "the file overrides what it names")
    check(c.jobs["b"].environment == {"X": "one"}, "and nothing else")
''')

BUGS["g36-group-case"] = dict(
    prop="C36", file="dsari/config.py",
    edits=[('if concurrency_group_name in self.config.concurrency_groups:\n                concurrency_group = self', 'if concurrency_group_name.lower() in self.config.concurrency_groups:\n                concurrency_group_name = concurrency_group_name.lower()\n                concurrency_group = self')],
    needs="two groups whose names differ in case only",
    breaks="a job is held back by a group it does not list",
    demo='''
import dsari.config
with Daemon({"jobs": {"a": {"command": ["true"], "concurrency_groups": ["db"]}, "b": {"command": ["true"], "concurrency_groups": ["DB"]}}, "concurrency_groups": {"db": {"max": 1}, "DB": {"max": 5}}}) as d:
    c = dsari.config.get_config(d.etc)
    check([g.name for g in c.jobs["b"].concurrency_groups] == ["DB"], "a job belongs to the groups it lists")
''')

BUGS["g15-expanded"] = dict(
    prop="C15", file="dsari/daemon.py",
    edits=[('environ[str(key)] = str(val)\n        for (key, val) in job.env', 'environ[str(key)] = os.path.expandvars(str(val))\n        for (key, val) in job.env')],
    needs="an environment value which holds a dollar sign",
    breaks="the run sees another value than the configured one",
    demo='''
with Daemon({"environment": {"PW": "a$HOME-b"}, "jobs": {"a": {"command": ["sh", "-c", "echo $PW"]}}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows()) == 1), "a runs")
    r = d.rows()[0]
    out = open(os.path.join(d.data, "runs", "a", r["run_id"], "output.txt")).read()
    check(out.strip() == "a$HOME-b", "the value is passed on as it is: " + out)
''')

BUGS["g07-fuzzy"] = dict(
    prop="C07", file="dsari/daemon.py",
    edits=[('t = dateutil_parser.parse(j["schedule_time"])', 't = dateutil_parser.parse(j["schedule_time"], fuzzy=True)')],
    needs="a trigger whose schedule_time is a text around a number",
    breaks="a run starts at a time nobody named",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"]}}}) as d:
    d.start()
    d.trigger("a", {"schedule_time": "in 5 parts, since 1999"})
    check(not d.wait(lambda: len(d.rows()) == 1, 4), "a text which is no time starts nothing")
''')

BUGS["g04-held-back"] = dict(
    prop="C04", file="dsari/daemon.py",
    edits=[('            run.schedule_time = t\n            self.scheduled_runs.append(run)\n\n        # Reg', '            run.schedule_time = max(t, now + seconds_to_td(30))\n            self.scheduled_runs.append(run)\n\n        # Reg')],
    needs="a time of the schedule less than half a minute after the daemon computes it",
    breaks="the run starts late, at a time the schedule does not name",
    demo='''
with Daemon({"jobs": {"a": {"command": ["true"], "schedule": "* * * * *"}}}) as d:
    # the occurrences of "a" are some 43 seconds after each full minute
    while time.gmtime().tm_sec < 20 or time.gmtime().tm_sec > 35:
        time.sleep(0.5)
    d.start()
    check(d.wait(lambda: len(d.rows()) == 2, 130), "two runs")
    x, y = sorted(r["schedule_time"] for r in d.rows())
    check(abs((y - x + 30) % 60 - 30) < 0.01, "the times of a minutely schedule are full minutes apart")
''')

BUGS["g61-many-jobs"] = dict(
    prop="C61", file="dsari/info.py",
    edits=[('print(json_pretty_print(jobs), file=pager)', 'print(json_pretty_print({k: jobs[k] for k in sorted(jobs)[:50]}), file=pager)')],
    needs="more than fifty jobs",
    breaks="job list does not list them all",
    demo='''
with Daemon({"jobs": {"j%d" % i: {"command": ["true"]} for i in range(70)}}) as d:
    out = subprocess.check_output([sys.executable, "-m", "dsari.info", "-c", d.etc, "job", "list", "--format", "json"], cwd=REPO, text=True, stdin=subprocess.DEVNULL)
    check(len(json.loads(out)) == 70, "every job is listed")
''')

BUGS["g12-crowd-reload"] = dict(
    prop="C12", file="dsari/daemon.py",
    edits=[('        for run in self.running_runs:\n            if run.job.name in self.config.jobs:', '        for run in self.running_runs[:4]:\n            if run.job.name in self.config.jobs:')],
    needs="a reload while more than four runs are in progress in a group",
    breaks="the reload fails, or the group takes too many",
    demo='''
def cfg(n):
    return {"jobs": {x: {"command": ["sleep", "4"], "concurrency_groups": ["g"]} for x in "abcdefg"}, "concurrency_groups": {"g": {"max": n}}}
with Daemon(cfg(6)) as d:
    for x in "abcdef":
        d.trigger(x)
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 6), "six run")
    d.config(cfg(6))
    d.poke(signal.SIGHUP)
    time.sleep(1)
    check(d.wait(lambda: len(d.rows()) == 6, 15), "all six end and are recorded")
    time.sleep(1)
    check(d.p.poll() is None and len(d.rows()) == 6, "the daemon goes on")
    d.trigger("g")
    check(d.wait(lambda: len(d.rows()) == 7, 15), "the seventh runs")
''')

BUGS["g11-kept-trigger"] = dict(
    prop="C11", file="dsari/daemon.py",
    edits=[('        self.scheduled_runs = []\n        for run in self.running_runs:\n            run.respawn = False\n\n        if self.config', '        self.scheduled_runs = [x for x in self.scheduled_runs if x.trigger_type == "file"]\n        for run in self.running_runs:\n            run.respawn = False\n\n        if self.config')],
    needs="a shutdown while a run is in progress and a trigger's run still waits",
    breaks="a run is started after shutdown has begun",
    demo='''
b = {"command": ["sleep", "4"], "concurrency_groups": ["g"]}
with Daemon({"jobs": {"a": b, "b": dict(b, command=["true"])}}) as d:
    d.trigger("a")
    d.start()
    check(d.wait(lambda: len(d.rows("runs_running")) == 1), "a runs")
    d.trigger("b")
    time.sleep(1.5)
    d.poke(signal.SIGTERM)
    try:
        d.p.wait(timeout=25)
    except subprocess.TimeoutExpired:
        pass
    check([r["job_name"] for r in d.rows()] == ["a"], "nothing starts after shutdown has begun")
''')
