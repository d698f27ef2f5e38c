"""Copied into each seeded/<id>/ as lib.py: a real daemon in a scratch folder."""
import json, os, shutil, signal, sqlite3, subprocess, sys, tempfile, time

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


class Daemon:
    def __init__(self, config, **files):
        self.dir = tempfile.mkdtemp(prefix="dsari-demo-")
        self.etc, self.data = self.dir + "/etc", self.dir + "/var"
        os.makedirs(self.etc)
        os.makedirs(self.data)
        self.config(config)
        self.log = open(self.dir + "/log", "w+")
        self.p = None

    def config(self, config):
        with open(self.etc + "/dsari.json.new", "w") as f:
            json.dump(dict(config, data_dir=self.data), f)
        os.rename(self.etc + "/dsari.json.new", self.etc + "/dsari.json")

    def start(self):
        env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
        self.p = subprocess.Popen(
            [sys.executable, "-m", "dsari.daemon", "-c", self.etc, "--debug"],
            cwd=REPO, env=env, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, start_new_session=True,
        )
        self.wait(lambda: "Scheduler running" in self.text())
        return self

    def text(self):
        with open(self.dir + "/log") as f:
            return f.read()

    def trigger(self, job, data=None, fmt="json"):
        d = os.path.join(self.data, "trigger", job)
        os.makedirs(d, exist_ok=True)
        with open(d + "/new", "w") as f:
            json.dump(data or {}, f)
        os.rename(d + "/new", d + "/trigger." + fmt)
        self.poke()
        return d + "/trigger." + fmt

    def poke(self, sig=signal.SIGUSR1):
        if self.p is not None and self.p.poll() is None:
            self.p.send_signal(sig)

    def rows(self, table="runs", where="1"):
        c = sqlite3.connect(self.data + "/dsari.sqlite3")
        c.row_factory = sqlite3.Row
        try:
            return [dict(r) for r in c.execute("select * from {} where {}".format(table, where))]
        finally:
            c.close()

    def wait(self, cond, timeout=20.0, what=None):
        end = time.time() + timeout
        while time.time() < end:
            if cond():
                return True
            time.sleep(0.05)
        return bool(cond())

    def close(self):
        if self.p is not None and self.p.poll() is None:
            for r in self.rows("runs_running"):
                pass
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def check(ok, what):
    if not ok:
        print("FAIL:", what)
        sys.exit(1)
    print("ok:", what)
