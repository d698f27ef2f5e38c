"""Trigger files and return data: hostile contents (C06), times (C07), results (C18)."""
import datetime

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Ite, Not, Or, SDict, Sym, us_of

from .child import DATA, launch, same_us, setenv
from .sim import SEC, STUBS, Sim, loads

START = 1_700_000_000_250_000
TRIG = "/vworld/data/trigger/a/trigger."


def same_value(ctx, got, want, label):
    """got (read back from JSON) equals want."""
    if isinstance(want, dict):
        ctx.prove(isinstance(got, dict) and len(got) == len(want), label)
        for k, v in want.items():
            ctx.prove(k in got, label)
            same_value(ctx, got[k], v, label)
    elif isinstance(want, (list, tuple)):
        ctx.prove(isinstance(got, (list, tuple)) and len(got) == len(want), label)
        for g, v in zip(got, want):
            same_value(ctx, g, v, label)
    elif isinstance(want, bool) or want is None:
        ctx.prove(type(got) is type(want) or isinstance(got, bool) == isinstance(want, bool), label)
        ctx.prove(got == want if want is not None else got is None, label)
    elif isinstance(want, str):
        ctx.prove(isinstance(got, str), label)
        ctx.prove(got == want, label)
    else:
        ctx.prove(isinstance(got, (int, float)), label)
        ctx.prove(ctx.eq_real(got * 1.0, want * 1.0), label)


# -- C06 ---------------------------------------------------------------------------------

JUNK = {
    "empty": "", "brace": "{", "word": "{x}", "tab": "\t- a: [", "latin1": b'{"a": "\xe9"}',
    "nul": "{\"a\": \x00}", "deep": "[" * 3000, "anchor": "a: *b", "two": "{} {}", "tag": "!!python/object:os.x {}",
    "dup": "? [a, b]\n: 1", "set": "!!set {a, b}", "bytes": "a: !!binary aGVsbG8=", "date": "when: 2020-01-02",
    "tuplekey": "x: {? [1, 2] : 3}", "merge": "<<: 5", "bigint": "schedule_time: " + "9" * 400,
    "nan": '{"schedule_time": NaN}', "inf": '{"schedule_time": -Infinity}', "datekey": "2020-01-02: x",
    "envdate": "environment: {A: 2020-01-02}", "sch-date": "schedule_time: 2001-12-14 21:59:43",
    "longint": '{"schedule_time": 1' + "0" * 5000 + "}", "surrogate": '{"a": "\\ud800"}',
}
USABLE_JUNK = {"surrogate"}


def value(ctx, name, kinds):
    """A value of any of the given kinds; -> (kind, value)."""
    k = ctx.choice(name + "_kind", kinds)
    if k == "str":
        v = ctx.str(name, maxlen=6, chars="a-z0-9 :=")
    elif k == "int":
        v = ctx.int(name, -(10**30), 10**30)
    elif k == "float":
        v = ctx.real(name, -(10**30), 10**30)
    else:
        v = {
            "null": None, "true": True, "list": [ctx.int(name, 0, 9)], "dict": {"k": ctx.int(name, 0, 9)},
            "date": datetime.date(2020, 1, 2), "emptystr": "", "emptydict": {}, "inf": float("inf"),
            "nan": float("nan"), "bytes": b"x", "set": {"x"}, "intkey": {5: "x"}, "text": "not a time",
            "mixed": {5: "x", "k": 1}, "surrogate": {"k": "a\ud800\U0001f600\x00"}, "nulkey": {None: "x"}, "truekey": {True: "x"},
        }[k]
    return k, v


@harness(
    "C06",
    params={k: k for k in ("top", "environment", "time", "zone", "junk", "races")},
    bounds="one hostile trigger file of a job (any kind of value at the top level, in environment names and values, schedule_time and schedule_timezone, numbers of any size up to 1e30, texts up to 6 characters; a list of malformed texts; each file operation failing or losing the file), followed by a valid one, while another job's triggered run is pending",
    stubs=STUBS + ["dateutil.parser: real for constant texts"], cron_stub=True,
    covers={k: ["unusable"] if k == "zone" else ["unusable", "usable"] for k in ("top", "environment", "time", "zone", "junk", "races")},
)
def hostile(ctx, what):
    jobs = {"a": {"command": ["x"]}, "b": {"command": ["x"]}}
    s = Sim(ctx, {"jobs": jobs}, start_us=START, max_idle=3)
    w = s.w
    w.fixed_order = True
    s.jump = 700 * SEC
    fmt = ctx.choice("format", ["json", "yaml"])
    path = TRIG + fmt
    usable, stays = True, False
    scal = ["str", "int", "float", "null", "true", "list", "dict"] + (["date", "bytes", "set"] if fmt == "yaml" else [])
    data = {}
    past = START // SEC - 5
    if what == "top":
        k, data = value(ctx, "top", [x for x in scal if x != "dict"] + ["emptydict"])
        usable = k == "emptydict"
    elif what == "environment":
        # a whole other than a mapping, or a mapping with one unusual entry
        if ctx.decide(ctx.bool("whole")):
            k, v = value(ctx, "env", [x for x in scal if x != "dict"] + ["emptydict"])
            usable = k == "emptydict"
            data["environment"] = v
        else:
            odd = ctx.choice("odd_key", ["text"] + (["int", "none", "bool"] if fmt == "yaml" else []))
            k, v = value(ctx, "envval", scal)
            usable = odd == "text" and k in ("str", "int", "float")
            data["environment"] = {{"text": "A", "int": 5, "none": None, "bool": True}[odd]: v}
    elif what == "time":
        k, v = value(ctx, "time", [x for x in scal if x != "str"] + ["emptystr", "text", "inf", "nan"])
        data["schedule_time"] = v
        usable = False
        if k in ("int", "float"):
            # representable at all: years 1 to 9999
            usable = ctx.decide(And(v > -62135000000, v < 253402000000))
            if not usable:
                ctx.assume(Or(v < -62136000000, v > 253403000000))
    elif what == "zone":
        k, v = value(ctx, "zone", ["int", "float", "true", "list", "dict", "emptystr", "null", "text"] + (["date"] if fmt == "yaml" else []))
        data["schedule_timezone"] = v
        usable = None if k in ("emptystr", "null") else False
        if k in ("int", "float"):
            ctx.assume(v != 0)
    elif what == "junk":
        name = ctx.choice("junk", sorted(JUNK))
        data = JUNK[name]
        usable = True if name in USABLE_JUNK else None
        if name in ("brace", "word", "latin1", "nul", "deep", "two", "inf", "nan", "longint", "bigint") and fmt == "json":
            usable = False
        if name in ("empty", "tab", "latin1", "nul", "anchor", "tag", "date", "set", "envdate"):
            usable = False
    else:
        race = ctx.choice("race", ["open", "remove", "gone-mtime", "gone-open", "gone-remove", "directory", "mtime"])
        usable = False
        stays = race in ("open", "remove", "directory")
    raw = isinstance(data, (str, bytes)) and what == "junk"
    w.put(path, data, mtime=START - 5 * SEC, fmt=None if raw else fmt)
    if what == "races":
        node = w.fs[path]
        if race in ("open", "remove"):
            node.error = race
        elif race == "directory":
            del w.fs[path]
            w.dirs.add(path)
        elif race.startswith("gone"):
            op = {"gone-mtime": "getmtime", "gone-open": "open", "gone-remove": "remove"}[race]

            def fs(o, p):
                if o == op and p == path and w.fs.get(p) is node:
                    del w.fs[p]  # somebody else removed it just now

            w.on_fs = fs
        elif race == "mtime":
            node.mtime = ctx.int("mtime", 0, START)
            usable = True
    w.put(TRIG.replace("/a/", "/b/") + "json", {"tag": "b", "schedule_time": START // SEC + 600}, fmt="json")
    s.start()
    forks = {"a": [], "b": []}
    w.monitors.append(lambda e: forks[e.data["run"].job.name].append(e.data["run"]) if e.kind == "fork" else None)
    s.exits = lambda live: (live[0], 0)

    def step(n):
        if n == 1:
            ctx.prove(not forks["b"], "other pending runs are unaffected")
            if usable is False:
                ctx.prove(not forks["a"], "no run is started from an unusable trigger")
                ctx.cover("unusable")
                if not stays:
                    ctx.prove(not w.has(path), "a trigger which could be read is removed")
            elif usable:
                ctx.cover("usable")
            st["before"] = len(forks["a"])
            w.dirs.discard(path)
            w.put(TRIG + "json", {"tag": "good"}, mtime=w.now - SEC, fmt="json")

    st = {"before": 0}
    s.env_step = step
    ended = s.loop(3)
    ctx.prove(not ended, "the daemon keeps running")
    ctx.prove(len(forks["b"]) == 1, "other pending runs are unaffected")
    good = [r for r in forks["a"] if r.trigger_data.get("tag") == "good"]
    ctx.prove(len(good) == 1, "the next valid trigger is carried out")
    if usable is False:
        ctx.prove(len(forks["a"]) == 1, "no run is started from an unusable trigger")


# -- C07 ---------------------------------------------------------------------------------


@harness(
    "C07",
    params={k: k for k in ("mtime", "number", "text", "text-offset")},
    bounds="any time 2001-2033 with any fraction (microseconds), any local offset, schedule_timezone absent or a zone with any offset that changes once to any other at any time (times skipped or repeated by the change excluded), own offsets of any number of minutes",
    stubs=STUBS + ["dateutil.parser returns the time and offset the text names"], cron_stub=True,
    covers=["zone"],
)
def times(ctx, form):
    ctx.set_local_offset()
    setenv(ctx, PATH="/bin")
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=2_000_000_000_000_000)
    data = {}
    off = None
    if ctx.decide(ctx.bool("with_zone")):
        ctx.cover("zone")
        o1, o2 = ctx.int("zone_off", -14 * 60, 14 * 60) * 60 * SEC, ctx.int("zone_off2", -14 * 60, 14 * 60) * 60 * SEC
        at = ctx.int("zone_change", 10**9, 2 * 10**9) * SEC
        s.w.zones["VT/Zone"] = (o1, at, o2)
        data["schedule_timezone"] = "VT/Zone"
        off = (o1, at, o2)
    mtime = us = ctx.int("time", 10**15, 2 * 10**15 - 86400 * SEC)
    if form == "number":
        if ctx.decide(ctx.bool("whole_seconds")):
            sec = ctx.int("secs", 10**9, 2 * 10**9 - 86400)
            data["schedule_time"], us = sec, sec * SEC
        else:
            data["schedule_time"] = us / 1_000_000
        mtime = START
    elif form == "text":
        # the wall clock time of instant us in the zone meant
        if off is None:
            wall = us + ctx.local_off
        else:
            o1, at, o2 = off
            wall = us + Ite(us < at, o1, o2)
            # shown by one instant only, and really shown
            ctx.assume(Or(us < at - 2 * 86400 * SEC, us > at + 2 * 86400 * SEC, o1 == o2))
        data["schedule_time"] = W.iso_text(ctx, wall)
        mtime = START
    elif form == "text-offset":
        own = ctx.int("own_off", -14 * 60, 14 * 60) * 60 * SEC
        data["schedule_time"] = W.iso_text(ctx, us + own, own)
        mtime = START
    s.trigger("a", data, mtime=mtime)
    e = launch(ctx, s, "a")
    ctx.prove(same_us(ctx, e.env["SCHEDULE_TIME"], us), "SCHEDULE_TIME is the requested time")
    rows = s.w.table("runs_running")
    ctx.prove(len(rows) == 1, "the run is listed as running")
    ctx.prove(ctx.eq_real(rows[0]["schedule_time"] * 1.0, us / 1e6), "the requested time is recorded")


TEXTS = [
    # (text, the wall clock time or instant in microseconds from a description of the date, own offset in minutes)
    ("20210704", (2021, 7, 4), None), ("20210704T153001", (2021, 7, 4, 15, 30, 1), None),
    ("202107041530", (2021, 7, 4, 15, 30), None), ("2021-07-04", (2021, 7, 4), None),
    ("2021-07-04 15:30:01.25", (2021, 7, 4, 15, 30, 1, 250000), None), ("Jul 4 2021 3:30 PM", (2021, 7, 4, 15, 30), None),
    ("2021/7/4 00:00", (2021, 7, 4), None), ("Sun Jul  4 15:30:01 2021", (2021, 7, 4, 15, 30, 1), None),
    ("2021-07-04T15:30:01Z", (2021, 7, 4, 15, 30, 1), 0), ("2021-07-04 15:30:01 UTC", (2021, 7, 4, 15, 30, 1), 0),
    ("2021-07-04T15:30:01.500000+0530", (2021, 7, 4, 15, 30, 1, 500000), 330), ("20210704T153001-03:00", (2021, 7, 4, 15, 30, 1), -180),
    ("Sun, 04 Jul 2021 15:30:01 -0800", (2021, 7, 4, 15, 30, 1), -480),
]


@harness(
    "C07",
    bounds="13 spellings of a time (digits only, ISO 8601 basic and extended, dates alone, RFC 2822, ctime, with own offsets or without), any local offset, schedule_timezone absent or a zone with any offset",
    stubs=STUBS, cron_stub=True, covers=["zone"],
)
def spellings(ctx):
    import calendar

    ctx.set_local_offset()
    setenv(ctx, PATH="/bin")
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=2_000_000_000_000_000)
    text, parts, own = ctx.choice("spelling", TEXTS)
    wall = calendar.timegm((parts + (0, 0, 0))[:6]) * SEC + (parts[6] if len(parts) > 6 else 0)
    data = {"schedule_time": text}
    off = ctx.local_off
    if ctx.decide(ctx.bool("with_zone")):
        ctx.cover("zone")
        off = ctx.int("zone_off", -14 * 60, 14 * 60) * 60 * SEC
        s.w.zones["VT/Zone"] = (off,)
        data["schedule_timezone"] = "VT/Zone"
    us = wall - (off if own is None else own * 60 * SEC)
    s.trigger("a", data, mtime=START)
    e = launch(ctx, s, "a")
    ctx.prove(same_us(ctx, e.env["SCHEDULE_TIME"], us), "SCHEDULE_TIME is the requested time")
    rows = s.w.table("runs_running")
    ctx.prove(len(rows) == 1, "the run is listed as running")
    ctx.prove(ctx.eq_real(rows[0]["schedule_time"] * 1.0, us / 1e6), "the requested time is recorded")


NO_TIMES = [
    "tomorrow at 5", "run at 2020-01-01 10:00 please", "in 10 minutes", "at 10:00 sharp", "2020-01-01 10:00 or later", "", " ", "never", "now", "12:00 x", 
    "1 week", "yesterday 10:00", "99999999999999999999",
]


@harness(
    ["C07", "C06"],
    bounds="13 texts which name no time, or more than a time (words around it), with a time zone or without; another job triggered as well or not",
    stubs=STUBS, cron_stub=True,
)
def no_times(ctx):
    ctx.set_local_offset()
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}, "b": {"command": ["x"]}}}, start_us=2_000_000_000_000_000)
    text = ctx.choice("text", NO_TIMES)
    data = {"schedule_time": text}
    if ctx.choice("zone", [False, True]):
        s.w.zones["VT/Zone"] = (ctx.int("zone_off", -14 * 60, 14 * 60) * 60 * SEC,)
        data["schedule_timezone"] = "VT/Zone"
    s.trigger("a", data, mtime=START)
    both = ctx.choice("other", [False, True])
    if both:
        s.trigger("b", {}, mtime=START)
    s.start()
    s.exits = lambda live: None
    s.loop(2)
    names = [r["job_name"] for r in s.w.table("runs_running")]
    ctx.prove(names == (["b"] if both else []), "no run is started at a time nobody named", repr((text, names)))
    ctx.prove(not s.w.has(TRIG + "json"), "an unusable trigger is removed")


# -- C18 ---------------------------------------------------------------------------------

BADTEXT = {"empty": "", "brace": "{", "latin1": b'"\xe9"', "deep": "[" * 3000, "anchor": "*b", "nul": "\x00"}


@harness(
    "C18",
    params={k: k for k in ("content", "bad", "files")},
    bounds="return data of any kind of value (mappings, lists, numbers up to 1e9, texts up to 6 characters, unrecordable values) in either format, a list of malformed texts, unreadable and vanishing files; the run's exit code 0-255",
    stubs=STUBS, cron_stub=True, covers={"content": ["recorded", "ignored"], "bad": ["ignored"], "files": ["recorded", "ignored"]},
)
def return_data(ctx, what):
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=START)
    w = s.w
    s.trigger("a", {})
    code = ctx.int("code", 0, 255)
    fmt = ctx.choice("format", ["json", "yaml"])
    want, either = None, None
    files = {}
    err = None
    if what == "content":
        kinds = ["str", "int", "null", "true", "list", "dict", "emptydict"]
        k, v = value(ctx, "v", kinds + (["date", "bytes", "set", "mixed", "surrogate"] if fmt == "yaml" else ["surrogate"]))
        if k == "int":
            ctx.assume(And(v > -(10**9), v < 10**9))
        if k in ("dict", "list"):
            k2, v2 = value(ctx, "w", ["str", "null", "true"] + (["date", "set"] if fmt == "yaml" else []))
            v = {"k": v["k"], "x": v2} if k == "dict" else v + [v2]
            k = k2 if k2 in ("date", "set") else k
        files[fmt] = (v, fmt)
        if k == "mixed":
            v = {str(a): b for a, b in v.items()}
        want = ("yes", v) if k not in ("date", "bytes", "set") else ("no",)
    elif what == "bad":
        n = ctx.choice("junk", sorted(BADTEXT))
        files[fmt] = (BADTEXT[n], None)
        want = ("no",) if fmt == "json" or n != "empty" else ("any",)
    else:
        err = ctx.choice("case", ["both", "json-bad", "open", "gone", "none", "directory"])
        x, y = ctx.int("x", 0, 9), ctx.int("y", 0, 9)
        files["json"], files["yaml"] = ({"j": x}, "json"), ({"y": y}, "yaml")
        want = ("yes", {"j": x})
        if err == "json-bad":
            files["json"] = ("{", None)
            want = ("any",)
        elif err in ("open", "gone", "directory"):
            want = ("any",)
        elif err == "none":
            files, want = {}, ("no",)
    s.start()

    def exits(live):
        rid = live[0].run_id
        d = "{}/runs/a/{}/return_data.".format(DATA, rid)
        for k, (data, f) in files.items():
            w.put(d + k, data, fmt=f)
        if err == "open":
            w.fs[d + "json"].error = "open"
        elif err == "directory":
            del w.fs[d + "json"]
            w.dirs.add(d + "json")
        elif err == "gone":

            def fs(o, p):
                if o == "open" and p.startswith(d):
                    w.fs.pop(p, None)

            w.on_fs = fs
        return (live[0], code * 256)

    s.exits = exits
    ended = s.loop(2)
    ctx.prove(not ended, "the daemon keeps running")
    rows = w.table("runs")
    ctx.prove(len(rows) == 1 and not w.table("runs_running"), "the run is recorded")
    ctx.prove(rows[0]["exit_code"] == code, "the run is recorded with its exit code")
    rd = loads(rows[0]["run_data"])
    ctx.prove(isinstance(rd, dict), "run data is a mapping")
    if want[0] == "yes":
        ctx.cover("recorded")
        ctx.prove("return_data" in rd, "valid return data is recorded")
        same_value(ctx, rd["return_data"], want[1], "return data is recorded as it is")
    elif want[0] == "no":
        ctx.cover("ignored")
        ctx.prove("return_data" not in rd, "unusable return data is not recorded")
