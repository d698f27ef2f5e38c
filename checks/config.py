"""Configuration: names, merging, types, groups, acceptability, environments (C30-C36)."""
import json
import datetime
import re

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Iff, Implies, Ite, Not, Or, SDict, Sym, SymBool, SymInt, SymStr, mkstr, re_to_z3, td_us_of, us_of

from .child import DATA, launch
from .sim import SEC, STUBS, Args, Sim
from .triggers import same_value

ETC = "/vworld/etc"
FILES = [
    "file system: in-memory tree with the configuration's paths; YAML and JSON files hold a symbolic value tree (texts that need the real parsers are parsed by them)",
]
START = 1_700_000_000_250_000


def in_re(s, pat):
    """s matches pat as a whole."""
    if isinstance(s, SymStr):
        import z3

        return SymBool(z3.InRe(s.z(), re_to_z3(pat)))
    return re.fullmatch(pat, s) is not None


def load(ctx, w, files=None, etc=ETC, raw=False):
    """The configuration, or None if it is refused as a configuration error."""
    import dsari.config

    for path, data in (files or {}).items():
        w.put(path if path.startswith("/") else etc + "/" + path, data, fmt=None if raw else path.rsplit(".", 1)[1])
    try:
        return dsari.config.get_config(etc)
    except dsari.config.ConfigError:
        return None


# -- C30 ---------------------------------------------------------------------------------

PLACES = ("jobs", "job_groups", "job_names", "concurrency_groups", "job's groups")


def with_name(place, name):
    job = {"command": ["x"]}
    if place == "jobs":
        return {"jobs": SDict([(name, job)])}
    if place == "job_groups":
        return {"job_groups": SDict([(name, dict(job, job_names=["a"]))])}
    if place == "job_names":
        return {"job_groups": {"g": dict(job, job_names=[name])}}
    if place == "concurrency_groups":
        return {"jobs": {"a": job}, "concurrency_groups": SDict([(name, {"max": 2})])}
    return {"jobs": {"a": dict(job, concurrency_groups=[name])}}


@harness(
    "C30",
    params={p: p for p in PLACES},
    bounds="every text of 0 to 66 characters (any characters of any script, control characters and line ends included) as a name",
    stubs=FILES, cron_stub=True, covers=["accepted", "refused"],
)
def name_texts(ctx, place):
    w = W.World(ctx, start_us=START)
    name = ctx.str("name", maxlen=66)
    c = load(ctx, w, {"dsari.json": with_name(place, name)})
    valid = And(in_re(name, r"[A-Za-z0-9 _+.:@-]+"), (name.len() if isinstance(name, SymStr) else len(name)) <= 64, name != ".", name != "..")
    if c is None:
        ctx.cover("refused")
        ctx.prove(Not(valid), "a valid name is accepted")
        return
    ctx.cover("accepted")
    ctx.prove(valid, "only valid names are accepted")
    got = {
        "jobs": lambda: list(c.jobs), "job_names": lambda: list(c.jobs),
        "job_groups": lambda: [j.job_group for j in c.jobs.values()],
        "concurrency_groups": lambda: list(c.concurrency_groups),
        "job's groups": lambda: [g.name for g in c.jobs["a"].concurrency_groups],
    }[place]()
    ctx.prove(len(got) == 1, "the name is taken as given")
    ctx.prove(got[0] == name, "the name is taken as given")


@harness(
    "C30",
    params={p: p for p in PLACES},
    bounds="a name of any 1 to 3 characters (any character of any script, white space, dots), alone or around 60 to 66 letters (thorough: up to 4 characters)",
    stubs=FILES, cron_stub=True, covers=["accepted", "refused", "long"],
)
def name_characters(ctx, place):
    w = W.World(ctx, start_us=START)
    top = 0x10FFFF
    lead, tail = ctx.choice("around", [(0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (1, 2)] + ([(2, 2), (0, 3)] if core.TIER == "thorough" else []))
    fill = "a" * ctx.choice("letters", [0, 60, 62, 63, 64, 66])
    cs = [ctx.int("ch{}".format(i), 0, top) for i in range(lead + tail)]
    for c in cs:
        ctx.assume(Or(c < 0xD800, c > 0xDFFF))
    ps = [("u", c.e) if isinstance(c, SymInt) else ("c", chr(c)) for c in cs]
    name = mkstr(ps[:lead] + [("c", fill)] + ps[lead:])
    n = lead + tail + len(fill)
    c = load(ctx, w, {"dsari.json": with_name(place, name)})
    good = lambda x: Or(*[And(x >= ord(a), x <= ord(b)) for a, b in ("AZ", "az", "09", "__", "++", "..", "::", "@@", "--", "  ")])
    dots = And(*[x == ord(".") for x in cs]) if not fill and n <= 2 else False
    valid = And(n <= 64, Not(dots), *[good(x) for x in cs])
    if c is None:
        ctx.cover("refused")
        ctx.prove(Not(valid), "a valid name is accepted")
        return
    ctx.cover("accepted")
    if n > 60:
        ctx.cover("long")
    ctx.prove(valid, "only valid names are accepted")


ODD = {
    "null": None, "true": True, "int": 5, "float": 1.5, "date": datetime.date(2020, 1, 2), "bytes": b"a",
    "list": ["a"], "dict": {"a": 1}, "nested": [["a"]], "emptylist": [], "tuple": ("a", "b"),
}


@harness(
    "C30",
    params={p: p for p in PLACES},
    bounds="a name of any other type than text",
    stubs=FILES, cron_stub=True, covers=["refused"],
)
def name_types(ctx, place):
    w = W.World(ctx, start_us=START)
    keys = place in ("jobs", "job_groups", "concurrency_groups")
    kinds = [k for k in ODD if not keys or k not in ("list", "dict", "nested", "emptylist")]
    kind = ctx.choice("kind", kinds)
    name = ODD[kind]
    if kind in ("int", "float"):
        name = ctx.int("number", -(10**20), 10**20) if kind == "int" else ctx.real("number", -(10**9), 10**9)
        if keys:
            name = {"int": 5, "float": 1.5}[kind]
    c = load(ctx, w, {"dsari.yaml": with_name(place, name)})
    ctx.prove(c is None, "a name of another type is refused as a configuration error", kind)
    ctx.cover("refused")


# -- C31 ---------------------------------------------------------------------------------


def merged(s, m):
    """The documented merge of two mappings."""
    out = dict(s)
    for k, v in m.items():
        if isinstance(v, dict) and isinstance(out.get(k), dict):
            out[k] = merged(out[k], v)
        else:
            out[k] = v
    return out


def content(ctx, i, kind):
    """What one configuration file may say; values symbolic."""
    v = ctx.str("value_{}".format(i), maxlen=4, chars="a-z")
    n = ctx.int("number_{}".format(i), 1, 10**6)
    return {
        "env x": {"environment": {"X": v}},
        "env y": {"environment": {"Y": v, "X": n}, "report_html_gz": True},
        "job env": {"jobs": {"a": {"command": ["c{}".format(i), v], "environment": {"X": v}, "schedule": "1 2 3 4 {}".format(i)}}, "template_dir": v},
        "job limit": {"jobs": {"a": {"max_execution": n, "command": [v]}}, "environment": {}},
        "other job": {"jobs": {"b": {"command": [v], "concurrency_groups": ["g"]}}, "concurrency_groups": {"g": {"max": n}}},
        "groups": {"concurrency_groups": {"g": {"max": n}, "h": {}}, "report_run_output_end": n},
        "list": {"jobs": {"a": {"concurrency_groups": ["l{}".format(i)]}}, "data_dir": v},
        "job group": {"job_groups": {"t": {"command": [v], "job_names": ["t{}".format(i)], "environment": {"T": v}}}},
        "clobber": {"environment": n},
        "unset": {"jobs": {"a": dict({"schedule": None, "command": ["u"]}, **({"environment": None} if kind == "unset" and ctx.choice("no environment", [False, True]) else {}))}},
    }[kind]


def dump(c):
    """The observable effect of a configuration."""
    return {
        "environment": c.environment, "report_html_gz": c.report_html_gz, "data_dir": c.data_dir, "template_dir": c.template_dir,
        "report_run_output_end": c.report_run_output_end,
        "groups": {k: g.max for k, g in c.concurrency_groups.items()},
        "jobs": {
            k: {
                "command": j.command, "environment": j.environment, "max_execution": j.max_execution, "schedule": j.schedule,
                "groups": [g.name for g in j.concurrency_groups], "job_group": j.job_group,
            }
            for k, j in c.jobs.items()
        },
    }


def expected(m):
    """The same from a merged configuration, as documented."""
    from vt.sym import to_str_pieces, mkstr

    def env(e):
        return {} if e is None else {k: v if isinstance(v, str) else (mkstr(to_str_pieces(v)) if isinstance(v, Sym) else str(v)) for k, v in e.items()}

    jobs = dict(m.get("jobs", {}))
    for n, t in m.get("job_groups", {}).items():
        for j in t["job_names"]:
            jobs[j] = dict({k: v for k, v in t.items() if k != "job_names"}, job_group=n)
    groups = {k: g.get("max", 1) for k, g in m.get("concurrency_groups", {}).items()}
    for j in jobs.values():
        for g in j.get("concurrency_groups", []):
            groups.setdefault(g, 1)
    return {
        "environment": env(m.get("environment", {})), "report_html_gz": m.get("report_html_gz", False),
        "data_dir": m.get("data_dir"), "template_dir": m.get("template_dir"), "report_run_output_end": m.get("report_run_output_end", 0),
        "groups": groups,
        "jobs": {
            k: {
                "command": j.get("command"), "environment": env(j.get("environment", {})),
                "max_execution": j.get("max_execution"), "schedule": j.get("schedule"), "groups": j.get("concurrency_groups", []),
                "job_group": j.get("job_group"),
            }
            for k, j in jobs.items()
        },
    }


def same_config(ctx, got, want, label):
    got, want = dict(got), dict(want)
    if want["data_dir"] is None:
        want["data_dir"] = got["data_dir"]
    ctx.prove(set(got["jobs"]) == set(want["jobs"]), label)
    for k, j in want["jobs"].items():
        g = dict(got["jobs"][k])
        a, b = g.pop("max_execution"), j.pop("max_execution")
        ctx.prove((a is None) == (b is None), label)
        if a is not None:
            ctx.prove(td_us_of(a) == b * SEC, label)
        same_value(ctx, g, j, label)
    del got["jobs"], want["jobs"]
    same_value(ctx, got, want, label)


KINDS = ["env x", "env y", "job env", "job limit", "other job", "groups", "list", "job group", "clobber", "unset"]


@harness(
    "C31",
    params={"main": 0, "directory": 1, "mixed": 2, "moved": 3},
    bounds="three configuration files of all places (dsari.yaml, dsari.json, several *.yaml and *.json files of config_d, or of another directory named as config_d), each absent or with one of 10 kinds of contents (scalars, nulls, lists and mappings up to depth 4), all texts (up to 4 characters) and numbers symbolic, listed by the directory in any order; further files of other names, unreadable ones and directories",
    stubs=FILES, cron_stub=True, covers=["overridden", "refused"],
)
def merge(ctx, where):
    w = W.World(ctx, start_us=START)
    d = "/vworld/etc/config.d/"
    files = {
        0: ["/vworld/etc/dsari.yaml", "/vworld/etc/dsari.json", d + "a.yaml"],
        1: [d + "B.yaml", d + "a.yaml", d + "10.json"],
        2: ["/vworld/etc/dsari.json", d + "9.yaml", d + "10.json"],
        3: ["/vworld/etc/dsari.yaml", "/vworld/more/z.yaml", "/vworld/more/a.json"],
    }[where]
    m = {}
    deep = core.TIER == "thorough"
    puts = []
    for i, f in enumerate(files):
        kinds = KINDS if deep or i < 2 else ["env y", "job limit"]
        k = ctx.choice("content_{}".format(i), kinds + ([None] if where != 3 or i else []))
        if k is None:
            continue
        data = content(ctx, i, k)
        if where == 3 and i == 0:
            data = dict(data, config_d="/vworld/more")
        puts.append((f, data))
        m = merged(m, data)
    if where:
        # the directory lists its files in any order
        up = ctx.choice("order", [1, -1])
        w.list_order = lambda names: names[::up]
    for f, data in puts:
        w.put(f, data, fmt=f.rsplit(".", 1)[1])
    # none of these is a configuration file (or it cannot be read)
    junk = {"environment": {"JUNK": 1}, "jobs": {"junk": {"command": ["x"]}}}
    base = "/vworld/more/" if where == 3 else d
    for f in ("a.yaml.bak", "json", ".json.swp", "a.yml"):
        w.put(base + f, junk, fmt="json")
    if where == 3:
        w.put(d + "a.json", junk, fmt="json")
    w.dirs.add(base + "dir.json")
    w.put(base + "secret.json", junk, fmt="json")
    w.fs[base + "secret.json"].error = "open"
    w.put("/vworld/etc/other.json", junk, fmt="json")
    ok = isinstance(m.get("environment", {}), dict)
    want = expected(m if ok else dict(m, environment={}))
    ok = ok and all(j["command"] is not None for j in want["jobs"].values())
    ok = ok and all(j.get("environment", {}) is not None for j in m.get("jobs", {}).values())
    c = load(ctx, w)
    if c is None:
        ctx.cover("refused")
        ctx.prove(not ok, "a valid merged configuration is accepted")
        return
    ctx.prove(ok, "a job without command is refused")
    if len(puts) > 1:
        ctx.cover("overridden")
    same_config(ctx, dump(c), want, "the effective configuration is the documented merge")


ANCHORED = {
    "jobs": lambda j, e: ({"jobs": {"a": j, "b": j}}, {"jobs": {"a": {"environment": {"X": "2"}, "schedule": "1 2 3 4 5"}}}),
    "jobs, the other": lambda j, e: ({"jobs": {"a": j, "b": j, "c": j}}, {"jobs": {"b": {"command": ["own"], "environment": {"Y": "2"}}}}),
    "environments": lambda j, e: ({"environment": e, "jobs": {"a": dict(j, environment=e), "b": dict(j, environment=e)}}, {"jobs": {"b": {"environment": {"X": "2"}}}}),
    "global": lambda j, e: ({"environment": e, "jobs": {"a": dict(j, environment=e)}}, {"environment": {"X": "2", "Z": "3"}}),
    "groups": lambda j, e: ({"job_groups": {"s": dict(j, job_names=["p"]), "t": dict(j, job_names=["q"], environment=e)}, "environment": e}, {"job_groups": {"t": {"environment": {"X": "2"}}}}),
    "limits": lambda j, e: ({"jobs": {"a": dict(j, concurrency_groups=["g", "h"])}, "concurrency_groups": dict.fromkeys("gh", {"max": 2})}, {"concurrency_groups": {"g": {"max": 5}}}),
}


@harness(
    "C31",
    bounds="a YAML file in which jobs, environments, job groups or limits are given once and referred to elsewhere (anchors and aliases), then a file which overrides part of one of them: in the directory, as JSON or YAML; texts up to 4 characters",
    stubs=FILES, cron_stub=True,
)
def anchors(ctx):
    w = W.World(ctx, start_us=START)
    v = ctx.str("value", maxlen=4, chars="a-z")
    e = {"X": v, "Y": "1"}
    j = {"command": ["c", v], "environment": e, "concurrency_groups": ["g"]}
    first, then = ANCHORED[ctx.choice("shared", list(ANCHORED))](j, e)
    fmt = ctx.choice("format", ["yaml", "json"])
    w.put("/vworld/etc/dsari.yaml", first, fmt="yaml")
    w.put("/vworld/etc/config.d/a." + fmt, then, fmt=fmt)
    want = expected(merged(first, then))
    c = load(ctx, w)
    ctx.prove(c is not None, "a valid merged configuration is accepted")
    same_config(ctx, dump(c), want, "the effective configuration is the documented merge")


# -- C32 ---------------------------------------------------------------------------------

BOOL, NUM = ("true", "false"), ("int", "float")
TOP = {
    "data_dir": ("str",), "template_dir": ("str",), "report_html_gz": BOOL, "report_run_output_start": ("int",),
    "report_run_output_end": ("int",), "shutdown_kill_runs": BOOL, "shutdown_kill_grace": NUM,
    "environment": ("dict", "emptydict"), "database": ("db", "dbfile", "dict", "emptydict"),
}
JOB = {
    "command": ("list", "str"), "schedule": ("null", "str"), "schedule_timezone": ("zone",), "max_execution": NUM,
    "max_execution_grace": NUM, "environment": ("dict", "emptydict"), "render_reports": BOOL,
    "command_append_run": BOOL, "jenkins_environment": BOOL, "job_group": ("str",), "concurrent_runs": BOOL,
    "concurrency_groups": ("list", "emptylist"),
}
GROUP = {"max": ("int",)}
ALL = ("str", "int", "float", "null", "true", "false", "list", "dict", "emptydict", "emptylist", "date", "nan", "inf", "bytes", "set")
DEFAULT_NULL = ("template_dir", "shutdown_kill_grace", "max_execution", "schedule", "job_group")
TD = ("shutdown_kill_grace", "max_execution", "max_execution_grace")


def some(ctx, kind, big=10**30):
    return {
        "str": lambda: ctx.str("text", maxlen=4, minlen=1, chars="a-z"), "int": lambda: ctx.int("int", -big, big),
        "float": lambda: ctx.real("float", -big, big), "null": lambda: None, "true": lambda: True,
        "false": lambda: False, "list": lambda: [ctx.str("item", maxlen=4, minlen=1, chars="a-z")],
        "dict": lambda: {"K": ctx.str("item", maxlen=4, chars="a-z")}, "emptydict": lambda: {}, "emptylist": lambda: [],
        "date": lambda: datetime.date(2020, 1, 2), "nan": lambda: float("nan"), "inf": lambda: float("inf"),
        "bytes": lambda: b"a", "set": lambda: {"a"}, "zone": lambda: "Zone/A",
        "db": lambda: {"type": "sqlite3", "file": "/vworld/x.sqlite3"}, "dbfile": lambda: {"file": "/vworld/x.sqlite3"},
    }[kind]()


@harness(
    "C32",
    params={"top": TOP, "job": JOB, "concurrency group": GROUP},
    bounds="one option of every documented kind at its place with a value of every YAML type: numbers of any size up to 1e30, NaN and infinity, texts, lists and mappings, dates, bytes, sets",
    stubs=FILES, cron_stub=True, covers=["accepted", "refused"],
)
def option_types(ctx, table):
    w = W.World(ctx, start_us=START)
    w.zones = {"Zone/A": (3600 * SEC,)}
    o = ctx.choice("option", sorted(table))
    kinds = [k for k in ALL if k not in table[o]] + list(table[o])
    k = ctx.choice("kind", kinds)
    v = some(ctx, k)
    if k == "str" and o == "schedule":
        v = "1 2 3 4 5"
    if k == "str" and o == "schedule_timezone":
        v = "No/Such_Zone"
    place = next(n for n, t in (("top", TOP), ("job", JOB), ("group", GROUP)) if t is table)
    if place == "job" and ctx.choice("in a group", [False, True]):
        place = "job group"
    conf = {"jobs": {"a": {"command": ["x"]}}}
    if place == "top":
        conf[o] = v
    elif place == "job":
        conf["jobs"]["a"][o] = v
    elif place == "job group":
        conf["job_groups"] = {"t": {"job_names": ["b"], "command": ["x"], o: v}}
    else:
        conf["concurrency_groups"] = {"g": {o: v}}
    c = load(ctx, w, {"dsari.yaml": conf})
    allowed = k in table[o]
    if place == "job group" and o == "job_group":
        allowed = None  # replaced by the group's name in any case
    if o in DEFAULT_NULL and k == "null" and o != "schedule":
        allowed = None  # the documented default
    if o == "schedule_timezone" and k == "str":
        allowed = False
    if o in TD and k in NUM:
        # anything reasonable must be accepted; what no time can be computed with need not
        allowed = ctx.decide(And(v >= -(10**9), v <= 10**9)) or None
    if c is None:
        ctx.cover("refused")
        ctx.prove(not allowed, "an allowed value is accepted", "{} {}".format(o, k))
        return
    ctx.cover("accepted")
    ctx.prove(allowed is not False, "a value of another type is refused", "{} {}".format(o, k))
    if allowed is None:
        return
    obj = {"top": lambda: c, "job": lambda: c.jobs["a"], "job group": lambda: c.jobs["b"], "group": lambda: c.concurrency_groups["g"]}[place]()
    got = getattr(obj, o)
    label = "an allowed value takes effect as given"
    if o in TD:
        want = v * SEC
        if k == "int":
            ctx.prove(td_us_of(got) == want, label, o)
        else:
            ctx.prove(And(td_us_of(got) - want <= 1, want - td_us_of(got) <= 1), label, o)
    elif o == "concurrency_groups":
        ctx.prove(len(got) == len(v), label, o)
        for g, n in zip(got, v):
            ctx.prove(g.name == n, label, o)
    elif o == "schedule_timezone":
        from dsari.utils import dtnow

        ctx.prove(td_us_of(dtnow(got).utcoffset()) == 3600 * SEC, label, o)
    elif o == "command" and k == "str":
        ctx.prove(len(got) == 1 and got[0] == v, label, o)
    elif o == "database":
        for kk, vv in v.items():
            ctx.prove(got[kk] == vv, label, o)
    else:
        same_value(ctx, got, v, label)


@harness(
    "C32",
    bounds="a minimal configuration, and one with unknown options of any type at every place (names any text of 1-8 lower-case letters which is no documented option)",
    stubs=FILES, cron_stub=True, covers=["unknown"],
)
def defaults(ctx):
    w = W.World(ctx, start_us=START)
    ctx.set_local_offset()
    conf = {"jobs": {"a": {"command": ["x"]}}, "concurrency_groups": {"g": {}}}
    if ctx.decide(ctx.bool("with_unknown")):
        ctx.cover("unknown")
        n = ctx.str("name", maxlen=8, minlen=1, chars="a-z")
        known = [x for t in (TOP, JOB, GROUP) for x in t if len(x) <= 8 and x.isalpha()] + ["jobs"]
        ctx.assume(And(*[n != x for x in known]))
        v = some(ctx, ctx.choice("kind", ALL))
        place = ctx.choice("place", ["top", "job", "group"])
        at = {"top": conf, "job": conf["jobs"]["a"], "group": conf["concurrency_groups"]["g"]}[place]
        new = SDict(list(at.items()) + [(n, v)])
        if place == "top":
            conf = new
        elif place == "job":
            conf["jobs"]["a"] = new
        else:
            conf["concurrency_groups"]["g"] = new
    c = load(ctx, w, {"dsari.yaml": conf})
    ctx.prove(c is not None, "unknown options are ignored")
    j = c.jobs["a"]
    label = "absent options have the documented defaults"
    want = {
        "template_dir": None, "report_html_gz": False, "report_run_output_start": 0, "report_run_output_end": 0,
        "shutdown_kill_runs": False, "shutdown_kill_grace": None, "environment": {},
    }
    for k, v in want.items():
        ctx.prove(getattr(c, k) == v if v is not None else getattr(c, k) is None, label, k)
    ctx.prove(isinstance(c.data_dir, str), label)
    ctx.prove(c.database["type"] == "sqlite3" and c.database.get("file") is None, label)
    want = {
        "command": ["x"], "schedule": None, "concurrency_groups": [], "max_execution": None, "environment": {},
        "render_reports": True, "command_append_run": False, "jenkins_environment": False, "job_group": None,
        "concurrent_runs": False, "max_execution_grace": datetime.timedelta(seconds=60),
    }
    for k, v in want.items():
        ctx.prove(getattr(j, k) == v if v is not None else getattr(j, k) is None, label, k)
    ctx.prove(c.concurrency_groups["g"].max == 1, label)
    ctx.prove(set(c.jobs) == {"a"} and set(c.concurrency_groups) == {"g"}, label)


SPOTS = ("file", "later file", "jobs", "job_groups", "concurrency_groups", "a job", "a job group", "a group", "job_names", "groups of a job", "config_d")


@harness(
    "C32",
    params={"shape": 0, "text": 1},
    bounds="a value of every YAML type where a mapping or a list is expected (the whole file, every section, every definition, lists of names); a list of malformed texts as dsari.yaml, dsari.json or a file of config_d",
    stubs=FILES, cron_stub=True, covers=["refused"],
)
def malformed(ctx, text):
    from .triggers import JUNK

    w = W.World(ctx, start_us=START)
    ok = {"jobs": {"a": {"command": ["x"]}}}
    if text:
        j = JUNK[ctx.choice("junk", sorted(JUNK))]
        f = ctx.choice("file", ["dsari.yaml", "dsari.json", "config.d/x.yaml", "config.d/x.json"])
        w.put(ETC + "/" + ("dsari.json" if f.startswith("config.d") else "config.d/y.json"), ok, fmt="json")
        c = load(ctx, w, {f: j}, raw=True)
        if c is None:
            ctx.cover("refused")
        elif f.endswith("json"):
            ctx.prove(j in (JUNK["surrogate"], JUNK["nan"], JUNK["inf"]), "malformed JSON is refused", j)
        return
    spot = ctx.choice("spot", SPOTS)
    lists = spot in ("job_names", "groups of a job")
    kinds = [k for k in ALL if k not in (("list", "emptylist") if lists else ("dict", "emptydict"))]
    if spot == "config_d":
        kinds = ["int", "float", "true", "list", "dict", "date", "nan"]
    k = ctx.choice("kind", kinds)
    v = some(ctx, k)
    if spot in ("file", "later file"):
        files = {"dsari.yaml": v} if spot == "file" else {"dsari.json": ok, "config.d/x.yaml": v}
    else:
        job = {"command": ["x"]}
        conf = {
            "jobs": {"jobs": v}, "job_groups": {"job_groups": v}, "concurrency_groups": {"concurrency_groups": v},
            "a job": {"jobs": {"a": v}}, "a job group": {"job_groups": {"t": v}},
            "a group": {"concurrency_groups": {"g": v}},
            "job_names": {"job_groups": {"t": dict(job, job_names=v)}},
            "groups of a job": {"jobs": {"a": dict(job, concurrency_groups=v)}}, "config_d": {"config_d": v},
        }[spot]
        files = {"dsari.yaml": conf}
    c = load(ctx, w, files)
    if c is None:
        ctx.cover("refused")
        return
    # nothing at all where something may be left out is not malformed
    empty = ("null",) + (("emptydict", "emptylist") if not lists else ())
    ctx.prove(k in empty or spot in ("config_d",) and k in ("int", "float"), "a malformed configuration is refused", "{} {}".format(spot, k))


# -- C33 ---------------------------------------------------------------------------------


def job_state(j):
    return {
        "command": j.command, "schedule": j.schedule, "max_execution": j.max_execution,
        "max_execution_grace": j.max_execution_grace, "environment": j.environment,
        "render_reports": j.render_reports, "command_append_run": j.command_append_run,
        "jenkins_environment": j.jenkins_environment, "job_group": j.job_group,
        "concurrent_runs": j.concurrent_runs, "groups": [g.name for g in j.concurrency_groups],
    }


def same_job(ctx, a, b, label):
    x, y = job_state(a), job_state(b)
    for f in ("max_execution", "max_execution_grace"):
        p, q = x.pop(f), y.pop(f)
        ctx.prove((p is None) == (q is None), label)
        if p is not None:
            ctx.prove(td_us_of(p) == td_us_of(q), label)
    same_value(ctx, x, y, label)
    from dsari.utils import dtnow

    ctx.prove(td_us_of(dtnow(a.schedule_timezone).utcoffset()) == td_us_of(dtnow(b.schedule_timezone).utcoffset()), label)


@harness(
    "C33",
    bounds="a job group of 0 to 3 names (any texts of up to 3 valid characters, equal or not) with a symbolic command and up to two further options of any kind with symbolic values, next to a job and a second group, compared with the configuration written out",
    stubs=FILES, cron_stub=True, covers=["two", "same name"],
)
def job_group(ctx):
    w = W.World(ctx, start_us=START)
    w.zones = {"Zone/A": (3600 * SEC,)}
    ctx.set_local_offset()
    n = ctx.choice("names", [0, 1, 2, 3])
    names = [ctx.str("name_{}".format(i), maxlen=3, minlen=1, chars="a-z") for i in range(n)]
    if n == 3 and core.TIER != "thorough":
        names[1:] = ["n1", "n2"]
    opts = {"command": ["cmd", ctx.str("arg", maxlen=4, chars="a-z")]}
    deep = core.TIER == "thorough"
    for i in range(2 if n == 1 or deep else 1):
        o = ctx.choice("option_{}".format(i), [None] + [x for x in sorted(JOB) if x not in ("command", "job_group")])
        if o is not None and o not in opts:
            k = ctx.choice("kind_{}".format(i), list(JOB[o]))
            v = some(ctx, k, 10**6)
            opts[o] = "1 2 3 4 5" if k == "str" and o == "schedule" else v
    other = {"plain job": {"command": ["p"], "environment": {"P": "1"}}}
    second = {"command": ["q"], "job_names": ["second job"], "environment": {"Q": "1"}}
    groups = {"grp": dict(opts, job_names=names), "grp2": second}
    if n == 1:
        odd = ctx.choice("own job_group", [None, "grp2", 5])
        if odd is not None:
            groups["grp"]["job_group"] = odd
    import copy

    c1 = load(ctx, w, {"dsari.json": {"jobs": SDict(list(other.items())), "job_groups": copy.deepcopy(groups)}})
    jobs = SDict(list(other.items()))
    for x in names:
        jobs[x] = dict(copy.deepcopy(opts), job_group="grp")
    jobs["second job"] = {"command": ["q"], "environment": {"Q": "1"}, "job_group": "grp2"}
    c2 = load(ctx, w, {"dsari.json": {"jobs": jobs}})
    label = "a job group equals its jobs written out"
    ctx.prove((c1 is None) == (c2 is None), label)
    if c1 is None:
        return
    ctx.prove(len(c1.jobs) == len(c2.jobs), label)
    if n > 1:
        ctx.cover("same name" if len(c2.jobs) < 2 + n else "two")
    for x in ["plain job", "second job"] + names:
        ctx.prove(x in c1.jobs, label)
        same_job(ctx, c1.jobs[x], c2.jobs[x], label)
        ctx.prove(c1.jobs[x].name == x, label)
    ctx.prove(len(c1.concurrency_groups) == len(c2.concurrency_groups), label)
    for g in c1.concurrency_groups:
        ctx.prove(g in c2.concurrency_groups, label)
    # and they share nothing which can be changed
    mine = [c1.jobs[x] for x in names]
    label = "jobs of a group share no mutable state"
    for i, a in enumerate(mine):
        for b in mine[i + 1 :]:
            if a is b:
                continue
            for f in ("command", "environment", "concurrency_groups"):
                p, q = getattr(a, f), getattr(b, f)
                ctx.prove(p is not q or isinstance(p, tuple), label)


@harness(
    "C33",
    bounds="a job defined by itself and by a job group, or by two groups, each definition with any one option of any kind with symbolic values",
    stubs=FILES, cron_stub=True,
)
def defined_twice(ctx):
    import copy

    w = W.World(ctx, start_us=START)
    w.zones = {"Zone/A": (3600 * SEC,)}
    ctx.set_local_offset()
    defs = []
    for i in range(2):
        d = {"command": ["cmd{}".format(i)]}
        o = ctx.choice("option_{}".format(i), [None] + [x for x in sorted(JOB) if x not in ("command", "job_group", "schedule_timezone")])
        if o is not None:
            k = ctx.choice("kind_{}".format(i), list(JOB[o])[: None if core.TIER == "thorough" else 1])
            d[o] = "1 2 3 4 5" if k == "str" and o == "schedule" else some(ctx, k, 10**6)
        defs.append(d)

    def groups(*ds):
        return {"grp{}".format(i): dict(copy.deepcopy(d), job_names=["a", "b"]) for i, d in ds}

    own = ctx.choice("own", [True, False])
    if own:
        cfg = {"jobs": {"a": copy.deepcopy(defs[0])}, "job_groups": groups((1, defs[1]))}
        alone = [{"jobs": {"a": copy.deepcopy(defs[0])}}, {"job_groups": groups((1, defs[1]))}]
    else:
        cfg = {"job_groups": groups((0, defs[0]), (1, defs[1]))}
        alone = [{"job_groups": groups((i, defs[i]))} for i in (0, 1)]
    c = load(ctx, w, {"dsari.json": cfg})
    if c is None:
        return
    label = "a job which is defined twice is as one of the definitions says"
    names = ["a"] if own else ["a", "b"]
    for x in names:
        got = c.jobs[x]
        i = [list(d["command"]) for d in defs].index(list(got.command))
        one = load(ctx, w, {"dsari.json": alone[i]})
        ctx.prove(one is not None, label)
        same_job(ctx, got, one.jobs[x], label)


# -- C35 ---------------------------------------------------------------------------------


# numbers and the texts they may appear as
NUMBERS = {
    0: ["0"], -1: ["-1"], 12345678: ["12345678"], 1000000: ["1000000"], -(2**63): ["-9223372036854775808"],
    2**70: ["1180591620717411303424"], 1.5: ["1.5"], 0.1: ["0.1"], 123456.789: ["123456.789"], 1234567.0: ["1234567.0"],
    1e15: ["1000000000000000.0"], 1 / 3: ["0.3333333333333333"], 1e-7: ["1e-07"], 1e22: ["1e+22"], -2.5e-5: ["-2.5e-05"],
}


@harness(
    "C35",
    params={"global": 0, "job": 1, "job group": 2, "trigger": 3},
    bounds="an environment of two entries: names any text of 1-6 characters or of another type, values of every YAML type (integers up to 1e30, numbers up to 1e15, texts of any characters up to 4; 15 numbers whose usual text is long or has an exponent), one of them ordinary",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused"],
)
def environment(ctx, place):
    from .child import num

    key = ctx.choice("name_kind", ["str"] + ([] if place == 3 else ["int", "null", "true", "date", "float"]))
    n = {"int": 5, "null": None, "true": True, "date": datetime.date(2020, 1, 2), "float": 1.5}.get(key)
    if key == "str":
        n = ctx.str("name", maxlen=6, minlen=1)
        # names which no process environment can have
        ctx.assume(And(n != "PWD", Not(in_re(n, "(?s:.*[=\\x00].*)")), n != "OTHER"))
    k = ctx.choice("value_kind", ["number"] + [x for x in ALL if place != 3 or x not in ("date", "bytes", "set")])
    v = ctx.choice("number", list(NUMBERS)) if k == "number" else some(ctx, k)
    if k == "str":
        v = ctx.str("value", maxlen=4)
        ctx.assume(Not(in_re(v, "(?s:.*\\x00.*)")))
    if k == "float":
        ctx.assume(And(v > -(10**15), v < 10**15))
    env = SDict([("OTHER", ctx.str("other", maxlen=4, chars="a-z")), (n, v)])
    conf = {"jobs": {"a": {"command": ["x"]}}}
    if place == 0:
        conf["environment"] = env
    elif place == 1:
        conf["jobs"]["a"]["environment"] = env
    elif place == 2:
        conf = {"job_groups": {"t": {"command": ["x"], "job_names": ["a"], "environment": env}}}
    want = key == "str" and k in ("str", "int", "float", "nan", "inf", "number")
    if place == 3:
        if k in ("nan", "inf"):
            return
        conf["data_dir"] = DATA
        s = Sim(ctx, conf, start_us=START)
        s.trigger("a", {"environment": env})
        s.w.fork_mode = "child"
        s.start()
        try:
            s.loop(1)
        except W.ExecDone:
            pass
        got = None if s.w.exec_record is None else s.w.exec_record[2]
    else:
        w = W.World(ctx, start_us=START)
        c = load(ctx, w, {"dsari.yaml": conf})
        got = None if c is None else c.environment if place == 0 else c.jobs["a"].environment
    if got is None:
        ctx.cover("refused")
        ctx.prove(not want, "an environment of texts and numbers is accepted", "{} {}".format(key, k))
        return
    ctx.cover("accepted")
    ctx.prove(want, "another environment is refused", "{} {}".format(key, k))
    if place != 3:
        ctx.prove(len(got) == 2, "exactly the configured names are defined")
    ctx.prove("OTHER" in got, "exactly the configured names are defined")
    g = None
    for kk in list(got.keys()):
        if ctx.decide(kk == n):
            g = got[kk]
    ctx.prove(g is not None, "exactly the configured names are defined")
    ctx.prove(isinstance(g, str), "every value is text")
    ctx.prove(got["OTHER"] == env["OTHER"], "texts are taken as they are")
    if k == "str":
        ctx.prove(g == v, "texts are taken as they are")
    elif k == "int":
        from .child import mktext

        ctx.prove(g == mktext(v), "numbers appear in decimal form")
    elif k == "number":
        ctx.prove(g in NUMBERS[v], "numbers appear in decimal form", "{} {}".format(v, g))
    elif k == "float":
        ctx.prove(ctx.eq_real(num(ctx, g) * 1.0, v * 1.0), "numbers appear in decimal form")


# -- C36 ---------------------------------------------------------------------------------


@harness(
    "C36",
    bounds="2 jobs and a job of a group, each listing up to two (thorough: three) groups with any names of up to 3 characters (equal or not), one or two groups defined with any maximum or none",
    stubs=FILES, cron_stub=True, covers=["shared", "defined", "undefined"],
)
def groups(ctx):
    w = W.World(ctx, start_us=START)
    deep = core.TIER == "thorough"
    names = [ctx.str("group_{}".format(i), maxlen=3, minlen=1, chars="a-z") for i in range(4 if deep else 3)]
    d = ctx.str("defined", maxlen=3, minlen=1, chars="a-z")
    m = ctx.int("max", -5, 10**6)
    has_max = ctx.decide(ctx.bool("has_max"))
    lists = {"a": names[: ctx.choice("n_a", [0, 1, 2])], "b": names[2:], "c": ["fix", names[0]]}
    conf = {
        "jobs": {j: {"command": ["x"], "concurrency_groups": list(lists[j])} for j in "ab"},
        "job_groups": {"t": {"job_names": ["c"], "command": ["x"], "concurrency_groups": list(lists["c"])}},
        "concurrency_groups": SDict([(d, {"max": m} if has_max else {}), ("unused", {"max": 7})]),
    }
    c = load(ctx, w, {"dsari.json": conf})
    ctx.prove(c is not None, "any assignment of groups is accepted")
    objs = []
    for j in "abc":
        got = c.jobs[j].concurrency_groups
        for n in lists[j]:
            hit = [g for g in got if ctx.decide(g.name == n)]
            ctx.prove(len(hit) >= 1, "each job belongs to exactly the groups it lists")
            objs.append((n, hit[0]))
        for g in got:
            ctx.prove(Or(*[g.name == n for n in lists[j]]), "each job belongs to exactly the groups it lists")
    for i, (n, g) in enumerate(objs):
        isdef = ctx.decide(n == d)
        ctx.cover("defined" if isdef else "undefined")
        ctx.prove(g.max == (m if isdef and has_max else 1), "a group has its own maximum, or one")
        for n2, g2 in objs[i + 1 :]:
            same = ctx.decide(n == n2)
            if same:
                ctx.cover("shared")
            ctx.prove((g is g2) == same, "jobs naming the same group share it")


NAMES_36 = ["g", "G", "g ", " g", "g.", "gg", "g1", "g-1", "1", "01"]


@harness(
    "C36",
    bounds="two jobs, each in one or two groups of any of 10 names that differ in case, blanks or punctuation only, one of them (or another) defined with any limit",
    stubs=FILES, cron_stub=True, covers=["shared", "not shared"],
)
def group_names(ctx):
    w = W.World(ctx, start_us=START)
    a, b, d = ctx.choice("a", NAMES_36), ctx.choice("b", NAMES_36), ctx.choice("defined", NAMES_36[:4])
    m = ctx.int("max", -5, 10**6)
    conf = {
        "jobs": {"a": {"command": ["x"], "concurrency_groups": [a, "own"]}, "b": {"command": ["x"], "concurrency_groups": [b]}},
        "concurrency_groups": {d: {"max": m}},
    }
    c = load(ctx, w, {"dsari.json": conf})
    ctx.prove(c is not None, "any assignment of groups is accepted")
    ga, gb = c.jobs["a"].concurrency_groups, c.jobs["b"].concurrency_groups
    label = "each job belongs to exactly the groups it lists"
    ctx.prove(sorted(g.name for g in ga) == sorted([a, "own"]) and [g.name for g in gb] == [b], label)
    x = next(g for g in ga if g.name == a)
    for n, g in ((a, x), (b, gb[0])):
        ctx.prove(g.max == (m if n == d else 1), "a group has its own maximum, or one")
    ctx.cover("shared" if a == b else "not shared")
    ctx.prove((x is gb[0]) == (a == b), "jobs naming the same group share it")
    ctx.prove(set(c.concurrency_groups) == {a, b, d, "own"}, "exactly the named groups exist")


# -- C34 ---------------------------------------------------------------------------------

CRONS = [
    "* * * * *", "1 2 3 4 5", "H H * * *", "H/5 * * * *", "H(0-29)/10 H(9-16)/2 * * 1-5", "@daily", "@yearly", "@reboot", "@fortnight",
    "", " ", "x", "60 * * * *", "* * * *", "* * * * * *", "* * * * * * *", "0 0 1 1 * 0 2024", "H H 1 1 * H 2023-2030", "0 0 30 2 *",
    "H(5-1) * * * *", "H(0-0) * * * *", "H(70-80) * * * *", "H(50-70) * * * *", "H/0 * * * *", "H/100 * * * *", "0 0 L * *", "0 0 * * 5#2",
    "*/5  *  * * *", "1\t2 * * *", "H\tH * * *", " H H * * *", "H H * * * ", "R R(1-5) * * *", "R/20 * * * *", "h h * * *", "0 0 * * MON", "0-70 * * * *", "\n", "\u0665 * * * *",
    "0 0 * * * 0 1999",
]
RULES = [
    "RRULE:FREQ=DAILY", "rrule:freq=hourly;interval=2", "RRULE:FREQ=HOURLY;UNTIL=20231115T080000", "RRULE:FREQ=HOURLY;UNTIL=20231115T080000Z",
    "RRULE:FREQ=MINUTELY;UNTIL=20231115", "RRULE:FREQ=HOURLY;UNTIL=19991231T000000", "RRULE:", "RRULE:FREQ=NEVER", "RRULE:FREQ=DAILY;COUNT=2",
    "RRULE:FREQ=MONTHLY;BYDAY=MO,TU,WE,TH,FR;BYSETPOS=-1", "RRULE:FREQ=DAILY;INTERVAL=0", "RRULE:FREQ=HOURLY;INTERVAL=-1", "RRULE:FREQ=DAILY;BYHOUR=99",
    "RRULE:FREQ=DAILY;BYMONTH=2;BYMONTHDAY=30", "RRULE:FREQ=YEARLY;BYHOUR=14;UNTIL=20351231T000000",
]


def accepted(ctx, s):
    """Starts the daemon unless the configuration is refused."""
    import dsari.config

    try:
        s.start()
    except dsari.config.ConfigError:
        ctx.cover("refused")
        return False
    ctx.cover("accepted")
    return True


def alive(ctx, s, steps=3):
    """The daemon works through some looks without failing."""
    ctx.prove(not s.loop(steps), "the daemon keeps running")


@harness(
    "C34",
    params={"cron": 0, "rrule": 1},
    bounds="a list of schedule texts (valid, malformed, with years, with ends, with repeated separators, with hashed fields of any form), in the local zone or a named one with any offset; schedules which name years or an end may end before any evaluation of them (the one when the configuration is loaded, that when the first run is planned, or a later one); four looks an hour, five hours or 40 days apart",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused", "ended"],
    max_seconds=400,
)
def schedules(ctx, rules):
    texts = RULES if rules else CRONS
    t = ctx.choice("schedule", texts)
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"], "schedule": t}}}, start_us=START)
    w = s.w
    w.fixed_order = True
    w.cron_fixed = 3600 * SEC
    s.jump = ctx.choice("later", [3600, 5 * 3600, 40 * 86400]) * SEC
    s.max_idle = 9
    z = ctx.choice("zone", [None, 330, -570])
    if z is not None:
        w.zones = {"Zone/A": (z * 60 * SEC,)}
        s.config["jobs"]["a"]["schedule_timezone"] = "Zone/A"
        s.set_config(s.config)
    ends = rules and "BY" in t and "UNTIL" in t or not rules and len(t.split()) == 7
    if ends:
        w.cron_answers = ctx.int("answers", 0, 5)
    s.exits = lambda live: (live[0], 0)
    if not accepted(ctx, s):
        return
    if not ends:
        from dsari import utils

        def ask(schedule):
            try:
                utils.get_next_schedule_time(schedule, "a", start_time=ctx.dt_from_us(w.now))
                return True
            except (ValueError, OverflowError, TypeError, KeyError, AttributeError):
                return False

        good = ask(t) or not ask("0 0 * * *")  # (no such function in this form)
        ctx.prove(good, "an accepted schedule can be evaluated")
    alive(ctx, s, 4)
    if ends and ctx.decide(w.cron_answers <= w.cron_asked) or rules and "UNTIL=2023" in t:
        ctx.cover("ended")


@harness(
    "C34",
    params={"max_execution": "max_execution", "max_execution_grace": "max_execution_grace", "shutdown_kill_grace": "shutdown_kill_grace"},
    bounds="any number up to 1e30 (and NaN, infinities) as a time limit, with a run in progress (shut down for shutdown_kill_grace), three looks at arbitrary times",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused"],
)
def limits(ctx, option):
    k = ctx.choice("kind", ["int", "float", "nan", "inf"])
    v = some(ctx, k)
    job = {"command": ["x"]}
    conf = {"jobs": {"a": job}}
    if option == "max_execution":
        job[option] = v
    elif option == "max_execution_grace":
        job.update(max_execution=2, max_execution_grace=v)
    else:
        conf.update(shutdown_kill_runs=True, shutdown_kill_grace=v)
    ctx.date_range = True
    s = Sim(ctx, conf, start_us=START)
    s.max_idle = 9
    s.trigger("a", {"schedule_time": START // SEC - 1})
    if not accepted(ctx, s):
        return

    def step(n):
        if n == 1 and option == "shutdown_kill_grace":
            s.signal("TERM")

    s.env_step = step
    alive(ctx, s, 3)


@harness(
    "C34",
    bounds="a database section of every shape: type absent, sqlite3 or a value of any other YAML type, file absent, absolute, relative, without a directory, empty or a value of any type, unknown options; a data_dir which is absolute, relative or empty; a run started, finished and recorded",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused"],
)
def databases(ctx):
    s = Sim(ctx, {"jobs": {"a": {"command": ["x"]}}}, start_us=START)
    s.w.dirs.add("/vworld/cwd")
    s.w.cwd = "/vworld/cwd"
    other = ["int", "null", "true", "list", "dict", "date", "float"]
    d = {}
    t = ctx.choice("type", ["absent", "sqlite3"] + other)
    if t != "absent":
        d["type"] = t if t == "sqlite3" else some(ctx, t)
    if t in other and core.TIER != "thorough":
        other = []
    f = ctx.choice("file", ["absent", "/vworld/new/dir/x.sqlite3", "/vworld/x.sqlite3", "x.sqlite3", "sub/x.sqlite3"] + other)
    if f != "absent":
        d["file"] = some(ctx, f) if f in other else f
    if ctx.decide(ctx.bool("more")):
        d["unknown"] = 1
    s.config["database"] = d
    if t == "absent" and f == "absent":
        del s.config["database"]
        s.config["data_dir"] = ctx.choice("data_dir", ["/vworld/data", "/vworld/elsewhere/new", "var", "./x/y"])
    s.w.put("/vworld/etc/dsari.yaml", s.config, fmt="yaml")
    s.w.fs.pop("/vworld/etc/dsari.json")
    data = s.w.norm(s.config["data_dir"])
    s.w.put(data + "/trigger/a/trigger.json", {}, fmt="json")
    s.w.dirs.update({data, data + "/trigger", data + "/trigger/a"})
    s.max_idle = 9
    s.exit_any(limit=1)
    if not accepted(ctx, s):
        ctx.prove(t not in ("absent", "sqlite3") or f in other and f != "null", "a usable database is accepted")
        return
    alive(ctx, s, 3)
    ctx.prove(len(s.w.evs("fork")) == 1, "the run is started")


@harness(
    "C34",
    bounds="a command which is a text of up to 8 characters of any kind or a list of up to 2 values of any YAML type (texts up to 4 characters), with and without command_append_run; the run is started up to its exec",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused"],
)
def commands(ctx):
    shape = ctx.choice("shape", ["text", "list", "odd"])
    if shape == "text":
        c = ctx.choice("text", ["", " ", "x", "a b  c", "'a b' c", "'", "a\\", "# x", "\"\"", "a;b", "\n", "-x"])
    elif shape == "list":
        c = []
        for i in range(ctx.choice("n", [0, 1, 2])):
            k = ctx.choice("kind_{}".format(i), list(ALL) if i == 0 or core.TIER == "thorough" else ["str", "int", "null"])
            c.append(ctx.str("item_{}".format(i), maxlen=4, minlen=0) if k == "str" else some(ctx, k))
    else:
        c = some(ctx, ctx.choice("kind", [k for k in ALL if k not in ("list", "emptylist", "str")]))
    s = Sim(ctx, {"jobs": {"a": {"command": c, "command_append_run": ctx.choice("append", [False, True])}}}, start_us=START)
    s.w.put("/vworld/etc/dsari.yaml", s.config, fmt="yaml")
    s.w.fs.pop("/vworld/etc/dsari.json")
    s.trigger("a", {"schedule_time": START // SEC - 1})
    import dsari.config

    child = ctx.choice("side", ["child", "parent"])
    s.w.fork_mode = child
    if not accepted(ctx, s):
        return
    try:
        s.loop(2)
    except W.ExecDone:
        pass
    if child == "parent":
        ctx.prove(len(s.w.evs("fork")) == 1, "the run is started")
        return
    ctx.prove(s.w.exec_record is not None, "the run is started")
    f, args, env = s.w.exec_record
    ctx.prove(len(args) >= 1, "the command is a list of texts")
    for x in [f] + args:
        ctx.prove(isinstance(x, str), "the command is a list of texts")


@harness(
    "C34",
    bounds="time zone texts of a list (names, files, empty, nonsense), a concurrency group with any maximum, every boolean option; scheduled runs at arbitrary whole seconds",
    stubs=STUBS, cron_stub=True, covers=["accepted", "refused"],
)
def zones_and_groups(ctx):
    z = ctx.choice("zone", ["", " ", "UTC", "Europe/Berlin", "No/Such", "/etc/passwd", "../etc/passwd", "UTC+3", "EST5EDT", "5", "America/", "\n", "a" * 300])
    job = {"command": ["x"], "schedule": "1 2 * * *", "schedule_timezone": z, "concurrency_groups": ["g", "h", "g"]}
    for o in ("command_append_run", "jenkins_environment", "concurrent_runs"):
        job[o] = True
    s = Sim(ctx, {"jobs": {"a": job}, "concurrency_groups": {"g": {"max": ctx.int("max", -(10**20), 10**20)}}}, start_us=START)
    s.w.cron_fixed = 3600 * SEC
    s.w.fixed_order = True
    s.jump = 4000 * SEC
    s.max_idle = 9
    s.exit_any(limit=1)
    if accepted(ctx, s):
        alive(ctx, s, 3)


# -- C64 ---------------------------------------------------------------------------------

PLACES_64 = {"/home/u/.dsari/etc": "/home/u/.dsari/var", "/usr/local/etc/dsari": "/usr/local/lib/dsari", "/etc/dsari": "/var/lib/dsari"}


@harness(
    "C64",
    params={"default": False, "named": True},
    bounds="DSARI_HOME absent, a directory or empty; in each of the three usual places any combination of dsari.json, dsari.yaml and config.d, or an unrelated file; with and without --config-dir; data_dir configured or not",
    stubs=FILES, cron_stub=True, covers={"default": ["DSARI_HOME", "first", "second", "third", "none"], "named": ["named"]},
)
def default_places(ctx, named):
    import importlib
    import sys

    import dsari
    import dsari.info

    w = W.World(ctx, start_us=START)
    home = ctx.choice("DSARI_HOME", [None, "/srv/d", ""])
    own = ctx.choice("data_dir", [None, "/own"])
    there = {}
    all_ = list(PLACES_64) + ["/srv/d/etc", "/named", "/cwd/etc"]
    w.cwd = "/cwd"
    for d in all_:
        w.put(d + "/dsari.json", {"jobs": {"json": {"command": ["x"]}}}, fmt="json")
        w.put(d + "/dsari.yaml", {"jobs": {"yaml": {"command": ["x"]}}}, fmt="yaml")
        w.put(d + "/config.d/own.json", {"data_dir": own} if own else {}, fmt="json")
        w.put(d + "/other.json", {}, fmt="json")
        for f in ("dsari.json", "dsari.yaml", "config.d"):
            p = d + "/" + f
            there[p] = ctx.bool("has_" + p) if d in PLACES_64 or home and d == home + "/etc" else True
    real = w.exists, w.isfile, w.isdir, w.listdir

    def there_is(p):
        q = w.norm(p)
        for k in there:
            if q == k or q.startswith(k + "/"):
                return ctx.decide(there[k]) if there[k] is not True else True
        return True

    w.exists = w.lexists = lambda p: p != "" and real[0](p) and there_is(p)
    w.isfile = lambda p: real[1](p) and there_is(p)
    w.isdir = lambda p: p != "" and real[2](p) and there_is(p)
    w.listdir = lambda p=".": [x for x in real[3](p) if there_is(os_join(p, x))]

    def dump(c):
        return c.config_d, c.data_dir, sorted(c.jobs)

    import os

    from .render import info

    env = {k: os.environ.get(k) for k in ("DSARI_HOME", "HOME")}
    old = sys.modules["dsari.config"]
    W.activate(w)
    try:
        os.environ["HOME"] = "/home/u"
        os.environ.pop("DSARI_HOME", None)
        if home is not None:
            os.environ["DSARI_HOME"] = home
        del sys.modules["dsari.config"]
        dsari.config = importlib.import_module("dsari.config")
        argv = ["dsari-info"] + (["--config-dir", "/named"] if named else [])
        text = info(ctx, w, "config", "dump", argv=argv)
        plainly = dump(dsari.config.get_config()) if not named else None
    finally:
        sys.modules["dsari.config"] = dsari.config = old
        for k, v in env.items():
            os.environ.pop(k, None)
            if v is not None:
                os.environ[k] = v
    first = None
    if home is not None:
        place = (os_join(home, "etc"), os_join(home, "var"))
        first = "DSARI_HOME"
    else:
        place = tuple(list(PLACES_64.items())[0])
        first = "none"
        for n, (c, d) in zip(("first", "second", "third"), PLACES_64.items()):
            if ctx.decide(Or(*[there[c + "/" + f] for f in ("dsari.json", "dsari.yaml", "config.d")])):
                place, first = (c, d), n
                break
    etc = "/named" if named else place[0]
    ctx.cover("named" if named else first)
    at = w.norm(etc)
    has = {f: there[at + "/" + f] is True or ctx.decide(there[at + "/" + f]) for f in ("dsari.json", "dsari.yaml", "config.d")}
    jobs = [k for k, f in (("json", "dsari.json"), ("yaml", "dsari.yaml")) if has[f]]
    data = own if own and has["config.d"] else place[1]
    got = json.loads(text)
    ctx.prove(got["config_d"] == os_join(etc, "config.d"), "the configuration comes from the right directory", got["config_d"])
    ctx.prove(sorted(got["jobs"]) == jobs, "the configuration comes from the right directory", repr(got["jobs"]))
    ctx.prove(got["data_dir"] == data, "the data directory is the one that belongs to it", got["data_dir"])
    if plainly is not None:
        ctx.prove(plainly == (os_join(etc, "config.d"), data, jobs), "every program uses the same directories", repr(plainly))


def os_join(a, b):
    return b if a == "" else a + "/" + b
