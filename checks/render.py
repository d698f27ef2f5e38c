"""Reports (C54-C58)."""
import html
import logging
import os
import re
import sys
import tempfile

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Implies, Not, Or, SDict, Sym, SymBytes, SymInt, SymRaw, SymStr, mkstr, us_of

from .child import DATA
from .db import START, open_db, row, seed
from .reports import ETC, joined, pieces, plain
from .sim import SEC, STUBS

HTML = DATA + "/html"
JINJA = ["jinja2: the code it generates from the templates is executed symbolically; markupsafe.escape by its documented replacements"]


def char(ctx, name, lo=0, hi=0x10FFFF):
    """Any one character of a range (surrogates left out)."""
    v = ctx.int(name, lo, hi)
    ctx.assume(Or(v < 0xD800, v > 0xDFFF))
    return SymStr([("u", v.e)]) if isinstance(v, SymInt) else chr(v)


def raw(ctx, name, n):
    """Any n bytes."""
    b = [ctx.int("{}{}".format(name, i), 0, 255) for i in range(n)]
    return SymRaw([x.e if isinstance(x, SymInt) else x for x in b]) if ctx.sym else bytes(b)


def config(w, jobs=("a",), **more):
    c = {"data_dir": DATA, "jobs": {j: {"command": ["x"]} for j in jobs}}
    for k, v in more.pop("job", {}).items():
        c["jobs"][k].update(v)
    c.update(more)
    w.put(ETC + "/dsari.json", c, fmt="json")


def render(ctx, w, *argv):
    """dsari-render"""
    if ctx.sym:
        from vt import pages

        pages.install()
    import dsari.render

    W.activate(w)
    old = sys.argv
    sys.argv = ["dsari-render", "--config-dir", ETC] + list(argv)
    try:
        dsari.render.main()
    finally:
        sys.argv = old
        W.activate(w)


def page(w, path):
    """The text of a generated page, or None."""
    node = w.fs.get(path)
    if node is None:
        return None
    d = node.data
    if type(d) is SymBytes:
        return d.s
    if isinstance(d, bytes) and not isinstance(d, Sym):
        if d[:2] == b"\x1f\x8b":
            import gzip

            d = gzip.decompress(d)
        return d.decode("utf-8")
    return d


def out_path(job, rid, suffix=""):
    return "{}/runs/{}/{}/output.txt{}".format(DATA, job, rid, suffix)


def run_page(job, rid):
    return "{}/{}/{}/index.html".format(HTML, job, rid)


# -- C54 ---------------------------------------------------------------------------------


def shown(text):
    """The places of the output's characters in a page: (index, piece)."""
    out = []
    for i, (k, v) in enumerate(pieces(text)):
        if k == "u" or k == "c" and "\u4e00" <= v <= "\u9fff":
            out.append((i, v))
    return out


@harness(
    "C54",
    bounds="output of 0 to 5 characters (thorough 8), any of them (of a script the page itself does not use), one of them possibly a line end; report_run_output_start and _end absent or any number from 0 to 7 (thorough 10)",
    stubs=STUBS + JINJA, cron_stub=True, covers=["whole", "cut", "no output"],
)
def truncation(ctx):
    deep = core.TIER == "thorough"
    w = W.World(ctx, start_us=START)
    lim = {}
    for k in ("start", "end"):
        if ctx.choice("set_" + k, [True, False]):
            lim[k] = ctx.int(k, 0, 10 if deep else 7)
    config(w, **{"report_run_output_" + k: v for k, v in lim.items()})
    n = ctx.choice("n", list(range(9 if deep else 6)))
    cs = [char(ctx, "ch{}".format(i), 0x4E00, 0x9FFF) for i in range(n)]
    gap = ctx.choice("line end", [None] + list(range(n))) if n >= (4 if lim else 1) else None
    twin = list(cs)
    if gap is not None:
        cs[gap] = ctx.choice("kind", ["\n", " "]) if deep else "\n"
    open_db(ctx, w)
    jobs = ("a",) if gap is None else ("a", "b")
    seed(w, "runs", [dict(plain(0), job_name=j) for j in jobs])
    config(w, jobs, **{"report_run_output_" + k: v for k, v in lim.items()})
    for j, text in zip(jobs, (cs, twin)):
        text = mkstr([p for c in text for p in SymStr.pieces(c)])
        w.put(out_path(j, "run-0"), SymBytes(text) if isinstance(text, SymStr) else text.encode("utf-8"))
    render(ctx, w)
    t = page(w, run_page("a", "run-0"))
    ctx.prove(t is not None, "the run has a page")
    s, e = lim.get("start", 0), lim.get("end", 0)
    if n == 0:
        ctx.cover("no output")
    if ctx.decide(Or(And(s == 0, e == 0), n <= s + e)):
        ctx.cover("whole")
        label = "output not longer than the limits is shown whole"
        parts = [list(range(n))]
    else:
        ctx.cover("cut")
        label = "longer output is shown as its ends of the configured lengths"
        k = [i for i in range(n + 1) if ctx.decide(s == i)]
        m = [i for i in range(n + 1) if ctx.decide(e == i)]
        ctx.prove(len(k) == 1 and len(m) == 1, label)
        parts = [list(range(k[0])), list(range(n - m[0], n))]
    all_ = pieces(t)
    got = shown(t)
    want = [i for part in parts for i in part if i != gap]
    ctx.prove(len(got) == len(want), label)
    at = dict(zip(want, [g[0] for g in got]))
    for g, i in zip(got, want):
        ctx.prove((SymStr([("u", g[1])]) if not isinstance(g[1], str) else g[1]) == cs[i], label)
    for part in parts:
        for i, j in zip(part, part[1:]):
            if gap not in (i, j):
                ctx.prove(at[j] == at[i] + 1, label)
        if gap in part:
            if gap - 1 in part:
                ctx.prove(all_[at[gap - 1] + 1] == ("c", cs[gap]), label)
            if gap + 1 in part:
                ctx.prove(all_[at[gap + 1] - 1] == ("c", cs[gap]), label)
            if gap - 1 in part and gap + 1 in part:
                ctx.prove(at[gap + 1] == at[gap - 1] + 2, label)
    if len(parts) == 2:
        a, b = [[i for i in part if i != gap] for part in parts]
        if a and b:
            ctx.prove(at[b[0]] > at[a[-1]] + 1 + (gap in parts[0]), "the cut is marked")
    if gap is not None:
        # the page is as long as with another character in place of the line end
        ctx.prove(len(all_) == len(pieces(page(w, run_page("b", "run-0")))), label)


# -- C55 ---------------------------------------------------------------------------------


def marked(text):
    """What stands between the marks q7 and 7q, wherever they occur."""
    ps = pieces(text)
    out = []
    i = 0
    while i + 1 < len(ps):
        if ps[i] == ("c", "q") and ps[i + 1] == ("c", "7"):
            j = i + 2
            while j + 1 < len(ps) and not (ps[j] == ("c", "7") and ps[j + 1] == ("c", "q")):
                j += 1
            out.append(joined(ps[i + 2 : j]))
            i = j + 2
        else:
            i += 1
    return out


ESCAPED = re.compile(r"(?:[^&<>\"']|&(?:#\d+|#[xX][0-9a-fA-F]+|[A-Za-z]+);)*\Z")


def escaped(ctx, got, want):
    label = "recorded data is escaped in reports"
    if isinstance(got, SymStr):
        for k, v in got.p:
            if k == "u":
                for ch in "<>&\"'":
                    ctx.prove(SymStr([(k, v)]) != ch, label)
        ctx.prove(got == want, "recorded data is shown as recorded")
    else:
        ctx.prove(ESCAPED.match(got) is not None, label)
        ctx.prove(want == html.unescape(got), "recorded data is shown as recorded")


PLACES = ("output", "trigger type", "type", "description")


@harness(
    "C55",
    params={"builtin": False, "custom": True},
    bounds="any one character (of all of Unicode) within the output, the trigger's type, the type or the description of its data; built-in templates, and custom ones named .html, .htm and .xml with and without .jinja2, next to names without escaping; pages compressed or not",
    stubs=STUBS + JINJA, cron_stub=True, covers=["special", "ordinary"],
)
def escaping(ctx, custom):
    w = W.World(ctx, start_us=START)
    place = ctx.choice("place", PLACES)
    gz = ctx.choice("gz", [False, True])
    x = char(ctx, "x")
    ctx.cover("special" if ctx.decide(Or(x == "<", x == "&", x == '"', x == "'", x == ">")) else "ordinary")
    data = mkstr([("c", "q7")] + SymStr.pieces(x) + [("c", "7q")])
    open_db(ctx, w)
    r = plain(0)
    r["trigger_type"] = data if place == "trigger type" else "file"
    t = {"type": data if place == "type" else "some", "description": data if place == "description" else "text"}
    from vt import rt

    r["trigger_data"] = rt._json_dumps(t)
    seed(w, "runs", [r])
    out = data if place == "output" else "out"
    w.put(out_path("a", "run-0"), SymBytes(out) if isinstance(out, SymStr) else out.encode("utf-8"))
    more = {"report_html_gz": gz}
    if custom:
        more["template_dir"] = os.path.join(os.path.dirname(os.path.abspath(__file__)), "templates")
    config(w, **more)
    render(ctx, w)
    n = {}
    for p in list(w.fs):
        if p.startswith(HTML):
            found = marked(page(w, p) if ".html" in p else "")
            for f in found:
                escaped(ctx, f, x)
            n[p] = len(found)
    got = n.get(run_page("a", "run-0") + (".gz" if gz else ""))
    ctx.prove(got is not None, "the run has a page")
    ctx.prove(got >= (6 if custom else 1), "recorded data is shown in the run's page")


@harness(
    "C55",
    bounds="templates of any name of up to 6 characters followed by .html, .htm or .xml, and .jinja2 or not",
    stubs=STUBS, cron_stub=True,
)
def template_names(ctx):
    import jinja2

    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    config(w)
    seen = []
    real = jinja2.Environment.__init__

    def init(self, *a, **k):
        real(self, *a, **k)
        seen.append(self)

    jinja2.Environment.__init__ = init
    try:
        render(ctx, w)
    finally:
        jinja2.Environment.__init__ = real
    ext = ctx.choice("ext", ["html", "htm", "xml"]) + ctx.choice("more", ["", ".jinja2"])
    name = ctx.str("name", maxlen=6) + "." + ext
    for env in seen:
        auto = env.autoescape
        got = auto(name) if callable(auto) else auto
        ctx.prove(got, "data in templates of this name is escaped")
    ctx.prove(len(seen) > 0, "templates are rendered")


# -- C56 ---------------------------------------------------------------------------------


class Out:
    """Standard output, or a pager's standard input."""

    def __init__(self, tty=False):
        self.parts = []
        self.tty = tty
        self.closed = False
        self.encoding = "utf-8"

    def isatty(self):
        return self.tty

    def fileno(self):
        return 1

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if type(s) is SymBytes:
            s = s.s
        elif isinstance(s, bytes):
            s = s.decode("utf-8")
        elif not isinstance(s, str):
            raise TypeError("write() argument must be str, not {}".format(type(s).__name__))
        else:
            s.encode("utf-8")
        self.parts.append(s)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    @property
    def text(self):
        return mkstr([p for s in self.parts for p in SymStr.pieces(s)])


class Pager:
    def __init__(self):
        self.stdin = Out()
        self.returncode = None

    def wait(self, *a, **k):
        self.returncode = 0
        return 0


def info(ctx, w, *args, tty=False, etc=ETC, argv=None):
    """dsari-info; -> (what is printed, or None if it was refused)."""
    import dsari.info

    W.activate(w)
    pagers = []

    def popen(cmd, *a, **k):
        pagers.append(Pager())
        return pagers[-1]

    w.popen = popen
    old = sys.argv, sys.stdout, sys.stderr
    out = Out(tty)
    sys.argv = (argv or ["dsari-info", "--config-dir", etc]) + list(args)
    sys.stdout, sys.stderr = out, Out()
    try:
        dsari.info.main()
    except SystemExit as e:
        if e.code not in (None, 0):
            return None
    finally:
        sys.argv, sys.stdout, sys.stderr = old
        W.activate(w)
        w.popen = None
    for p in pagers:
        ctx.prove(p.stdin.closed and p.returncode == 0, "the pager is waited for")
        out.parts += p.stdin.parts
    return out.text


FORMS = ("", ".gz", ".xz")


def utf8(data):
    """The text of bytes if they are valid, else None."""
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        return None


def readable(ctx, got, data):
    """got shows the output with these bytes."""
    t = utf8(data)
    label = "the output is shown completely"
    if t is not None:
        ctx.cover("valid")
        ctx.prove(got == t, label)
        return
    ctx.cover("invalid")
    label = "output that is not valid UTF-8 is still readable"
    ps = pieces(got)
    i = 0
    for b in data.b if type(data) is SymRaw else data:
        b = SymInt(b) if not isinstance(b, int) else b
        if not ctx.decide(b < 128):
            continue
        while i < len(ps):
            k, v = ps[i]
            i += 1
            if ctx.decide(b == (ord(v) if k == "c" else SymInt(v))):
                break
        else:
            ctx.prove(False, label)


@harness(
    "C56",
    params={"finished": "finished", "running": "running", "pager": "pager"},
    bounds="any subset of output.txt, its .gz and its .xz form existing, each with other contents; the one to be read made of up to 3 arbitrary bytes (1 if another form exists, thorough 4 and 3), in one or two compressed streams; of a finished or a running run; printed to a terminal's pager or not",
    stubs=STUBS, cron_stub=True, covers=["valid", "invalid", "none"],
)
def printed(ctx, how):
    w = W.World(ctx, start_us=START)
    running = how == "running"
    open_db(ctx, w)
    seed(w, "runs_running" if running else "runs", [plain(0, running)])
    have = [f for f in FORMS if ctx.choice("has" + f, [True, False])]
    data = raw(ctx, "byte", ctx.choice("n", [0, 1, 2, 3, 4] if core.TIER == "thorough" and have == [""] else [0, 1, 2, 3] if core.TIER == "thorough" or have == [""] and how == "finished" else [0, 1]) if have else 0)
    first = True
    for f in have:
        d = data if first else b"another " + f.encode()
        if f:
            n = ctx.choice("streams", [1, 2]) if first else 1
            d = W.packed(ctx, f[1:], [d] if n == 1 else [d, b"more"])
            if first and n == 2:
                data = data + b"more"
        first = False
        w.put(out_path("a", "run-0", f), d)
    got = info(ctx, w, "run", "output", "run-0", tty=how == "pager")
    ctx.prove(got is not None, "the run is found")
    if not have:
        ctx.cover("none")
        ctx.prove(got == "", "missing output yields nothing")
        return
    readable(ctx, got, data)


@harness(
    "C56",
    bounds="a run id asked for, a finished and a running run of similar ids",
    stubs=STUBS, cron_stub=True, covers=["found", "not found"],
)
def asked(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    rows = [plain(0), plain(1, running=True)]
    for i, r in enumerate(rows):
        r["run_id"] = ctx.choice("id{}".format(i), ["q", "ab", "abc", "AB"])
    ctx.assume(rows[0]["run_id"] != rows[1]["run_id"])
    seed(w, "runs", rows[:1])
    seed(w, "runs_running", rows[1:])
    for i, r in enumerate(rows):
        w.put(out_path(r["job_name"], r["run_id"]), b"output of %d" % i)
    name = ctx.choice("asked", ["q", "ab", "abc"])
    got = info(ctx, w, "run", "output", name)
    k = [i for i in range(2) if ctx.decide(name == rows[i]["run_id"])]
    if k:
        ctx.cover("found")
        ctx.prove(got is not None, "the run is found")
        ctx.prove(got == "output of {}".format(k[0]), "the run's own output is shown")
    else:
        ctx.cover("not found")
        ctx.prove(got is None, "a run which does not exist is refused")


@harness(
    "C56",
    bounds="any subset of output.txt, its .gz and its .xz form existing; the one to be read made of up to 2 arbitrary bytes (1 if another form exists, thorough 2) in one or two compressed streams; shown on the run's page",
    stubs=STUBS + JINJA, cron_stub=True, covers=["valid", "invalid", "none"],
)
def on_page(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    r = [plain(0), plain(0), plain(0)]
    for i in range(3):
        r[i]["run_id"] = "run-{}".format(i)
    seed(w, "runs", r)
    have = [f for f in FORMS if ctx.choice("has" + f, [True, False])]
    data = raw(ctx, "byte", ctx.choice("n", [0, 1, 2] if core.TIER == "thorough" or have == [""] else [1]) if have else 0)
    first = True
    for f in have:
        d = b"q7" + data + b"7q" if first else b"another " + f.encode()
        if f:
            d = W.packed(ctx, f[1:], [b"q7", data, b"7q"] if first and ctx.choice("streams", [1, 2]) == 2 else [d])
        first = False
        w.put(out_path("a", "run-0", f), d)
    w.put(out_path("a", "run-1"), b"")
    w.put(out_path("a", "run-2"), b"q77q")
    render(ctx, w)
    p0, p1, p2 = (page(w, run_page("a", "run-{}".format(i))) for i in range(3))
    if not have:
        ctx.cover("none")
        ctx.prove(p0 is not None, "a run without output has a page")
        ctx.prove(p0.replace("run-0", "run-1") == p1, "missing output is shown as nothing")
        return
    ctx.prove(p0 is not None, "the run has a page")
    at = p2.index("q77q") + 2
    head, tail = p2[:at].replace("run-2", "run-0"), p2[at:].replace("run-2", "run-0")
    ps = pieces(p0)
    a, b = joined(ps[: len(head)]), joined(ps[len(ps) - len(tail) :])
    ctx.prove(a == head and b == tail, "the output is shown completely")
    got = joined(ps[len(head) : len(ps) - len(tail)])
    got = mkstr([(k, html.unescape(v) if k == "c" else v) for k, v in SymStr.pieces(got)])
    readable(ctx, got, data)


# -- C58 ---------------------------------------------------------------------------------


def ids_in(text):
    """Run ids in the order of the links to them."""
    return re.findall(r"run-[0-9a-z]+(?=/)", text_only(text))


def text_only(text):
    return "".join(v if k == "c" else "\0" for k, v in SymStr.pieces(text))


def newest_first(ctx, ids, rows, label):
    by = {r["run_id"]: r for r in rows}
    ctx.prove(sorted(ids) == sorted(by), label + ": exactly its runs", repr(ids))
    for x, y in zip(ids, ids[1:]):
        ctx.prove(by[x]["stop_time"] >= by[y]["stop_time"], label + ": newest first")


@harness(
    "C58",
    params={"again": False, "regenerate": True},
    bounds="2 finished runs (thorough 3) of any of two configured jobs, the second with or without reports, or one that is gone, with any times and exit codes, and a running one; pages compressed or not; then a second rendering, with and without --regenerate, with or without a further finished run of any of the jobs",
    stubs=STUBS + JINJA, cron_stub=True, covers=["further", "none further"], max_seconds=400,
)
def coverage(ctx, regenerate):
    w = W.World(ctx, start_us=START)
    gz = ctx.choice("gz", [False, True])
    reports = ctx.choice("reports", [True, False])
    suffix = ".gz" if gz else ""
    open_db(ctx, w)
    rows = [row(ctx, i, ctx.choice("job_{}".format(i), ["a", "b", "gone"])) for i in range(3 if core.TIER == "thorough" else 2)]
    seed(w, "runs", rows)
    seed(w, "runs_running", [row(ctx, "r", "a", running=True, rid="run-r")])
    config(w, ["a", "b"], job={"b": {"render_reports": reports}}, report_html_gz=gz)
    shown = ["a", "b"] if reports else ["a"]

    def check(rows, old):
        want = {run_page(r["job_name"], r["run_id"]) + suffix for r in rows if r["job_name"] in shown}
        got = {p for p in w.fs if p.startswith(HTML + "/") and "/run-" in p}
        ctx.prove(got == want, "every finished run of the jobs with reports has a page, and no other", repr(got))
        for p in got:
            if p in old and not regenerate:
                ctx.prove(page(w, p) == "old", "existing run pages are left alone")
            else:
                t = page(w, p)
                ctx.prove(p.split("/")[-2] in text_only(t), "run pages are written (anew if asked to)")
        for j in ("a", "b"):
            mine = [r for r in rows if r["job_name"] == j]
            t = page(w, "{}/{}/index.html{}".format(HTML, j, suffix))
            if j not in shown:
                ctx.prove(t is None, "jobs without reports have no page")
            elif mine or regenerate:
                ctx.prove(t is not None, "jobs with runs have a page")
                newest_first(ctx, ids_in(t), mine, "a job's page")
        mine = [r for r in rows if r["job_name"] in shown]
        t = page(w, HTML + "/index.html" + suffix)
        if mine or regenerate:
            ctx.prove(t is not None, "there is an index")
            ids = ids_in(t)
            both = (ids[: len(ids) - len(mine)], ids[len(ids) - len(mine) :])
            if sorted(both[1]) != sorted(r["run_id"] for r in mine):
                both = ids[len(mine) :], ids[: len(mine)]
            newest_first(ctx, both[1], mine, "the index")
            newest_first(ctx, both[0], [r for r in mine if ctx.decide(r["exit_code"] != 0)], "the failed runs of the index")
        ctx.prove((HTML + "/darkly.min.css") in w.fs, "the style sheet is there")

    render(ctx, w, *(["--regenerate"] if regenerate else []))
    check(rows, [])
    old = [p for p in w.fs if p.startswith(HTML + "/") and "/run-" in p]
    for p in old:
        w.fs[p].data = b"old"
    further = ctx.choice("further", ["none", "a", "b", "gone"])
    ctx.cover("none further" if further == "none" else "further")
    if further != "none":
        more = row(ctx, "n", further)
        seed(w, "runs", [more])
        rows.append(more)
    render(ctx, w, *(["--regenerate"] if regenerate else []))
    check(rows, old)


@harness(
    "C58",
    bounds="27 finished runs, 13 of them failed, of two jobs; one of them finished at any time, another one with any exit code",
    stubs=STUBS + JINJA, cron_stub=True, covers=["listed", "left out"],
)
def index_limits(ctx):
    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    rows = [plain(i) for i in range(27)]
    for i, r in enumerate(rows):
        r["job_name"] = "ab"[i % 3 == 0]
    rows[13]["stop_time"] = ctx.int("when", 1_698_999_000_000, 1_699_001_000_000) / 1000
    rows[13]["start_time"] = rows[13]["schedule_time"] = 1_698_999_000.0 - 1
    rows[ctx.choice("which", [20, 2])]["exit_code"] = ctx.int("exit", 0, 255)
    seed(w, "runs", rows)
    config(w, ["a", "b"])
    render(ctx, w)
    ids = ids_in(page(w, HTML + "/index.html"))
    by = {r["run_id"]: r for r in rows}
    failed = [r for r in rows if ctx.decide(r["exit_code"] != 0)]
    ctx.prove(len(ids) == 35, "25 runs and 10 failed runs are on the index", repr(ids))
    for part, of in ((ids[:10], failed), (ids[10:], rows)) if len(set(ids[10:])) == 25 else ((ids[25:], failed), (ids[:25], rows)):
        label = "the latest runs are on the index"
        ctx.prove(all(by[x] in of for x in part), label)
        for x, y in zip(part, part[1:]):
            ctx.prove(by[x]["stop_time"] >= by[y]["stop_time"], label)
        for r in of:
            if r["run_id"] not in part:
                ctx.cover("left out" if r is rows[13] else "other")
                ctx.prove(r["stop_time"] <= by[part[-1]]["stop_time"], label)
            elif r is rows[13]:
                ctx.cover("listed")


@harness(
    "C58",
    bounds="3 finished runs of a job, one after another or overlapping, recorded in any order with any exit codes, or none",
    stubs=STUBS + JINJA, cron_stub=True, covers=["good and bad", "never good", "none"],
)
def index_jobs(ctx):
    import datetime

    w = W.World(ctx, start_us=START)
    open_db(ctx, w)
    order = ctx.choice("order", [(), (0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)])
    rows = {i: dict(plain(7 * i), exit_code=ctx.int("exit_{}".format(i), 0, 255)) for i in sorted(order)}
    for r in rows.values():
        for k in ("start_time", "stop_time"):
            r[k] += 0.25
    if rows and ctx.choice("overlapping", [False, True]):
        # the last one to end is the first one to start
        for k in ("schedule_time", "start_time"):
            rows[2][k] = rows[0][k] - 100
    seed(w, "runs", [rows[i] for i in order])
    config(w, ["a"])
    render(ctx, w, "--regenerate")
    t = text_only(page(w, HTML + "/index.html"))
    when = {i: datetime.datetime.fromtimestamp(r["start_time"], datetime.timezone.utc).strftime("%Y-%m-%d %H:%M:%S") for i, r in rows.items()}
    got = [i for _, i in sorted((m.start(), i) for i, x in when.items() for m in re.finditer(x, t))]
    good = [i for i, r in rows.items() if ctx.decide(r["exit_code"] == 0)]
    ctx.cover("none" if not rows else "good and bad" if good else "never good")
    ctx.prove(got == ([2] if rows else []) + good[-1:], "the index shows each job's last and last successful run", repr(got))


# -- C59 ---------------------------------------------------------------------------------


@harness(
    "C59",
    params={"new": False, "earlier": True},
    bounds="3 finished runs of two jobs, none of them or the first one rendered before; rendering with or without --regenerate ends before any one of its operations on files, its database or any write; pages compressed or not; then a complete rendering, and a further one",
    stubs=STUBS + JINJA, cron_stub=True, covers=["interrupted", "complete"],
)
def interrupted(ctx, earlier):
    import copy

    gz = ctx.choice("gz", [False, True])
    args = ctx.choice("args", [[], ["--regenerate"]])
    rows = [dict(plain(i), job_name="ab"[i % 2], run_id="run-{}".format(i)) for i in range(3)]

    def world():
        w = W.World(ctx, start_us=START)
        open_db(ctx, w)
        config(w, ["a", "b"], report_html_gz=gz)
        for r in rows:
            w.put(out_path(r["job_name"], r["run_id"]), b"output of " + r["run_id"].encode())
        if earlier:
            seed(w, "runs", rows[:1])
            render(ctx, w)
        seed(w, "runs", rows[1:] if earlier else rows)
        return w

    def pages_of(w):
        return {p: page(w, p) for p in w.fs if p.startswith(HTML + "/")}

    w = world()
    render(ctx, w)
    want = pages_of(w)
    ctx.prove(len(want) >= 3 + 2 + 1, "everything is rendered")
    w = world()
    at = ctx.int("at", 1, 400)
    st = {"n": 0}

    def op(what, path):
        st["n"] += 1
        if st["n"] < 400 and ctx.decide(at == st["n"]):
            w.on_fs = w.on_db = None
            # nothing which is done while the exception passes has an effect
            st["left"] = {p: copy.copy(n) for p, n in w.fs.items()}, set(w.dirs)
            raise W.Crash("the renderer ends")

    w.on_fs = w.on_db = op
    try:
        render(ctx, w, *args)
    except W.Crash:
        ctx.cover("interrupted")
    else:
        ctx.cover("complete")
    w.on_fs = w.on_db = None
    if "left" in st:
        w.fs.clear()
        w.fs.update(st["left"][0])
        w.dirs.clear()
        w.dirs.update(st["left"][1])
    for i in range(2):
        render(ctx, w)
        got = pages_of(w)
        for p in want:
            ctx.prove(p in got, "the next rendering writes what is missing", p)
            ctx.prove(got[p] == want[p], "the next rendering leaves no page incomplete or out of date", p)
        left = [p for p in got if p not in want and p.endswith(("/index.html", "/index.html.gz", ".css"))]
        ctx.prove(not left, "no other page is written", repr(left))


# -- C62 ---------------------------------------------------------------------------------


def hrefs(text):
    """The addresses of a page's links, as pieces."""
    ps = pieces(text)
    out = []
    mark = 'href="'
    i = 0
    while i < len(ps):
        if all(x == ("c", m) for x, m in zip(ps[i: i + len(mark)], mark)) and len(ps) - i > len(mark):
            i += len(mark)
            cur = []
            while ps[i] != ("c", '"'):
                cur.append(ps[i])
                i += 1
            out.append(cur)
        i += 1
    return out


def token(p):
    """A symbolic character as one that stands for it in paths."""
    k, v = p
    if k == "c":
        return v
    return "{" + str(v.get_id()) + "}"


def follow(ctx, base, ps):
    """Where a browser showing the page of this directory goes; None: elsewhere."""
    ch = [SymInt(v) if k == "u" else ord(v) for k, v in ps]
    ps = list(ps)
    while ch and ctx.decide(ch[0] <= 32):
        ch.pop(0), ps.pop(0)
    while ch and ctx.decide(ch[-1] <= 32):
        ch.pop(), ps.pop()
    among = lambda c, *rs: Or(*[And(c >= ord(r[0]), c <= ord(r[-1])) for r in rs])
    if ch and ctx.decide(among(ch[0], "AZ", "az")):
        for c in ch[1:]:
            if ctx.decide(c == ord(":")):
                return None
            if not ctx.decide(among(c, "AZ", "az", "09", "+", "-", ".")):
                break
    at = [] if ch and ctx.decide(ch[0] == ord("/")) else list(base)
    segs = [[]]
    for c, p in zip(ch, ps):
        if ctx.decide(Or(c == ord("?"), c == ord("#"))):
            break
        if ctx.decide(Or(c == ord("/"), c == ord("\\"))):
            segs.append([])
        elif not ctx.decide(Or(c == 9, c == 10, c == 13)):
            segs[-1].append((c, p))
    for i, s in enumerate(segs):
        last = i == len(segs) - 1
        dots = len(s) in (1, 2) and ctx.decide(And(*[c == ord(".") for c, p in s]))
        if dots:
            if len(s) == 2 and at:
                at.pop()
        elif s:
            at.append("".join(token(p) for c, p in s))
        elif not last:
            at.append("")
    if segs[-1] and not (len(segs[-1]) < 3 and dots):
        return "/".join(at)
    return "/".join(at + [""])


@harness(
    "C62",
    params={"1": [(0, 1), (0, 2), (0, 3)], "2": [(1, 1), (2, 1)]},
    bounds="a job named by any 1 to 3 valid characters or one between letters (thorough: up to 4, or 2 between letters), with a finished run of any exit code, next to a job with a plain name; pages compressed or not",
    stubs=STUBS + JINJA, cron_stub=True, covers=["link"],
)
def links(ctx, shapes):
    deep = core.TIER == "thorough"
    w = W.World(ctx, start_us=START)
    real = w.norm
    w.norm = lambda p: real("".join(token(x) for x in pieces(p)) if isinstance(p, Sym) else p)
    pre, n = ctx.choice("shape", shapes + ([(0, 4)] if deep and shapes[0][0] == 0 else [(1, 2), (2, 2)] if deep else []))
    cs = [ctx.int("ch{}".format(i), 32, 127) for i in range(n)]
    good = lambda x: Or(*[And(x >= ord(a), x <= ord(b)) for a, b in ("AZ", "az", "09", "__", "++", "..", "::", "@@", "--", "  ")])
    ctx.assume(And(*[good(c) for c in cs]))
    if not pre and n <= 2:
        ctx.assume(Not(And(*[c == ord(".") for c in cs])))
    ps = [("u", c.e) if isinstance(c, SymInt) else ("c", chr(c)) for c in cs]
    name = mkstr([("c", "xy"[:pre])] + ps + [("c", "z" if pre else "")])
    ctx.assume(name != "b")
    plainly = "".join(token(x) for x in pieces(name))
    gz = ctx.choice("gz", [False, True])
    open_db(ctx, w)
    code = ctx.int("exit", 0, 255)
    rows = [dict(plain(0), job_name=name, exit_code=code), dict(plain(1), job_name="b")]
    seed(w, "runs", rows)
    jobs = SDict([(name, {"command": ["x"]}), ("b", {"command": ["x"]})]) if ctx.sym else {name: {"command": ["x"]}, "b": {"command": ["x"]}}
    w.put(ETC + "/dsari.json", {"data_dir": DATA, "jobs": jobs, "report_html_gz": gz}, fmt="json")
    for j in (plainly, "b"):
        for r in rows:
            w.put(out_path(j, r["run_id"]), b"out")
    render(ctx, w)
    suf = ".gz" if gz else ""
    names = {"": "index", plainly + "/": "job", "b/": "job"}
    runs = {"{}/{}/".format(plainly if r["job_name"] is name else "b", r["run_id"]): r for r in rows}
    for d in list(names) + list(runs):
        t = page(w, HTML + "/" + d + "index.html" + suf)
        ctx.prove(t is not None, "every job and run has its page")
        seen = []
        for h in hrefs(t):
            ctx.cover("link")
            to = follow(ctx, d.split("/")[:-1], h)
            shown_ = joined(h)
            ctx.prove(to is not None, "a link leads to a page of the report", repr(shown_))
            f = HTML + "/" + to + ("index.html" + suf if to == "" or to.endswith("/") else "")
            ctx.prove(f in w.fs, "a link leads to a page of the report", repr((d, shown_, to)))
            seen.append(to)
        want = set(names) - {""} | set(runs) if d == "" else {""} | {x for x in runs if x.startswith(d)} if d in names else {d[: d[:-1].rindex("/") + 1]}
        ctx.prove(set(seen) - {"darkly.min.css"} == want, "links lead to the pages they name", repr((d, seen)))
        ctx.prove("darkly.min.css" in seen, "pages use the report's style sheet")
