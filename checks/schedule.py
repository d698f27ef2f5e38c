"""Schedules: hashed cron fields (C40, C41), next times (C42), recurrence rules (C43)."""
import re

from vt import core
from vt import world as W
from vt.registry import harness
from vt.sym import And, Implies, Ite, Not, Or, Sym, SymInt, SymStr, mkstr, to_str_pieces, us_of

from .sim import SEC, STUBS, Sim

START = 1_740_000_000 * SEC  # 2025-02-19
DAY = 86400 * SEC
CRON = ["croniter: only its parser in replays; its ranges; what it is asked is captured", "random.randint: any value it may return"]
NAMES = ("minute", "hour", "day of month", "month", "day of week", "second")


def ranges():
    import croniter

    return croniter.croniter.RANGES[:6]


def text(*parts):
    """Text of constants and numbers."""
    if any(isinstance(p, Sym) for p in parts):
        return mkstr([x for p in parts for x in to_str_pieces(p)])
    return "".join(str(p) for p in parts)


def expand(ctx, w, schedule, name, start):
    """The fields the cron engine is given, or None if the schedule is refused."""
    from dsari import utils

    w.cron_fixed = SEC
    n = len(w.evs("cron_new"))
    try:
        utils.get_next_schedule_time(schedule, name, start_time=start)
    except (ValueError, ArithmeticError, KeyError, TypeError, IndexError):
        return None
    evs = w.evs("cron_new")[n:]
    ctx.prove(len(evs) > 0, "the schedule is evaluated")
    return evs[0].data["expr"].split(" ")


def number(ctx, t, label):
    if type(t) is SymStr and len(t.p) == 1 and t.p[0][0] == "d":
        return SymInt(t.p[0][1])
    if isinstance(t, Sym):
        raise core.Unsupported("number in {!r}".format(t))
    ctx.prove(re.fullmatch("[0-9]+", t) is not None, label)
    return int(t)


def steps(ctx, t, label):
    """(first, last, step) of a stepped field."""
    if isinstance(t, Sym):
        from vt.sym import re_match

        m = re_match("fullmatch", "([0-9]+)-([0-9]+)/([0-9]+)", t)
    else:
        m = re.fullmatch("([0-9]+)-([0-9]+)/([0-9]+)", t)
    ctx.prove(m is not None, label)
    return [number(ctx, m.group(i), label) for i in (1, 2, 3)]


def one_field(pos, item, rest="*"):
    f = [rest] * 6
    f[pos] = item
    out = []
    for i, x in enumerate(f):
        out += ([" "] if i else []) + [x]
    return text(*out)


def bounds_of(ctx, pos, kind):
    """The range an item asks for: the whole field or a symbolic part of it."""
    lo, hi = ranges()[pos]
    if kind == "whole":
        return lo, hi
    a = ctx.int("begin", lo, hi)
    b = ctx.int("end", lo, hi)
    ctx.assume(a <= b)
    return a, b


@harness(
    "C40",
    params={n: i for i, n in enumerate(NAMES)},
    bounds="H, H(a-b), R and R(a-b) in each of the six fields, every a and b of the field's range, every CRC-32 of a job name (2^32) and every random number, at two arbitrary times",
    stubs=CRON, cron_stub=True, covers=["whole", "part"],
)
def hashed_value(ctx, pos):
    w = W.World(ctx)
    name, crc = ctx.crc_name()
    h = ctx.choice("letter", ["H", "R"])
    kind = ctx.choice("kind", ["whole", "part"])
    a, b = bounds_of(ctx, pos, kind)
    if kind == "part" and ctx.sym:
        # a division by an unknown range: one width at a time
        b = a + ctx.choice("width", range(ranges()[pos][1] - ranges()[pos][0] + 1))
        ctx.assume(b <= ranges()[pos][1])
    elif kind == "part":
        ctx.choice("width", range(ranges()[pos][1] - ranges()[pos][0] + 1))
        b = a + ctx.values.get("width", 0)
    ctx.cover(kind)
    item = h if kind == "whole" else text(h, "(", a, "-", b, ")")
    sched = one_field(pos, item)
    f = expand(ctx, w, sched, name, ctx.dt_from_us(w.now))
    ctx.prove(f is not None and len(f) == 6, "a valid hashed field is accepted")
    for i in range(6):
        if i != pos:
            ctx.prove(f[i] == "*", "other fields are left alone")
    v = number(ctx, f[pos], "a hashed field denotes one value")
    ctx.prove(And(v >= a, v <= b), "a hashed value lies inside its range")
    if h == "H":
        w.now = ctx.dt_us("t1")
        g = expand(ctx, w, sched, name, ctx.dt_from_us(w.now))
        ctx.prove(g is not None and g[pos] == f[pos], "a hashed value is always the same")


@harness(
    "C40",
    params={n: i for i, n in enumerate(NAMES)},
    bounds="every value of each field's range for H and R, and the ends of several parts of it for H(a-b) and R(a-b): the solver finds a CRC-32 (a random number) which produces it",
    stubs=CRON, cron_stub=True,
)
def reachable(ctx, pos):
    from dsari import utils

    w = W.World(ctx, start_us=START)
    lo, hi = ranges()[pos]
    h = ctx.choice("letter", ["H", "R"])
    parts = [None, (lo, lo), (lo, lo + 1), (hi - 1, hi), (lo + 1, hi), (lo, hi - 1), (hi, hi)]
    part = ctx.choice("part", parts)
    a, b = part or (lo, hi)
    want = ctx.choice("value", range(a, b + 1) if part is None else sorted({a, b}))
    sched = one_field(pos, h if part is None else "{}({}-{})".format(h, a, b))
    label = "every value of the range can be produced"
    if ctx.sym:
        name, crc = ctx.crc_name()
        f = expand(ctx, w, sched, name, ctx.dt_from_us(w.now))
        ctx.prove(f is not None, "a valid hashed field is accepted")
        v = number(ctx, f[pos], "a hashed field denotes one value")
        ctx.prove(ctx.possible(v == want), label, str(want))
        return
    # on the real code: try many names (numbers)
    import random

    rnd = random.Random(1)
    for i in range(3000):
        ctx.values["randint" if i == 0 else "randint#{}".format(i)] = rnd.randrange(2**32)
        f = expand(ctx, w, sched, "job {}".format(i), ctx.dt_from_us(w.now))
        if f is not None and f[pos] == str(want):
            return
    ctx.prove(False, label, str(want))


@harness(
    "C40",
    bounds="H(a-b) and R(a-b) with b below a, every field, every such a and b, with and without a step; a field with H next to a malformed one",
    stubs=CRON, cron_stub=True,
)
def backwards(ctx):
    w = W.World(ctx, start_us=START)
    pos = ctx.choice("field", range(6))
    lo, hi = ranges()[pos]
    a, b = ctx.int("begin", lo, hi), ctx.int("end", lo, hi)
    ctx.assume(b < a)
    h = ctx.choice("letter", ["H", "R"])
    t = text(h, "(", a, "-", b, ")")
    if ctx.choice("step", [False, True]):
        t = text(t, "/", ctx.int("s", 1, hi))
    f = expand(ctx, w, one_field(pos, t), "job", ctx.dt_from_us(w.now))
    ctx.prove(f is None, "a range whose end is before its begin is refused")


# -- C41 ---------------------------------------------------------------------------------


@harness(
    "C41",
    params={n: i for i, n in enumerate(NAMES)},
    bounds="H/s, H(a-b)/s, R/s and R(a-b)/s in each of the six fields, every a <= b of the field's range, every step from 1 to the size of the field's range, every CRC-32 of a job name and random number",
    stubs=CRON, cron_stub=True, covers=["whole", "part"],
)
def hashed_steps(ctx, pos):
    w = W.World(ctx, start_us=START)
    lo, hi = ranges()[pos]
    h = ctx.choice("letter", ["H", "R"])
    kind = ctx.choice("kind", ["whole", "part"])
    a, b = bounds_of(ctx, pos, kind)
    ctx.cover(kind)
    s = ctx.choice("step", range(1, hi - lo + 2))
    name, crc = ctx.crc_name()
    item = text(h, "/", s) if kind == "whole" else text(h, "(", a, "-", b, ")/", s)
    f = expand(ctx, w, one_field(pos, item), name, ctx.dt_from_us(w.now))
    ctx.prove(f is not None and len(f) == 6, "a valid hashed step is accepted")
    for i in range(6):
        if i != pos:
            ctx.prove(f[i] == "*", "other fields are left alone")
    first, last, step = steps(ctx, f[pos], "a hashed step denotes every s-th value of a range")
    ctx.prove(step == s, "the step is kept")
    ctx.prove(last == b, "the steps reach to the end of the range")
    ctx.prove(And(first >= a, first <= a + s - 1), "the first value is less than a step above the range's start")
    ctx.prove(first <= b, "the first value is inside the range")


@harness(
    "C41",
    params={n: i for i, n in enumerate(NAMES)},
    bounds="every offset of steps 2, 3 and 10 (as far as the range has them): the solver finds a CRC-32 (random number) which produces it; steps of 0 are refused",
    stubs=CRON, cron_stub=True,
)
def offsets(ctx, pos):
    w = W.World(ctx, start_us=START)
    lo, hi = ranges()[pos]
    h = ctx.choice("letter", ["H", "R"])
    part = ctx.choice("part", [None, (lo + 1, hi)])
    a, b = part or (lo, hi)
    s = ctx.choice("step", [0, 2, 3, 10])
    item = "{}/{}".format(h, s) if part is None else "{}({}-{})/{}".format(h, a, b, s)
    sched = one_field(pos, item)
    if s == 0:
        f = expand(ctx, w, sched, "job", ctx.dt_from_us(w.now))
        ctx.prove(f is None, "a step of zero is refused")
        return
    if a + s - 1 > b:
        return
    want = ctx.choice("offset", range(s))
    label = "every offset can be produced"
    if ctx.sym:
        name, crc = ctx.crc_name()
        f = expand(ctx, w, sched, name, ctx.dt_from_us(w.now))
        ctx.prove(f is not None, "a valid hashed step is accepted")
        ctx.prove(ctx.possible(steps(ctx, f[pos], "a hashed step denotes every s-th value of a range")[0] == a + want), label, str(want))
        return
    import random

    rnd = random.Random(1)
    for i in range(2000):
        ctx.values["randint" if i == 0 else "randint#{}".format(i)] = rnd.randrange(2**32)
        f = expand(ctx, w, sched, "job {}".format(i), ctx.dt_from_us(w.now))
        if f is not None and f[pos].startswith("{}-".format(a + want)):
            return
    ctx.prove(False, label, str(want))


ALIASES = {
    "@midnight": "H H(0-2) * * *", "@hourly": "H * * * *", "@daily": "H H * * *", "@weekly": "H H * * H", "@monthly": "H H H * *",
    "@annually": "H H H H *", "@yearly": "H H H H *",
}


@harness(
    ("C41",),
    bounds="all seven aliases, every CRC-32 of a job name",
    stubs=CRON, cron_stub=True,
)
def aliases(ctx):
    w = W.World(ctx, start_us=START)
    name, crc = ctx.crc_name()
    a = ctx.choice("alias", sorted(ALIASES))
    f = expand(ctx, w, a, name, ctx.dt_from_us(w.now))
    g = expand(ctx, w, ALIASES[a], name, ctx.dt_from_us(w.now))
    label = "an alias is its documented hashed form"
    ctx.prove(f is not None and g is not None and len(f) == len(g) == 6, label)
    for x, y in zip(f, g):
        ctx.prove(x == y, label)


# -- C42 ---------------------------------------------------------------------------------

SEPS = [" ", "  ", "\t", " \t "]


@harness(
    "C42",
    bounds="five-field expressions with symbolic and hashed items, any of four kinds of white space between any two fields (thorough: at every place), and around the expression, every CRC-32 of a job name",
    stubs=CRON, cron_stub=True,
)
def five_fields(ctx):
    w = W.World(ctx, start_us=START)
    name, crc = ctx.crc_name()
    m = ctx.int("minute", 0, 59)
    items = [m, "H", ctx.choice("item", ["*", "H(1-9)/2", "1,2"]), "*/2", "*"]
    deep = core.TIER == "thorough"
    at = ctx.choice("at", [0, 1, 2, 3]) if not deep else None
    sep = [" "] * 4
    for i in range(4):
        if deep or i == at:
            sep[i] = ctx.choice("sep_{}".format(i), SEPS)
    lead, trail = ctx.choice("lead", ["", " "]), ctx.choice("trail", ["", " "])
    parts = [lead, items[0]]
    for s, x in zip(sep, items[1:]):
        parts += [s, x]
    plain = [x for i in items for x in (i, " ")]
    want = expand(ctx, w, text(*(plain + ["H"])), name, ctx.dt_from_us(w.now))
    got = expand(ctx, w, text(*(parts + [trail])), name, ctx.dt_from_us(w.now))
    label = "five fields are the same as those with H for the seconds"
    ctx.prove(want is not None and len(want) == 6, label)
    ctx.prove(got is not None, label)
    got = [x for x in got if not isinstance(x, str) or x != ""]
    ctx.prove(len(got) == 6, label)
    for x, y in zip(got, want):
        ctx.prove(x == y, label)


def zone(ctx, w, kind, near):
    """A zone of the kind; returns (its name or None, offset as a function of the instant)."""
    off1 = ctx.int("off1", -12 * 60, 12 * 60) * 60 * SEC
    if kind == "fixed":
        w.zones = {"Zone/A": (off1,)}
        return "Zone/A", lambda us: off1
    trans = ctx.int("trans", near // SEC - 3 * 86400, near // SEC + 3 * 86400) * SEC
    off2 = off1 + ctx.choice("change", [60, -60]) * 60 * SEC
    if kind == "change":
        w.zones = {"Zone/A": (off1, trans, off2)}
        return "Zone/A", lambda us: Ite(us < trans, off1, off2)
    raise AssertionError(kind)


@harness(
    "C42",
    params={"fixed": "fixed", "change": "change", "local": "local"},
    bounds="any schedule (any set of whole seconds as its matching times), any two times to ask and the answer to the first asked again, every CRC-32 of a job name; in a zone of any fixed offset, with a change of its offset by an hour at any moment around, or in the local zone of any offset",
    stubs=["croniter: its contract (the next matching whole second strictly after the start)"], cron_stub=True,
)
def next_time(ctx, kind):
    from dsari import utils

    w = W.World(ctx, start_us=ctx.int("start", START, START + 30 * DAY))
    if kind == "local":
        ctx.set_local_offset()
        z = None
    else:
        z, _ = zone(ctx, w, kind, START + 15 * DAY)
    name, crc = ctx.crc_name()
    sched = "1 2 3 4 5 6"

    def ask(us):
        r = utils.get_next_schedule_time(sched, name, start_time=utils.dtlocalize(ctx.dt_from_us(us), z))
        e = w.evs("cron")
        ctx.prove(len(e) > 0, "the schedule is evaluated")
        return us_of(r), e[-1].data["next"]

    r1, n1 = ask(w.now)
    ctx.prove(r1 > w.now, "the next time is later than the given one")
    off = r1 - n1
    label = "the next time is a matching whole second and the job's part of a second"
    ctx.prove(And(off >= 0, off <= SEC), label)
    s2 = ctx.int("start2", START, START + 30 * DAY)
    r2, n2 = ask(s2)
    ctx.prove(r2 - n2 == off, label)
    r3, n3 = ask(r1)
    label = "an occurrence leads to the following one"
    ctx.prove(n3 > n1, label)
    ctx.prove(n3 == w.cron_next(w.evs("cron")[-1].data["expr"], n1), label)


@harness(
    "C42",
    params={"named": 0, "local": 1},
    bounds="the daemon with a daily schedule in a named zone, or the local one by default, whose offset (any) changes by an hour in one night within three days of its start: every run within three looks (thorough: four) at arbitrary times up to two days apart",
    stubs=STUBS + ["croniter: exact answers for one time of the day (the real croniter in replays)"], cron_stub=True, covers=["later", "before"],
    max_seconds=300,
)
def wall_clock(ctx, local):
    near = START + 20 * DAY
    off1 = ctx.int("off1", -12 * 60, 12 * 60)
    off2 = off1 + ctx.choice("change", [60, -60])
    day = ctx.int("day", 0, 2)
    # at night
    tod = ctx.int("tod", 0, 4 * 3600)
    trans = (near // DAY) * DAY + day * DAY + tod * SEC - off1 * 60 * SEC
    if local:
        ctx.set_local_zone(trans, off1, off2)
    job = {"command": ["x"], "schedule": "30 12 * * * 15"}
    if not local:
        job["schedule_timezone"] = "Zone/A"
    s = Sim(ctx, {"jobs": {"a": job}}, start_us=ctx.int("start", near - DAY, near + 2 * DAY))
    w = s.w
    w.fixed_order = True
    w.cron_daily = True
    if not local:
        w.zones = {"Zone/A": (off1 * 60 * SEC, trans, off2 * 60 * SEC)}
    s.max_jump = 2 * DAY
    s.max_idle = 9
    s.exits = lambda live: (live[0], 0)
    s.start()
    s.loop(3 if core.TIER == "thorough" else 2)
    import zlib

    from .sim import crc_us

    for e in w.evs("fork"):
        us = us_of(e.data["run"].schedule_time)
        after = us >= trans
        if ctx.decide(after):
            ctx.cover("later")
        else:
            ctx.cover("before")
        wall = us + Ite(after, off2, off1) * 60 * SEC
        want = (12 * 3600 + 30 * 60 + 15) * SEC + crc_us("a")
        d = wall % DAY - want
        ctx.prove(And(d >= -1, d <= 1), "a run is scheduled at its schedule's wall clock time")


# -- C43 ---------------------------------------------------------------------------------

RULE = ["dateutil.rrule: plain rules by their exact contract (the real ones in replays)"]
PLAIN = {
    "RRULE:FREQ=DAILY": 86400, "RRULE:FREQ=HOURLY": 3600, "RRULE:FREQ=MINUTELY;INTERVAL=5": 300, "RRULE:FREQ=HOURLY;INTERVAL=6": 21600,
    "RRULE:FREQ=SECONDLY": 1, "rrule:freq=minutely": 60, "Rrule:Freq=Minutely;interval=10": 600,
}


def some_name(ctx):
    """A job name of any CRC-32; in the quick tier of one of several."""
    name, crc = ctx.crc_name()
    if core.TIER != "thorough":
        ctx.assume(crc == ctx.choice("hash", [1_740_000_001, 2**32 - 1]))
    return name, crc


def asker(ctx, w, rule, name, z):
    from dsari import utils

    def ask(us):
        r = utils.get_next_schedule_time(rule, name, start_time=utils.dtlocalize(ctx.dt_from_us(us), z))
        return None if r is None else us_of(r)

    return ask


@harness(
    "C43",
    params={"fixed": "fixed", "local": "local"},
    bounds="plain rules whose period divides a day, any two times to ask and the first answer asked again, two CRC-32 values of the job name (thorough: every), in a zone of any fixed offset or the local zone",
    stubs=RULE, cron_stub=True,
)
def rrule_anchor(ctx, kind):
    w = W.World(ctx, start_us=ctx.int("start", START, START + 30 * DAY))
    z = None
    if kind == "local":
        ctx.set_local_offset()
    else:
        z, _ = zone(ctx, w, kind, START)
    name, crc = some_name(ctx)
    rule = ctx.choice("rule", sorted(PLAIN))
    p = PLAIN[rule] * SEC
    ask = asker(ctx, w, rule, name, z)
    r1 = ask(w.now)
    ctx.prove(r1 is not None, "a rule without end has a next time")
    ctx.prove(And(r1 > w.now, r1 <= w.now + p + SEC), "the next time is the first later one")
    r2 = ask(ctx.int("start2", START, START + 30 * DAY))
    ctx.prove(r2 is not None, "a rule without end has a next time")
    label = "the times are the same whenever asked"
    ctx.prove((r1 - r2) % p == 0, label)
    r3 = ask(r1)
    ctx.prove(r3 - r1 == p, "an occurrence leads to the following one")


@harness(
    "C43",
    params={"daily": "RRULE:FREQ=DAILY", "hourly": "RRULE:FREQ=HOURLY"},
    bounds="a daily and an hourly rule in a zone of any offset which changes by an hour at any moment around, any two times to ask and the first answer asked again, two CRC-32 values of the job name (thorough: every)",
    stubs=RULE, cron_stub=True,
)
def rrule_change(ctx, rule):
    w = W.World(ctx, start_us=ctx.int("start", START, START + 6 * DAY))
    z, off = zone(ctx, w, "change", START + 3 * DAY)
    name, crc = some_name(ctx)
    ask = asker(ctx, w, rule, name, z)
    p = PLAIN[rule] * SEC
    r1 = ask(w.now)
    ctx.prove(r1 is not None, "a rule without end has a next time")
    ctx.prove(r1 > w.now, "the next time is later than the given one")
    ctx.prove(r1 <= w.now + p + 3601 * SEC, "no occurrence is left out")
    r2 = ask(r1)
    ctx.prove(r2 > r1, "the next time is later than the given one")
    if p == DAY:
        # once a day, apart from nights in which the clock shows the time twice or never
        ctx.prove(r2 - r1 >= DAY - 3600 * SEC, "a daily rule is due once a day")
        s2 = ctx.int("start2", START, START + 6 * DAY)
        r3 = ask(s2)
        d = (r1 + off(r1) - r3 - off(r3)) % DAY
        ctx.prove(Or(d == 0, d == 3600 * SEC, d == DAY - 3600 * SEC), "the times are the same whenever asked")


@harness(
    "C43",
    bounds="daily and hourly rules with an end (with and without Z, with and without a time), asked at any time within 40 days around the end, any zone offset, two CRC-32 values of the job name (thorough: every)",
    stubs=RULE, cron_stub=True, covers=["ended", "going on"],
)
def rrule_until(ctx):
    end = 1_742_288_400  # 2025-03-18T09:00:00Z
    w = W.World(ctx, start_us=ctx.int("start", (end - 20 * 86400) * SEC, (end + 20 * 86400) * SEC))
    z, off = zone(ctx, w, "fixed", START)
    name, crc = some_name(ctx)
    freq = ctx.choice("freq", ["DAILY", "HOURLY"])
    form = ctx.choice("form", ["20250318T090000", "20250318T090000Z", "20250318"])
    at = end if len(form) > 8 else end - 9 * 3600
    utc = form.endswith("Z")
    ask = asker(ctx, w, "RRULE:FREQ={};UNTIL={}".format(freq, form), name, z)
    last = at * SEC - (0 if utc else off(0))
    p = (86400 if freq == "DAILY" else 3600) * SEC
    r = ask(w.now)
    if r is None:
        ctx.cover("ended")
        ctx.prove(w.now + p > last, "a rule goes on until its end")
        return
    ctx.cover("going on")
    ctx.prove(r > w.now, "the next time is later than the given one")
    ctx.prove(r <= last + SEC, "a rule has no times after its end")


LONG = {"RRULE:FREQ=WEEKLY": 7 * 86400, "RRULE:FREQ=DAILY;INTERVAL=2": 2 * 86400, "RRULE:FREQ=HOURLY;INTERVAL=7": 7 * 3600}


@harness(
    "C43",
    bounds="plain rules whose period does not divide a day, asked at any two times of 30 days and the first answer asked again, two CRC-32 values of the job name (thorough: every), UTC",
    stubs=RULE, cron_stub=True,
)
def rrule_long(ctx):
    w = W.World(ctx, start_us=ctx.int("start", START, START + 30 * DAY))
    w.zones = {"Zone/A": (0,)}
    name, crc = some_name(ctx)
    rule = ctx.choice("rule", sorted(LONG))
    p = LONG[rule] * SEC
    ask = asker(ctx, w, rule, name, "Zone/A")
    r1 = ask(w.now)
    ctx.prove(r1 is not None, "a rule without end has a next time")
    ctx.prove(And(r1 > w.now, r1 <= w.now + p + SEC), "the next time is the first later one")
    r2 = ask(ctx.int("start2", START, START + 30 * DAY))
    ctx.prove((r1 - r2) % p == 0, "a rule with a period not dividing a day has the same times whenever asked")
