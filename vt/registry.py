"""Harness registry."""
import importlib

HARNESSES = {}  # property id -> [Harness]


class Harness:
    def __init__(self, prop, name, fn, module, **opt):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.module = module
        self.bounds = opt.pop("bounds", "")
        self.stubs = opt.pop("stubs", [])
        self.covers = opt.pop("covers", [])
        self.cron_stub = opt.pop("cron_stub", False)
        self.param = opt.pop("param", None)
        self.tier = opt.pop("tier", "quick")
        self.max_seconds = opt.pop("max_seconds", 240)
        self.max_paths = opt.pop("max_paths", 200000)
        self.query_ms = opt.pop("query_ms", 30000)
        self.yields = opt.pop("yields", False)
        self.samples = opt.pop("samples", 12)
        assert not opt, opt

    def run(self, ctx):
        if self.param is not None:
            self.fn(ctx, self.param)
        else:
            self.fn(ctx)


def harness(prop, params=None, **opt):
    """Register fn as a harness of a property; params: {suffix: value}."""
    props = prop if isinstance(prop, (list, tuple)) else [prop]

    def deco(fn):
        for p in props:
            if params is None:
                h = Harness(p, fn.__name__, fn, fn.__module__, **dict(opt))
                HARNESSES.setdefault(p, []).append(h)
            else:
                for suf, val in params.items():
                    o = dict(opt)
                    o["param"] = val
                    if isinstance(o.get("covers"), dict):
                        o["covers"] = o["covers"].get(suf, [])
                    h = Harness(p, "{}[{}]".format(fn.__name__, suf), fn, fn.__module__, **o)
                    HARNESSES.setdefault(p, []).append(h)
        return fn

    return deco


MODULES = ["daemon", "triggers", "child", "db", "config", "schedule", "reports", "render", "listing"]


def load():
    import os

    base = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks")
    for m in MODULES:
        if os.path.exists(os.path.join(base, m + ".py")):
            importlib.import_module("checks." + m)
    return HARNESSES


def find(prop, name):
    load()
    for h in HARNESSES.get(prop, []):
        if h.name == name:
            return h
    raise KeyError((prop, name))
