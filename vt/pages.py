"""jinja2: the code it generates from templates is executed like the code under test."""
import jinja2
import jinja2.environment
import markupsafe

from . import core, instrument, rt
from .sym import Sym, SymBool, SymStr, SymInt, Unsupported, contains_sym, mkstr, str_join, to_str_pieces

ESCAPES = (("&", "&amp;"), ("<", "&lt;"), (">", "&gt;"), ("'", "&#39;"), ('"', "&#34;"))
SPECIAL = "&<>'\""


def _ctx_symbolic():
    return core.CTX is not None and getattr(core.CTX, "sym", False)


def escape(v):
    """markupsafe.escape for texts with symbolic parts."""
    if not contains_sym(v):
        return markupsafe.escape(v)
    if type(v) is SymStr and v.safe:
        return v
    out = []
    for k, x in to_str_pieces(v):
        if k == "c":
            out.append((k, str(markupsafe.escape(x))))
        elif k in ("d", "r", "dt", "td") or k == "o" and isinstance(x, tuple) and x[0] == "head of":
            out.append((k, x))
        elif k == "u":
            for ch, t in ESCAPES:
                if core.CTX.decide(SymBool(x == ord(ch))):
                    out.append(("c", t))
                    break
            else:
                out.append((k, x))
        else:
            raise Unsupported("escaping a text of kind {}".format(k))
    return markup(mkstr(out))


def markup(v="", *a, **k):
    if type(v) is SymStr:
        v = SymStr(v.p)
        v.safe = True
        return v
    return markupsafe.Markup(v, *a, **k)


def concat(parts):
    parts = list(parts)
    if not contains_sym(parts):
        return "".join(parts)
    return str_join("", parts)


def markup_join(seq):
    return markup(concat([escape(x) for x in seq]))


def str_join_(seq):
    return concat([rt._str(x) for x in seq])


CACHE = {}


DONE = []


def install():
    if DONE:
        return
    DONE.append(1)
    real_compile = jinja2.Environment._compile
    real = jinja2.Environment.compile

    def _compile(self, source, filename):
        if _ctx_symbolic():
            return instrument.instrument_source(source, filename)
        return real_compile(self, source, filename)

    def compile(self, source, name=None, filename=None, raw=False, defer_init=False):
        if raw or not isinstance(source, str):
            return real(self, source, name, filename, raw, defer_init)
        auto = self.autoescape
        if callable(auto):
            auto = auto(name)
        key = (source, name, filename, defer_init, bool(auto), tuple(sorted(self.extensions)), self.undefined, self.trim_blocks, self.lstrip_blocks, self.keep_trailing_newline)
        if key not in CACHE:
            CACHE[key] = real(self, source, name, filename, raw, defer_init)
        return CACHE[key]

    jinja2.Environment._compile = _compile
    jinja2.Environment.compile = compile
    jinja2.Environment.concat = staticmethod(concat)
    jinja2.environment.concat = concat
    rt.register(markupsafe.escape, escape)
    rt.register(markupsafe.Markup, markup)
    import jinja2.runtime as r

    rt.register(r.markup_join, markup_join)
    rt.register(r.str_join, str_join_)
