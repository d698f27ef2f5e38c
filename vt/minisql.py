"""A small SQL engine over (possibly symbolic) values, standing in for sqlite3.

It implements the statements dsari issues (SELECT / INSERT / UPDATE / DELETE /
CREATE TABLE / sqlite_master and information_schema probes) with sqlite's transaction
rules, so that database code runs symbolically.  Replays use the real sqlite3.
"""
import copy
import re
import sqlite3 as _sqlite3

from .core import Unsupported
from .sym import Sym, SymStr, SymReal, SymInt, SymBool, py_type, zreal, zint

TOK = re.compile(
    r"\s*(?:(?P<num>\d+(?:\.\d+)?)|(?P<str>'(?:[^']|'')*')|(?P<qid>\"[^\"]*\"|`[^`]*`)"
    r"|(?P<ph>\?|%s|:[a-zA-Z_]\w*)|(?P<id>[A-Za-z_][\w.]*)|(?P<op><>|!=|<=|>=|==|\|\||[(),*=<>;+\-/%]))"
)


def tokenize(sql):
    out = []
    i = 0
    sql = re.sub(r"--[^\n]*", " ", sql)
    while i < len(sql):
        if sql[i:].strip() == "":
            break
        m = TOK.match(sql, i)
        if not m:
            raise Unsupported("SQL near {!r}".format(sql[i : i + 20]))
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == "qid":
            k, v = "id", v[1:-1]
        out.append((k, v))
    return out


class P:
    def __init__(self, sql):
        self.t = tokenize(sql)
        self.i = 0
        self.nph = 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else (None, None)

    def kw(self, *words):
        for j, w in enumerate(words):
            k, v = self.peek(j)
            if k != "id" or v.upper() != w:
                return False
        self.i += len(words)
        return True

    def op(self, o):
        k, v = self.peek()
        if k == "op" and v == o:
            self.i += 1
            return True
        return False

    def need(self, ok, what="syntax"):
        if not ok:
            raise Unsupported("SQL {}: at {!r}".format(what, self.t[self.i : self.i + 4]))

    def ident(self):
        k, v = self.peek()
        self.need(k == "id", "identifier")
        self.i += 1
        return v

    # expressions ------------------------------------------------------
    def expr(self):
        l = self.conj()
        while self.kw("OR"):
            l = ("or", l, self.conj())
        return l

    def conj(self):
        l = self.neg()
        while self.kw("AND"):
            l = ("and", l, self.neg())
        return l

    def neg(self):
        if self.kw("NOT"):
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        l = self.add()
        while True:
            k, v = self.peek()
            if k == "op" and v in ("=", "==", "!=", "<>", "<", ">", "<=", ">="):
                self.i += 1
                l = ("cmp", {"==": "=", "<>": "!="}.get(v, v), l, self.add())
                continue
            if self.kw("IS", "NOT", "NULL") or self.kw("NOTNULL"):
                l = ("not", ("isnull", l))
                continue
            if self.kw("IS", "NULL") or self.kw("ISNULL"):
                l = ("isnull", l)
                continue
            if self.kw("IS", "NOT"):
                l = ("not", ("is", l, self.add()))
                continue
            if self.kw("IS"):
                l = ("is", l, self.add())
                continue
            neg = self.peek()[1] is not None and self.peek()[0] == "id" and self.peek()[1].upper() == "NOT" and self.peek(1)[0] == "id"
            if neg:
                self.i += 1
            if self.kw("IN"):
                self.need(self.op("("))
                if self.is_kw("SELECT"):
                    r = ("insel", l, self.select())
                    self.need(self.op(")"))
                else:
                    items = []
                    if not self.op(")"):
                        items.append(self.expr())
                        while self.op(","):
                            items.append(self.expr())
                        self.need(self.op(")"))
                    r = ("in", l, items)
            elif self.kw("LIKE") or self.kw("ILIKE"):
                r = ("like", l, self.add())
                if self.kw("ESCAPE"):
                    r += (self.add(),)
            elif self.kw("GLOB"):
                r = ("glob", l, self.add())
            elif self.kw("BETWEEN"):
                lo = self.add()
                self.need(self.kw("AND"))
                hi = self.add()
                r = ("and", ("cmp", ">=", l, lo), ("cmp", "<=", l, hi))
            elif neg:
                self.need(False, "NOT")
            else:
                return l
            l = ("not", r) if neg else r

    def is_kw(self, w):
        k, v = self.peek()
        return k == "id" and v.upper() == w

    def add(self):
        l = self.mul()
        while True:
            for o in "+-":
                if self.op(o):
                    l = ("arith", o, l, self.mul())
                    break
            else:
                return l

    def mul(self):
        l = self.cat()
        while True:
            for o in "*/%":
                if self.op(o):
                    l = ("arith", o, l, self.cat())
                    break
            else:
                return l

    def cat(self):
        l = self.atom()
        while True:
            if self.op("||"):
                l = ("cat", l, self.atom())
            elif self.kw("COLLATE"):
                l = ("collate", l, self.ident().upper())
            else:
                return l

    END = ("WHERE", "ORDER", "LIMIT", "GROUP", "HAVING", "UNION", "JOIN", "INNER", "LEFT", "CROSS", "ON", "USING", "FROM", "ASC", "DESC", "OFFSET", "SET", "NATURAL", "EXCEPT", "INTERSECT", "WINDOW", "NULLS")

    def alias(self):
        if self.kw("AS"):
            return self.ident()
        k, v = self.peek()
        if k == "id" and v.upper() not in self.END:
            self.i += 1
            return v
        return None

    def source(self):
        if self.op("("):
            q = self.select()
            self.need(self.op(")"))
            return ("sub", q, self.alias())
        return ("table", self.ident(), self.alias())

    def select(self):
        """A whole SELECT, from the word on."""
        q = self.core()
        while True:
            if self.kw("UNION", "ALL"):
                q = {"union": (q, self.core(), True)}
            elif self.kw("UNION"):
                q = {"union": (q, self.core(), False)}
            else:
                break
        q["order"], q["limit"], q["offset"] = [], None, None
        if self.kw("ORDER", "BY"):
            while True:
                e = self.expr()
                desc = self.kw("DESC")
                if not desc:
                    self.kw("ASC")
                nulls = None
                if self.kw("NULLS", "FIRST"):
                    nulls = "first"
                elif self.kw("NULLS", "LAST"):
                    nulls = "last"
                q["order"].append((e, desc, nulls))
                if not self.op(","):
                    break
        if self.kw("LIMIT"):
            q["limit"] = self.add()
            if self.kw("OFFSET"):
                q["offset"] = self.add()
            elif self.op(","):
                q["offset"], q["limit"] = q["limit"], self.add()
        return q

    def core(self):
        self.need(self.kw("SELECT"))
        q = {"distinct": self.kw("DISTINCT"), "cols": [], "from": [], "where": None, "group": None, "having": None}
        self.kw("ALL")
        while True:
            k, v = self.peek()
            if self.op("*"):
                q["cols"].append(("*", None))
            elif k == "id" and v.endswith(".") and self.peek(1) == ("op", "*"):
                self.i += 2
                q["cols"].append(("*", v[:-1]))
            else:
                e = self.expr()
                q["cols"].append((e, self.alias()))
            if not self.op(","):
                break
        if self.kw("FROM"):
            q["from"].append((self.source(), None, False))
            while True:
                if self.op(","):
                    q["from"].append((self.source(), None, False))
                    continue
                left = self.kw("LEFT", "OUTER") or self.kw("LEFT")
                if not left:
                    self.kw("INNER") or self.kw("CROSS")
                if not self.kw("JOIN"):
                    self.need(not left)
                    break
                src = self.source()
                on = None
                if self.kw("ON"):
                    on = self.expr()
                elif self.kw("USING"):
                    raise Unsupported("SQL USING")
                q["from"].append((src, on, left))
        if self.kw("WHERE"):
            q["where"] = self.expr()
        if self.kw("GROUP", "BY"):
            q["group"] = [self.expr()]
            while self.op(","):
                q["group"].append(self.expr())
            if self.kw("HAVING"):
                q["having"] = self.expr()
        return q

    def atom(self):
        k, v = self.peek()
        if k == "num":
            self.i += 1
            return ("lit", float(v) if "." in v else int(v))
        if k == "str":
            self.i += 1
            return ("lit", v[1:-1].replace("''", "'"))
        if k == "ph":
            self.i += 1
            if v in ("?", "%s"):
                self.nph += 1
                return ("ph", self.nph - 1)
            return ("ph", v[1:])
        if k == "op" and v == "(":
            self.i += 1
            if self.is_kw("SELECT"):
                e = ("scalar", self.select())
            else:
                e = self.expr()
                if self.op(","):
                    raise Unsupported("SQL row value")
            self.need(self.op(")"))
            return e
        if k == "op" and v == "-":
            self.i += 1
            return ("neg", self.atom())
        if k == "id":
            if v.upper() == "NULL":
                self.i += 1
                return ("lit", None)
            if v.upper() == "EXISTS":
                self.i += 1
                self.need(self.op("("))
                q = self.select()
                self.need(self.op(")"))
                return ("exists", q)
            if v.upper() == "CASE":
                self.i += 1
                base = None if self.is_kw("WHEN") else self.expr()
                arms, other = [], ("lit", None)
                while self.kw("WHEN"):
                    c = self.expr()
                    self.need(self.kw("THEN"))
                    arms.append((c if base is None else ("cmp", "=", base, c), self.expr()))
                if self.kw("ELSE"):
                    other = self.expr()
                self.need(self.kw("END"))
                return ("case", arms, other)
            if v.upper() == "CAST" and self.peek(1) == ("op", "("):
                self.i += 2
                e = self.expr()
                self.need(self.kw("AS"))
                ty = self.ident().upper()
                self.need(self.op(")"))
                return ("cast", e, ty)
            if v.upper() in ("TRUE", "FALSE"):
                self.i += 1
                return ("lit", int(v.upper() == "TRUE"))
            if self.peek(1) == ("op", "("):
                self.i += 2
                if self.op("*"):
                    args = ["*"]
                    self.need(self.op(")"))
                else:
                    args = []
                    if self.kw("DISTINCT"):
                        raise Unsupported("SQL DISTINCT aggregate")
                    if not self.op(")"):
                        args.append(self.expr())
                        while self.op(","):
                            args.append(self.expr())
                        self.need(self.op(")"))
                return ("fn", v.lower(), args)
            self.i += 1
            return ("col", v)
        self.need(False, "expression")


def nonnull(v):
    return v is not None


def cmp_vals(op, a, b):
    """SQL comparison; None (NULL) result is unknown."""
    if a is None or b is None:
        return None
    ta, tb = py_type(a), py_type(b)
    num = (int, float, bool)
    if (ta in num) != (tb in num):
        # different storage classes: numbers sort before text
        if op == "=":
            return False
        if op == "!=":
            return True
        less = ta in num
        return less if op in ("<", "<=") else not less
    if op == "=":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return a < b
    if op == "<=":
        return a <= b
    if op == ">":
        return a > b
    return a >= b


def as_number(v):
    if py_type(v) in (int, float):
        return v
    if py_type(v) is bool:
        return v + 0
    if isinstance(v, Sym):
        raise Unsupported("SQL number of a symbolic text")
    m = re.match(r"\s*[-+]?(\d+(\.\d*)?|\.\d+)([eE][-+]?\d+)?", v) if isinstance(v, str) else None
    if not m:
        return 0
    t = m.group().strip()
    return int(t) if re.fullmatch(r"[-+]?\d+", t) else float(t)


def as_text(v):
    if py_type(v) is str:
        return v
    from .rt import _str

    return _str(v)


def nocase(v):
    if isinstance(v, Sym):
        raise Unsupported("SQL NOCASE of a symbolic value")
    return v if not isinstance(v, str) else "".join(c.lower() if c.isascii() else c for c in v)


def like(a, pat, esc=None):
    """sqlite's LIKE: ASCII letters in any case, _ and % as wildcards."""
    if a is None or pat is None:
        return None
    a, pat = as_text(a), as_text(pat)
    if isinstance(pat, Sym):
        c = getattr(pat, "const", None)
        raise Unsupported("SQL LIKE with a symbolic pattern")
    out = ""
    i = 0
    while i < len(pat):
        c = pat[i]
        if esc is not None and c == esc and i + 1 < len(pat):
            i += 1
            c = pat[i]
            lit = True
        else:
            lit = False
        if not lit and c == "%":
            out += "(?s:.*)"
        elif not lit and c == "_":
            out += "(?s:.)"
        elif c.isascii() and c.isalpha():
            out += "[{}{}]".format(c.lower(), c.upper())
        else:
            out += re.escape(c)
        i += 1
    if isinstance(a, Sym):
        import z3
        from .sym import re_to_z3

        return bool(SymBool(z3.InRe(a.z(), re_to_z3(out))))
    return re.fullmatch(out, a) is not None


AGG = ("count", "max", "min", "sum", "total", "avg", "group_concat")


def aggregates(e, out):
    """The aggregate calls within an expression (not within its subqueries)."""
    if isinstance(e, tuple):
        if e and e[0] == "fn" and e[1] in AGG and (e[1] == "count" or len(e[2]) == 1):
            out.append(e)
            return
        if e and e[0] in ("scalar", "exists"):
            return
        for x in e:
            aggregates(x, out)
    elif isinstance(e, list):
        for x in e:
            aggregates(x, out)


class Row:
    def __init__(self, names, vals):
        self._n = names
        self._v = vals

    def keys(self):
        return list(self._n)

    def __getitem__(self, k):
        if isinstance(k, (int, slice)):
            return self._v[k]
        for n, v in zip(self._n, self._v):
            if n.lower() == k.lower():
                return v
        raise IndexError("No item with that key")

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)


class DictRow(dict):
    pass


class Store:
    """Tables with a committed state and, per connection, a working state."""

    def __init__(self):
        self.tables = {}  # name -> (cols [(name, affinity, unique)], rows [dict])

    def snapshot(self):
        return {k: (c, [dict(r) for r in rows]) for k, (c, rows) in self.tables.items()}


class Cursor:
    def __init__(self, conn):
        self.connection = conn
        self._rows = []
        self.rowcount = -1
        self.lastrowid = None
        self.description = None
        self.closed = False

    def execute(self, sql, params=()):
        if self.closed or self.connection.closed:
            raise _sqlite3.ProgrammingError("Cannot operate on a closed database.")
        self._rows = list(self.connection._execute(self, sql, params) or [])
        return self

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)
        return self

    def fetchone(self):
        return self._rows.pop(0) if self._rows else None

    def fetchall(self):
        r, self._rows = self._rows, []
        return r

    def fetchmany(self, n=1):
        r, self._rows = self._rows[:n], self._rows[n:]
        return r

    def __iter__(self):
        while self._rows:
            yield self._rows.pop(0)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Conn:
    def __init__(self, store, hook=None, dialect="sqlite", rows="tuple"):
        self.store = store
        self.work = store.snapshot()
        self.in_tx = False
        self.row_factory = None
        self.cursor_factory = None
        self.hook = hook or (lambda what, detail=None: None)
        self.dialect = dialect
        self.rows = rows
        self.closed = False
        self.isolation_level = ""

    @property
    def in_transaction(self):
        return self.in_tx

    def cursor(self, *a, **k):
        if self.closed:
            raise _sqlite3.ProgrammingError("Cannot operate on a closed database.")
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def commit(self):
        if self.closed:
            raise _sqlite3.ProgrammingError("Cannot operate on a closed database.")
        self.hook("commit", None)
        if self.in_tx:
            self._commit()
        self.hook("committed", None)

    def _commit(self):
        self.store.tables = {
            k: (c, [dict(r) for r in rows]) for k, (c, rows) in self.work.items()
        }
        self.in_tx = False

    def rollback(self):
        self.work = self.store.snapshot()
        self.in_tx = False

    def close(self):
        self.closed = True
        self.work = None

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        from .core import EngineSignal

        if t is not None and issubclass(t, EngineSignal):
            return False
        if t is None:
            self.commit()
        else:
            self.rollback()
        return False

    # ------------------------------------------------------------------
    def _val(self, e, row, params):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "ph":
            v = params[e[1]]
            if isinstance(v, str):
                from .rt import encodable

                encodable(v)  # (the real module refuses lone surrogates)
            return v
        if k == "col":
            if row is not None:
                n = e[1].lower()
                if n in row:
                    return row[n]
                for c in row:
                    if c.lower() == n:
                        return row[c]
                if "." not in n and ("#ambiguous", n) in row:
                    raise _sqlite3.OperationalError("ambiguous column name: " + e[1])
            raise _sqlite3.OperationalError("no such column: " + e[1])
        if k == "neg":
            v = self._val(e[1], row, params)
            return None if v is None else -v
        if k == "fn":
            return self._fn(e, row, params)
        if k == "arith":
            a, b = self._val(e[2], row, params), self._val(e[3], row, params)
            if a is None or b is None:
                return None
            a, b = as_number(a), as_number(b)
            if e[1] == "+":
                return a + b
            if e[1] == "-":
                return a - b
            if e[1] == "*":
                return a * b
            if bool(b == 0):
                return None
            whole = py_type(a) is int and py_type(b) is int
            if e[1] == "/":
                if not whole:
                    return a / b
                q = abs(a) // abs(b)
                return q if bool((a >= 0) == (b >= 0)) else -q
            if not whole:
                raise Unsupported("SQL % of reals")
            r = abs(a) % abs(b)
            return r if bool(a >= 0) else -r
        if k == "cat":
            a, b = self._val(e[1], row, params), self._val(e[2], row, params)
            if a is None or b is None:
                return None
            return as_text(a) + as_text(b)
        if k == "case":
            for c, v in e[1]:
                if self._truth(c, row, params) is True:
                    return self._val(v, row, params)
            return self._val(e[2], row, params)
        if k == "cast":
            v = self._val(e[1], row, params)
            if v is None:
                return None
            if "INT" in e[2]:
                v = as_number(v)
                return v if py_type(v) is int else v.__trunc__()
            if e[2] in ("REAL", "FLOAT", "DOUBLE", "NUMERIC"):
                return as_number(v) * 1.0
            if e[2] in ("TEXT", "VARCHAR", "CHAR"):
                return as_text(v)
            raise Unsupported("SQL CAST AS " + e[2])
        if k == "collate":
            return self._val(e[1], row, params)
        if k == "scalar":
            names, data = self._query(e[1], params, row)
            if len(names) != 1:
                raise _sqlite3.OperationalError("sub-select returns {} columns - expected 1".format(len(names)))
            return data[0][0] if data else None
        if k in ("cmp", "and", "or", "not", "in", "isnull", "is", "insel", "like", "glob", "exists"):
            t = self._truth(e, row, params)
            return None if t is None else int(t)
        raise Unsupported("SQL expression {}".format(e[:2]))

    def _fn(self, e, row, params):
        f = e[1]
        if f in ("database", "current_database"):
            return "db"
        if ("#agg", id(e)) in (row or {}):
            return row["#agg", id(e)]
        vs = [self._val(x, row, params) for x in e[2]] if e[2] != ["*"] else []
        if f in ("coalesce", "ifnull"):
            for v in vs:
                if v is not None:
                    return v
            return None
        if f == "nullif":
            r = cmp_vals("=", vs[0], vs[1])
            return None if r is not None and bool(r) else vs[0]
        if f in ("min", "max") and len(vs) > 1:
            if any(v is None for v in vs):
                return None
            b = vs[0]
            for x in vs[1:]:
                if bool(cmp_vals(">" if f == "max" else "<", x, b)):
                    b = x
            return b
        if f in ("abs", "length", "lower", "upper", "trim", "round", "typeof") and vs and vs[0] is None:
            return "null" if f == "typeof" else None
        if f == "abs" and len(vs) == 1:
            return abs(as_number(vs[0]))
        if f == "length" and py_type(vs[0]) is str:
            from .rt import _len

            return _len(vs[0])
        if f in ("lower", "upper"):
            v = as_text(vs[0])
            if isinstance(v, Sym):
                raise Unsupported("SQL {} of a symbolic text".format(f))
            return "".join(getattr(c, f)() if c.isascii() else c for c in v)
        if f == "round" and len(vs) == 1 and not isinstance(vs[0], Sym):
            import math

            v = as_number(vs[0])
            return float(math.floor(abs(v) + 0.5)) * (1 if v >= 0 else -1)
        raise Unsupported("SQL function " + f)

    def _truth(self, e, row, params):
        """True / False / None (unknown); forks on symbolic comparisons."""
        k = e[0]
        if k == "and":
            a = self._truth(e[1], row, params)
            if a is False:
                return False
            b = self._truth(e[2], row, params)
            if b is False:
                return False
            return None if a is None or b is None else True
        if k == "or":
            a = self._truth(e[1], row, params)
            if a is True:
                return True
            b = self._truth(e[2], row, params)
            if b is True:
                return True
            return None if a is None or b is None else False
        if k == "not":
            a = self._truth(e[1], row, params)
            return None if a is None else not a
        if k == "isnull":
            return self._val(e[1], row, params) is None
        if k == "cmp":
            a, b = self._val(e[2], row, params), self._val(e[3], row, params)
            if any(x[0] == "collate" and x[2] == "NOCASE" for x in e[2:4]):
                a, b = nocase(a), nocase(b)
            r = cmp_vals(e[1], a, b)
            return None if r is None else bool(r)
        if k == "is":
            a, b = self._val(e[1], row, params), self._val(e[2], row, params)
            if a is None or b is None:
                return a is None and b is None
            return bool(cmp_vals("=", a, b))
        if k == "exists":
            return bool(self._query(e[1], params, row)[1])
        if k == "like":
            if len(e) > 3:
                esc = self._val(e[3], row, params)
                if isinstance(esc, Sym):
                    raise Unsupported("SQL ESCAPE")
                return like(self._val(e[1], row, params), self._val(e[2], row, params), esc)
            return like(self._val(e[1], row, params), self._val(e[2], row, params))
        if k == "glob":
            a, b = self._val(e[1], row, params), self._val(e[2], row, params)
            if a is None or b is None:
                return None
            if isinstance(a, Sym) or isinstance(b, Sym):
                raise Unsupported("SQL GLOB")
            import fnmatch

            return fnmatch.fnmatchcase(as_text(a), as_text(b).replace("[^", "[!"))
        if k == "insel":
            a = self._val(e[1], row, params)
            names, data = self._query(e[2], params, row)
            unknown = False
            for d in data:
                r = cmp_vals("=", a, d[0])
                if r is None:
                    unknown = True
                elif bool(r):
                    return True
            return None if unknown else False
        if k == "in":
            a = self._val(e[1], row, params)
            unknown = False
            for it in e[2]:
                r = cmp_vals("=", a, self._val(it, row, params))
                if r is None:
                    unknown = True
                elif bool(r):
                    return True
            return None if unknown else False
        v = self._val(e, row, params)
        return None if v is None else bool(v)

    def _lookup(self, table):
        t = table.split(".")[-1]
        for n in self.work:
            if n.lower() == t.lower():
                return n
        return None

    def _execute(self, cur, sql, params):
        if isinstance(sql, Sym):
            raise Unsupported("symbolic SQL text")
        if self.dialect != "sqlite":
            sql = sql.replace("%%", "%")
        p = P(sql)
        self.hook("execute", sql)
        if isinstance(params, dict):
            pass
        else:
            params = list(params) if params is not None else []
        if self.dialect == "sqlite":
            for v in params if isinstance(params, list) else params.values():
                if not (v is None or py_type(v) in (int, float, str, bytes, bool)):
                    import datetime

                    if issubclass(py_type(v), (datetime.datetime, datetime.date)):
                        if isinstance(v, Sym):
                            raise Unsupported("datetime bound to sqlite")
                        continue
                    raise _sqlite3.ProgrammingError(
                        "Error binding parameter: type '{}' is not supported".format(
                            py_type(v).__name__
                        )
                    )
        if not self.in_tx:
            self.work = self.store.snapshot()
        nparams = sum(1 for k, v in p.t if k == "ph" and v in ("?", "%s"))
        if isinstance(params, list) and nparams != len(params):
            raise _sqlite3.ProgrammingError(
                "Incorrect number of bindings supplied. The current statement uses {}, and there are {} supplied.".format(
                    nparams, len(params)
                )
            )
        if isinstance(params, list) and self.dialect == "sqlite" and any(v == "%s" for k, v in p.t):
            raise _sqlite3.OperationalError('near "%": syntax error')
        if self.dialect != "sqlite" and any(k == "ph" and v == "?" for k, v in p.t):
            raise _sqlite3.ProgrammingError("not all arguments converted")
        if p.is_kw("SELECT"):
            return self._select(cur, p, params)
        if p.kw("PRAGMA"):
            return []
        if p.kw("BEGIN"):
            self.in_tx = True
            return []
        if p.kw("COMMIT") or p.kw("END"):
            self._commit()
            return []
        if p.kw("ROLLBACK"):
            self.rollback()
            return []
        if p.kw("CREATE"):
            return self._create(p)
        if p.kw("DROP", "TABLE"):
            p.kw("IF", "EXISTS")
            n = self._lookup(p.ident())
            if n:
                del self.work[n]
            self._ddl_done()
            return []
        auto = self.isolation_level is None and not self.in_tx
        if not auto:
            self.in_tx = True
        before = None
        if p.kw("INSERT"):
            self._insert(cur, p, params)
        elif p.kw("REPLACE"):
            self._insert(cur, p, params, replace=True)
        elif p.kw("DELETE"):
            p.need(p.kw("FROM"))
            n = self._lookup(p.ident())
            if n is None:
                raise _sqlite3.OperationalError("no such table")
            w = p.expr() if p.kw("WHERE") else None
            c, rows = self.work[n]
            keep = [
                r for r in rows if not (w is None or self._truth(w, r, params) is True)
            ]
            cur.rowcount = len(rows) - len(keep)
            self.work[n] = (c, keep)
        elif p.kw("TRUNCATE"):
            p.kw("TABLE")
            n = self._lookup(p.ident())
            self.work[n] = (self.work[n][0], [])
        elif p.kw("UPDATE"):
            n = self._lookup(p.ident())
            if n is None:
                raise _sqlite3.OperationalError("no such table")
            p.need(p.kw("SET"))
            sets = []
            while True:
                col = p.ident()
                p.need(p.op("="))
                sets.append((col, p.expr()))
                if not p.op(","):
                    break
            w = p.expr() if p.kw("WHERE") else None
            c, rows = self.work[n]
            out = []
            cnt = 0
            for r in rows:
                if w is None or self._truth(w, r, params) is True:
                    r = dict(r)
                    for col, ex in sets:
                        r[col] = self._store(n, col, self._val(ex, r, params))
                    cnt += 1
                out.append(r)
            cur.rowcount = cnt
            self.work[n] = (c, out)
        else:
            raise Unsupported("SQL statement {!r}".format(sql.strip()[:30]))
        if p.op(";"):
            pass
        p.need(p.i >= len(p.t), "trailing text")
        if auto:
            self._commit()
        return []

    def _ddl_done(self):
        if not self.in_tx:
            self._commit()

    def _create(self, p):
        if p.kw("INDEX") or p.kw("UNIQUE", "INDEX"):
            return []
        p.kw("TEMPORARY")
        p.need(p.kw("TABLE"))
        ine = p.kw("IF", "NOT", "EXISTS")
        name = p.ident()
        if self._lookup(name):
            if ine:
                return []
            raise _sqlite3.OperationalError("table {} already exists".format(name))
        p.need(p.op("("))
        cols = []
        while True:
            k, v = p.peek()
            if v and v.upper() in ("PRIMARY", "UNIQUE", "CONSTRAINT", "FOREIGN", "CHECK"):
                raise Unsupported("table constraint")
            cn = p.ident()
            typ = []
            depth = 0
            while True:
                k, v = p.peek()
                p.need(k is not None)
                if depth == 0 and k == "op" and v in (",", ")"):
                    break
                if k == "op" and v == "(":
                    depth += 1
                if k == "op" and v == ")":
                    depth -= 1
                typ.append(str(v).upper())
                p.i += 1
            t = " ".join(typ)
            aff = (
                "int"
                if "INT" in t
                else "text"
                if any(x in t for x in ("CHAR", "CLOB", "TEXT"))
                else "real"
                if any(x in t for x in ("REAL", "FLOA", "DOUB"))
                else None
            )
            cols.append((cn, aff, "PRIMARY KEY" in t or "UNIQUE" in t, "NOT NULL" in t))
            if p.op(")"):
                break
            p.need(p.op(","))
        self.work[name] = (cols, [])
        self._ddl_done()
        return []

    def _store(self, table, col, v):
        cols = self.work[table][0]
        for cn, aff, uq, nn in cols:
            if cn.lower() == col.lower():
                break
        else:
            raise _sqlite3.OperationalError("table {} has no column named {}".format(table, col))
        t = py_type(v)
        if v is None:
            return None
        if self.dialect == "sqlite":
            if t is bool:
                v = int(v) if not isinstance(v, Sym) else SymInt(zint(v))
                t = int
            if aff == "real" and t is int:
                return float(v) if not isinstance(v, Sym) else SymReal(zreal(v))
            if aff == "int" and t is float:
                if isinstance(v, Sym):
                    if bool(v.is_integer()):
                        return v.__trunc__()
                    return v
                return int(v) if v == int(v) else v
            if aff == "text" and t in (int, float):
                from .rt import _str

                return _str(v)
        return v

    def _insert(self, cur, p, params, replace=False):
        if p.kw("OR", "REPLACE"):
            replace = True
        ignore = p.kw("OR", "IGNORE") or p.kw("IGNORE")
        p.need(p.kw("INTO"))
        name = p.ident()
        n = self._lookup(name)
        if n is None:
            raise _sqlite3.OperationalError("no such table: " + name)
        cols, rows = self.work[n]
        names = [c[0] for c in cols]
        if p.op("("):
            names = [p.ident()]
            while p.op(","):
                names.append(p.ident())
            p.need(p.op(")"))
        if p.is_kw("SELECT"):
            data = self._query(p.select(), params)[1]
        else:
            p.need(p.kw("VALUES"))
            data = []
            while True:
                p.need(p.op("("))
                vals = [p.expr()]
                while p.op(","):
                    vals.append(p.expr())
                p.need(p.op(")"))
                data.append([self._val(e, None, params) for e in vals])
                if not p.op(","):
                    break
        count = 0
        for vals in data:
            if len(vals) != len(names):
                raise _sqlite3.OperationalError(
                    "{} values for {} columns".format(len(vals), len(names))
                )
            count += self._insert_row(n, names, vals, replace, ignore)
        cur.rowcount = count

    def _insert_row(self, n, names, vals, replace, ignore):
        cols, rows = self.work[n]
        row = {c[0]: None for c in cols}
        for cn, v in zip(names, vals):
            real = [c[0] for c in cols if c[0].lower() == cn.lower()]
            if not real:
                raise _sqlite3.OperationalError("table {} has no column named {}".format(n, cn))
            row[real[0]] = self._store(n, cn, v)
        rows = list(rows)
        for cn, aff, uq, nn in cols:
            if nn and row[cn] is None:
                raise _sqlite3.IntegrityError("NOT NULL constraint failed: {}.{}".format(n, cn))
            if uq and row[cn] is not None:
                for r in list(rows):
                    if r[cn] is not None and bool(r[cn] == row[cn]):
                        if replace:
                            rows.remove(r)
                        elif ignore:
                            return 0
                        else:
                            raise _sqlite3.IntegrityError(
                                "UNIQUE constraint failed: {}.{}".format(n, cn)
                            )
        rows.append(row)
        self.work[n] = (cols, rows)
        self.hook("insert", (n, row))
        return 1

    def _source(self, src, params, outer):
        """-> (column names, rows, name)"""
        if src[0] == "sub":
            names, data = self._query(src[1], params, outer)
            return names, [dict(zip(names, d)) for d in data], src[2]
        table = src[1]
        tl = table.lower().split("main.")[-1]
        if tl in ("sqlite_master", "sqlite_schema"):
            return ["type", "name", "tbl_name"], [{"type": "table", "name": n, "tbl_name": n} for n in self.work], src[2] or tl
        if tl == "information_schema.tables":
            return (
                ["table_name", "table_catalog", "table_schema"],
                [{"table_name": n, "table_catalog": "db", "table_schema": "db"} for n in self.work], src[2] or "tables",
            )
        n = self._lookup(table)
        if n is None:
            raise _sqlite3.OperationalError("no such table: " + table)
        return [c[0] for c in self.work[n][0]], list(self.work[n][1]), src[2] or n

    def _core(self, q, params, outer):
        """Rows of a SELECT without order: [(scope, values)] and the names."""
        outer = outer or {}
        scopes = [dict(outer)]
        sources = []
        for src, on, left in q["from"]:
            names, rows, name = self._source(src, params, outer)
            sources.append((names, name))
            out = []
            for sc in scopes:
                hit = False
                for i, r in enumerate(rows):
                    x = dict(sc)
                    for c in names:
                        if len(sources) > 1 and any(c.lower() == d.lower() for ns, _ in sources[:-1] for d in ns):
                            x.pop(c.lower(), None)
                            x["#ambiguous", c.lower()] = True
                        else:
                            x[c.lower()] = r[c]
                        if name:
                            x[name.lower() + "." + c.lower()] = r[c]
                    if src[0] == "table":
                        x.setdefault("rowid", i + 1)
                        x[(name or "").lower() + ".rowid"] = i + 1
                    if on is None or self._truth(on, x, params) is True:
                        out.append(x)
                        hit = True
                if left and not hit:
                    x = dict(sc)
                    for c in names:
                        x.setdefault(c.lower(), None)
                        x[(name or "").lower() + "." + c.lower()] = None
                    out.append(x)
            scopes = out
        if q["where"] is not None:
            scopes = [r for r in scopes if self._truth(q["where"], r, params) is True]
        aggs = []
        for e, _ in q["cols"]:
            if e != "*":
                aggregates(e, aggs)
        aggregates(q["having"], aggs)
        for e, *_ in q.get("order", []):
            aggregates(e, aggs)
        if aggs or q["group"] is not None:
            groups = []
            if q["group"] is None:
                groups.append(((), scopes))
            else:
                for sc in scopes:
                    key = [self._val(e, sc, params) for e in q["group"]]
                    for k, g in groups:
                        if all(same_val(x, y) for x, y in zip(k, key)):
                            g.append(sc)
                            break
                    else:
                        groups.append((key, [sc]))
            out = []
            for k, g in groups:
                x = dict(g[0]) if g else dict(outer, **{c.lower(): None for ns, _ in sources for c in ns})
                for a in aggs:
                    x["#agg", id(a)] = self._aggregate(a, g, params)
                    if a[1] in ("min", "max") and len(aggs) == 1 and g:
                        # sqlite: other columns come from the row with the extreme
                        for sc in g:
                            v = self._val(a[2][0], sc, params)
                            if v is not None and same_val(v, x["#agg", id(a)]):
                                m = x["#agg", id(a)]
                                x = dict(sc)
                                x["#agg", id(a)] = m
                                break
                if q["having"] is None or self._truth(q["having"], x, params) is True:
                    out.append(x)
            scopes = out
        names = []
        for e, alias in q["cols"]:
            if e == "*":
                for ns, name in sources:
                    if alias is None or alias.lower() == (name or "").lower():
                        names += ns
            else:
                names.append(alias or (e[1].split(".")[-1] if e[0] == "col" else sql_text(e)))
        out = []
        for sc in scopes:
            vals = []
            for e, alias in q["cols"]:
                if e == "*":
                    for ns, name in sources:
                        if alias is None or alias.lower() == (name or "").lower():
                            vals += [sc[name.lower() + "." + c.lower()] if name else sc[c.lower()] for c in ns]
                else:
                    vals.append(self._val(e, sc, params))
            out.append((sc, vals))
        if q["distinct"]:
            out = distinct(out)
        return names, out

    def _aggregate(self, a, scopes, params):
        f = a[1]
        if a[2] == ["*"] or not a[2]:
            return len(scopes)
        xs = [v for v in (self._val(a[2][0], r, params) for r in scopes) if v is not None]
        if f == "count":
            return len(xs)
        if not xs:
            return 0.0 if f == "total" else None
        if f in ("sum", "total", "avg"):
            s = 0
            for x in xs:
                s = s + as_number(x)
            return s if f == "sum" else s * 1.0 if f == "total" else s * 1.0 / len(xs)
        if f == "group_concat":
            s = as_text(xs[0])
            for x in xs[1:]:
                s = s + "," + as_text(x)
            return s
        b = xs[0]
        for x in xs[1:]:
            if bool(cmp_vals(">" if f == "max" else "<", x, b)):
                b = x
        return b

    def _query(self, q, params, outer=None):
        """-> (names, list of values)"""
        if "union" in q:
            l, r, al = q["union"]
            names, a = self._query(l, params, outer)
            n2, b = self._query(r, params, outer)
            if len(names) != len(n2):
                raise _sqlite3.OperationalError("SELECTs to the left and right of UNION do not have the same number of result columns")
            rows = [(dict(zip([n.lower() for n in names], v)), v) for v in a + b]
            if not al:
                rows = distinct(rows)
        else:
            names, rows = self._core(q, params, outer)
        keys = q.get("order") or []
        if keys:
            aliases = [n.lower() for n in names]

            def key(e, sc, vals):
                if e[0] == "lit" and isinstance(e[1], int):
                    return vals[e[1] - 1]
                if e[0] == "col" and e[1].lower() in aliases:
                    return vals[aliases.index(e[1].lower())]
                v = self._val(e, sc, params)
                return nocase(v) if e[0] == "collate" and e[2] == "NOCASE" else v

            def before(a, b):
                """a strictly before b"""
                for e, desc, nulls in keys:
                    x, y = key(e, *a), key(e, *b)
                    if x is None and y is None:
                        continue
                    if x is None or y is None:
                        if nulls:
                            return (x is None) == (nulls == "first")
                        lt = x is None
                    elif bool(cmp_vals("=", x, y)):
                        continue
                    else:
                        lt = bool(cmp_vals("<", x, y))
                    return lt != desc
                return False

            out = []
            for r in rows:
                i = len(out)
                while i > 0 and before(r, out[i - 1]):
                    i -= 1
                out.insert(i, r)
            rows = out
        if q.get("limit") is not None:
            lim = self._val(q["limit"], None, params)
            off = self._val(q["offset"], None, params) if q["offset"] is not None else 0
            off = off if off > 0 else 0
            rows = rows[off : off + lim] if lim >= 0 else rows[off:]
        return names, [v for _, v in rows]

    def _select(self, cur, p, params):
        q = p.select()
        p.op(";")
        p.need(p.i >= len(p.t), "trailing text")
        outnames, data = self._query(q, params)
        cur.description = [(n,) + (None,) * 6 for n in outnames]
        out = []
        for vals in data:
            if self.dialect == "sqlite":
                if self.row_factory is None:
                    out.append(tuple(vals))
                elif self.row_factory is _sqlite3.Row:
                    out.append(Row(outnames, vals))
                else:
                    out.append(self.row_factory(cur, tuple(vals)))
            elif self.rows == "dict":
                out.append(dict(zip(outnames, vals)))
            else:
                out.append(Row(outnames, vals))
        return out


def same_val(x, y):
    if x is None or y is None:
        return x is None and y is None
    return bool(cmp_vals("=", x, y))


def distinct(rows):
    out = []
    for r in rows:
        if not any(all(same_val(x, y) for x, y in zip(r[1], o[1])) for o in out):
            out.append(r)
    return out


def sql_text(e):
    """How sqlite names an unnamed column, roughly."""
    if e[0] == "fn":
        return "{}({})".format(e[1], ", ".join("*" if x == "*" else sql_text(x) for x in e[2]))
    if e[0] == "lit":
        return str(e[1])
    return str(e[1])
