"""Load dsari from /repo's current source, instrumented for symbolic execution.

The transformation only re-routes operations that CPython would hand to C code
unaware of symbolic proxies (calls, displays, membership, subscripts, %, f-strings)
through vt.rt; the control flow, the arithmetic and the data structures executed are
those of the source file as it is on disk when the check runs.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("DSARI_REPO", "/repo")
NO_WRAP = {"locals", "globals", "vars", "exec", "eval", "__import__"}


def simple(e, const=False):
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Attribute):
        return simple(e.value)
    return const and isinstance(e, ast.Constant)


class Rewriter(ast.NodeTransformer):
    def __init__(self, yields=False):
        self.yields = yields

    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def call(self, fn, args, keywords=()):
        return ast.Call(func=self.name(fn), args=list(args), keywords=list(keywords))

    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            return node
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NO_WRAP:
            return node
        return ast.copy_location(
            self.call("_c_", [node.func] + node.args, node.keywords), node
        )

    def visit_Dict(self, node):
        self.generic_visit(node)
        if any(k is None for k in node.keys):
            # {**x, 'a': 1}: keep the pieces in order
            items = []
            for k, v in zip(node.keys, node.values):
                k2 = k if k is not None else ast.Constant(value=Ellipsis)
                items.append(ast.Tuple(elts=[k2, v], ctx=ast.Load()))
            return ast.copy_location(
                self.call("_d_", [ast.List(elts=items, ctx=ast.Load())]), node
            )
        items = [
            ast.Tuple(elts=[k, v], ctx=ast.Load())
            for k, v in zip(node.keys, node.values)
        ]
        return ast.copy_location(
            self.call("_d_", [ast.List(elts=items, ctx=ast.Load())]), node
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(
            elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()),
            generators=node.generators,
        )
        return ast.copy_location(self.call("_d_", [gen]), node)

    def visit_Set(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self.call("_s_", [ast.List(elts=node.elts, ctx=ast.Load())]), node
        )

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return ast.copy_location(
            self.call("_s_", [ast.GeneratorExp(elt=node.elt, generators=node.generators)]),
            node,
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = self.call("_in_", [node.left, node.comparators[0]])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            s = node.slice
            if isinstance(s, ast.Slice):
                none = ast.Constant(value=None)
                s = ast.Call(
                    func=self.name("_slice_"),
                    args=[s.lower or none, s.upper or none, s.step or none],
                    keywords=[],
                )
            elif isinstance(s, ast.Tuple) and any(
                isinstance(e, (ast.Slice, ast.Starred)) for e in s.elts
            ):
                return node
            return ast.copy_location(self.call("_gi_", [node.value, s]), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("_mod_", [node.left, node.right]), node)
        op = {ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.Sub: "-"}.get(type(node.op))
        if op is not None:
            return ast.copy_location(
                self.call("_bit_", [ast.Constant(value=op), node.left, node.right]), node
            )
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                val = self.visit(v.value)
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant(value="")
                else:
                    spec = self.visit(spec)
                parts.append(
                    ast.Tuple(
                        elts=[
                            val,
                            ast.Constant(value=None if v.conversion == -1 else chr(v.conversion)),
                            spec,
                        ],
                        ctx=ast.Load(),
                    )
                )
        return ast.copy_location(
            self.call("_fmt_", [ast.List(elts=parts, ctx=ast.Load())]), node
        )

    def visit_AnnAssign(self, node):
        # annotations are left alone
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        broad = t is None
        names = [t] if not isinstance(t, ast.Tuple) else t.elts
        for x in names:
            if isinstance(x, ast.Name) and x.id == "BaseException":
                broad = True
        if broad:
            x = ast.copy_location(ast.Expr(value=self.call("_ee_", [])), node)
            x._vt_noyield = True
            ast.fix_missing_locations(x)
            node.body.insert(0, x)
        return node

    def visit_If(self, node):
        """if c: x = y  --  without a fork when c is undecided and the values can be merged."""
        self.generic_visit(node)
        if len(node.body) != 1 or node.orelse or not isinstance(node.body[0], ast.Assign):
            return node
        st = node.body[0]
        if len(st.targets) != 1 or not simple(st.targets[0]) or not simple(st.value, True):
            return node
        target = st.targets[0]
        load = type(target)(**{**{f: getattr(target, f) for f in target._fields}, "ctx": ast.Load()})

        def lam(e):
            return ast.Lambda(
                args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=e,
            )

        c = ast.Name(id="_vt_c", ctx=ast.Load())
        m = ast.Name(id="_vt_m", ctx=ast.Load())
        new = [
            ast.Assign(targets=[ast.Name(id="_vt_c", ctx=ast.Store())], value=node.test),
            ast.Assign(
                targets=[ast.Name(id="_vt_m", ctx=ast.Store())],
                value=self.call("_mg_", [c, lam(st.value), lam(load)]),
            ),
            ast.If(
                test=ast.Compare(left=m, ops=[ast.IsNot()], comparators=[ast.Constant(value=None)]),
                body=[ast.Assign(targets=[target], value=m)],
                orelse=[ast.If(test=c, body=[st], orelse=[])],
            ),
        ]
        new[1]._vt_noyield = new[2]._vt_noyield = True
        new[2].body[0]._vt_noyield = new[2].orelse[0]._vt_noyield = True
        for n in new:
            ast.copy_location(n, node)
            ast.fix_missing_locations(n)
        return new

    def visit_body(self, body):
        out = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, list):
                out.extend(s)
            elif s is not None:
                out.append(s)
        return out

    def visit_match_case(self, node):
        # patterns are executed natively
        node.body = self.visit_body(node.body)
        if node.guard:
            node.guard = self.visit(node.guard)
        return node

    def _yield_body(self, body):
        out = []
        for s in body:
            if isinstance(
                s,
                (
                    ast.Expr, ast.Assign, ast.AugAssign, ast.Return, ast.Delete, ast.Raise,
                    ast.If, ast.For, ast.While, ast.Try, ast.With,
                ),
            ) and not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            ) and not getattr(s, "_vt_noyield", False):
                y = ast.Expr(value=self.call("_y_", [ast.Constant(value=s.lineno)]))
                ast.copy_location(y, s)
                ast.fix_missing_locations(y)
                out.append(y)
            out.append(s)
        return out

    def visit_FunctionDef(self, node):
        node.body = self.visit_body(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [
            self.visit(d) if d is not None else None for d in node.args.kw_defaults
        ]
        node.decorator_list = [
            d if isinstance(d, (ast.Name, ast.Attribute)) else self.visit(d)
            for d in node.decorator_list
        ]
        return self.add_yields(node)

    def add_yields(self, node):
        if self.yields:
            for sub in ast.walk(node):
                if isinstance(sub, (ast.FunctionDef, ast.Lambda)) and sub is not node:
                    continue
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(sub, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        if not getattr(sub, "_vt_" + f, False):
                            setattr(sub, "_vt_" + f, True)
                            setattr(sub, f, self._yield_body(b))
        return node


def instrument_source(source, filename, yields=False):
    tree = ast.parse(source, filename)
    tree = Rewriter(yields).visit(tree)
    # keep a leading docstring / __future__ imports first
    pos = 0
    while pos < len(tree.body) and (
        (
            isinstance(tree.body[pos], ast.Expr)
            and isinstance(tree.body[pos].value, ast.Constant)
        )
        or (
            isinstance(tree.body[pos], ast.ImportFrom)
            and tree.body[pos].module == "__future__"
        )
    ):
        pos += 1
    imp = ast.parse("from vt.rt import _c_, _d_, _s_, _in_, _bit_, _gi_, _slice_, _mod_, _fmt_, _ee_, _y_, _mg_").body
    tree.body[pos:pos] = imp
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# modules with signal handlers
SIGNALLED = ("dsari.daemon", "dsari.prometheus_exporter")


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read().decode("utf-8")
        return instrument_source(src, path, yields=fullname.endswith(SIGNALLED))


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != "dsari" and not fullname.startswith("dsari."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return _spec(fullname, fn, [base])
        if os.path.isfile(base + ".py"):
            return _spec(fullname, base + ".py", None)
        return None


def _spec(fullname, fn, search):
    import importlib.util

    return importlib.util.spec_from_file_location(
        fullname, fn, loader=Loader(fullname, fn), submodule_search_locations=search
    )


def install():
    sys.dont_write_bytecode = True
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


PLAIN_YIELDS = False


class YieldOnly(Rewriter):
    """Only marks the points where a signal may arrive; used for replays."""

    def generic(self, node):
        for child in ast.iter_child_nodes(node):
            self.visit(child)
        return node

    def visit(self, node):
        if isinstance(node, ast.FunctionDef):
            self.generic(node)
            return self.add_yields(node)
        return self.generic(node)


class PlainLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        if PLAIN_YIELDS and fullname.endswith(SIGNALLED):
            tree = YieldOnly(True).visit(ast.parse(src, path))
            tree.body[1:1] = ast.parse("from vt.rt import _y_").body
            ast.fix_missing_locations(tree)
            return compile(tree, path, "exec", dont_inherit=True)
        return compile(src, path, "exec", dont_inherit=True)


class PlainFinder(Finder):
    """Uninstrumented dsari from REPO (for replays), without writing bytecode."""

    def find_spec(self, fullname, path, target=None):
        import importlib.util

        if fullname != "dsari" and not fullname.startswith("dsari."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        if os.path.isdir(base) and os.path.isfile(os.path.join(base, "__init__.py")):
            fn = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=PlainLoader(fullname, fn),
                submodule_search_locations=[base],
            )
        if os.path.isfile(base + ".py"):
            fn = base + ".py"
            return importlib.util.spec_from_file_location(
                fullname, fn, loader=PlainLoader(fullname, fn)
            )
        return None


def install_plain(yields=False):
    global PLAIN_YIELDS
    PLAIN_YIELDS = yields
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, PlainFinder())
