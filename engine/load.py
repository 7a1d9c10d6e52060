"""Load the real /repo sources into the symbolic interpreter.

Every run re-reads the files.  The mechanical extraction changes exactly this:
  * float literals become exact decimal rationals,
  * ``assert e`` becomes a proof obligation,
  * ``for x in e`` / ``while`` over a symbolic range become a loop cut at the loop's contract;
    a loop without one must have independent iterations (each writes its own slice of the
    arrays it changes, or appends one element, and reads nothing other iterations change:
    an obligation of its own) and becomes the map over its iterations
    (concrete iterations run natively),
  * list comprehensions and list displays with * likewise over symbolic ranges,
  * imports of numpy, jax, pandas, scipy, yaml resolve to the trusted models of
    ``shadow.py`` and a few builtins (range, len, int, float, sum, min, max, ...) to
    symbolic-aware versions.
Nothing else is dropped or rewritten: CPython executes the repository's own statements.
"""
from __future__ import annotations

import ast
import builtins
import copy
import importlib
import os
import types
from fractions import Fraction

from . import shadow, sym
from .sym import S, Unsupported, lift

REPO = os.environ.get("SOEPY_REPO", "/repo")
_CODE = {}


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.fn = []
        self.loop_ord = {}

    def visit_FunctionDef(self, node):
        self.fn.append(node.name)
        self.loop_ord[tuple(self.fn)] = 0
        self.generic_visit(node)
        self.fn.pop()
        return node

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(
                ast.Call(
                    ast.Name("__vc_float__", ast.Load()),
                    [ast.Constant(repr(node.value))],
                    [],
                ),
                node,
            )
        return node

    def visit_JoinedStr(self, node):
        return node

    def visit_Assert(self, node):
        self.generic_visit(node)
        c = ast.Expr(
            ast.Call(
                ast.Name("__vc_assert__", ast.Load()),
                [node.test, ast.Constant(f"{self.mod}:{node.lineno}")],
                [],
            )
        )
        return ast.copy_location(c, node)

    def visit_ListComp(self, node):
        self.generic_visit(node)
        g = node.generators[0]
        if len(node.generators) != 1 or g.ifs or g.is_async or not isinstance(g.target, ast.Name) or any(
            isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(node)
        ):
            return node
        # over a symbolic range or array: one element per position, evaluated on demand
        lam = ast.Lambda(
            ast.arguments(posonlyargs=[], args=[ast.arg(g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), node.elt)
        g.iter = ast.Call(ast.Name("__vc_items__", ast.Load()), [g.iter], [])
        el = ast.Call(ast.Name("__vc_elem__", ast.Load()), [copy.deepcopy(lam), ast.Name(g.target.id, ast.Load())], [])
        node.elt = el
        return ast.copy_location(ast.Call(ast.Name("__vc_list__", ast.Load()), [node], []), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        parts = [
            ast.Tuple([ast.Constant(1), e.value], ast.Load()) if isinstance(e, ast.Starred)
            else ast.Tuple([ast.Constant(0), e], ast.Load())
            for e in node.elts
        ]
        return ast.copy_location(
            ast.Call(ast.Name("__vc_display__", ast.Load()), [ast.List(parts, ast.Load())], []), node)

    def visit_For(self, node):
        if not self.fn:
            self.generic_visit(node)
            return node
        key = tuple(self.fn)
        ordn = self.loop_ord[key]
        self.loop_ord[key] += 1
        jump = node.orelse or _has_jump(node.body)
        effects = _effects(node.body)
        self.generic_visit(node)
        if jump:
            node.iter = ast.Call(
                ast.Name("__vc_native_iter__", ast.Load()), [node.iter], []
            )
            return ast.copy_location(node, node)
        assigned = sorted(_assigned(node.body) | _names(node.target))
        it, lp = f"__vc_it{len(key)}_{ordn}", f"__vc_lp{len(key)}_{ordn}"

        def N(n, ctx=ast.Load):
            return ast.Name(n, ctx())

        def loc():
            # {"x": x if bound}
            return ast.Call(N("__vc_locals__"), [ast.Call(N("locals"), [], []),
                            ast.Constant(",".join(assigned))], [])

        def unpack(meth):
            return ast.Assign(
                [ast.Tuple([N(a, ast.Store) for a in assigned], ast.Store())],
                ast.Call(ast.Attribute(N(lp), meth, ast.Load()), [], []),
            )

        body_sym = [
            ast.Assign(
                [N(lp, ast.Store)],
                ast.Call(
                    N("__vc_loop__"),
                    [
                        ast.Constant(self.mod),
                        ast.Constant(".".join(key)),
                        ast.Constant(ordn),
                        N(it),
                        loc(),
                        ast.Call(N("locals"), [], []),
                    ],
                    [],
                ),
            ),
            ast.If(
                ast.Attribute(N(lp), "parallel", ast.Load()),
                [
                    ast.FunctionDef(
                        name="__vc_body__",
                        args=ast.arguments(posonlyargs=[], args=[ast.arg("__vc_item__")] + [ast.arg(a) for a in assigned],
                                           kwonlyargs=[], kw_defaults=[], defaults=[]),
                        body=[
                            *([ast.Expr(ast.Call(N("__vc_no__"), [], []))] if effects else []),
                            ast.Assign([copy.deepcopy(node.target)], N("__vc_item__")),
                            *copy.deepcopy(node.body),
                            ast.Return(loc()),
                        ],
                        decorator_list=[], returns=None, type_params=[],
                    ),
                    ast.Assign(
                        [ast.Tuple([N(a, ast.Store) for a in assigned], ast.Store())],
                        ast.Call(ast.Attribute(N(lp), "run", ast.Load()), [N("__vc_body__")], []),
                    ),
                ],
                [ast.If(
                ast.Call(ast.Attribute(N(lp), "iterate", ast.Load()), [], []),
                [
                    unpack("havoc_iter"),
                    ast.Assign(
                        [node.target],
                        ast.Call(ast.Attribute(N(lp), "item", ast.Load()), [], []),
                    ),
                    *node.body,
                    ast.Expr(
                        ast.Call(ast.Attribute(N(lp), "end_iter", ast.Load()), [loc()], [])
                    ),
                ],
                [unpack("havoc_exit")],
                )],
            ),
        ]
        out = [
            ast.Assign([N(it, ast.Store)], node.iter),
            ast.If(
                ast.Call(N("__vc_symbolic__"), [N(it)], []),
                body_sym,
                [
                    ast.For(
                        copy.deepcopy(node.target),
                        N(it),
                        copy.deepcopy(node.body),
                        [],
                    )
                ],
            ),
        ]
        return [ast.copy_location(o, node) for o in out]


def _has_jump(body):
    class V(ast.NodeVisitor):
        f = False

        def visit_Break(self, n):
            self.f = True

        visit_Continue = visit_Return = visit_Yield = visit_Break

        def visit_For(self, n):
            # jumps inside an inner loop belong to it, except return
            for x in ast.walk(n):
                if isinstance(x, (ast.Return, ast.Yield)):
                    self.f = True

        visit_While = visit_For

        def visit_FunctionDef(self, n):
            pass

        visit_Lambda = visit_FunctionDef

    v = V()
    for s in body:
        v.visit(s)
    return v.f


def _effects(body):
    """statements that change what a frame over local names and arrays does not see"""
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                return True
            if isinstance(x, (ast.Global, ast.Nonlocal, ast.Delete, ast.Await, ast.With)):
                return True
    return False


def _vc_no():
    raise Unsupported("loop over a symbolic range with effects on objects and no contract")


def _names(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}


def _assigned(body):
    out = set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store) and not n.id.startswith("__vc_"):
                out.add(n.id)

        def visit_FunctionDef(self, n):
            if not n.name.startswith("__vc_"):
                out.add(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass

        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Attribute(self, n):
            self.generic_visit(n)

        # objects changed in place belong to the loop state as well
        def visit_Subscript(self, n):
            if isinstance(n.ctx, ast.Store):
                b = n.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name):
                    out.add(b.id)
            self.generic_visit(n)

        def visit_Call(self, n):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("append", "extend", "insert", "update", "pop"):
                if isinstance(f.value, ast.Name):
                    out.add(f.value.id)
            self.generic_visit(n)

    v = V()
    for s in body:
        v.visit(s)
    return out


def compile_module(name):
    path = os.path.join(REPO, *name.split("."))
    if os.path.isdir(path):
        path = os.path.join(path, "__init__.py")
        if not os.path.exists(path):  # namespace package
            return compile("", path, "exec"), path
    else:
        path += ".py"
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _CODE:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src, path)
        tree = Transform(name).visit(tree)
        ast.fix_missing_locations(tree)
        _CODE[key] = compile(tree, path, "exec")
    return _CODE[key], path


class _Undef:
    def __repr__(self):
        return "<undefined after loop cut>"

    def _u(self, *a, **k):
        raise Unsupported("read of a local that the loop contract does not track")

    __getattr__ = __call__ = __add__ = __radd__ = __getitem__ = __setitem__ = __iter__ = __bool__ = _u
    __sub__ = __mul__ = __lt__ = __gt__ = __eq__ = __rsub__ = __rmul__ = __truediv__ = __rtruediv__ = _u
    __floordiv__ = __mod__ = __pow__ = __rpow__ = __le__ = __ge__ = __ne__ = __and__ = __or__ = __xor__ = _u
    __neg__ = __abs__ = __invert__ = __len__ = __float__ = __int__ = __index__ = __contains__ = __matmul__ = _u
    __iadd__ = __isub__ = __imul__ = __itruediv__ = _u
    __hash__ = object.__hash__


UNDEF = _Undef()


def _vc_float(s):
    return S(Fraction(s), "r")


def _vc_assert(c, where):
    C = sym.CUR
    if isinstance(c, (bool, int)) or not isinstance(c, (S, shadow.Arr)):
        if not c:
            raise AssertionError(where)
        return
    c = lift(c.__lift_scalar__() if isinstance(c, shadow.Arr) else c).as_bool()
    if c.conc:
        if not c.v:
            raise AssertionError(where)
        return
    C.prove(f"assert at {where}", c, kind="assert")
    n = len(C.facts)
    C.assume(c)
    C.late.update(f.get_id() for f in C.facts[n:])  # must not justify itself


def _vc_symbolic(it):
    return isinstance(it, shadow.SymRange) or (
        isinstance(it, shadow.Arr) and not isinstance(it.shape[0], int)
    ) or getattr(it, "__vc_symbolic_iter__", False)


def _vc_native_iter(it):
    if _vc_symbolic(it):
        raise Unsupported("loop with break/continue/return over a symbolic range")
    return it


def _vc_locals(loc, names):
    return {n: loc.get(n, UNDEF) for n in names.split(",")}


class Loader:
    """One fresh load of the repository modules (per explored path)."""

    def __init__(self, session, stubs=None):
        self.session = session
        self.mods = {}
        self.shadow = shadow.build()
        self.stubs = stubs or {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(shadow.BUILTINS)
        self.builtins["__import__"] = self._import
        self.builtins["__vc_float__"] = _vc_float
        self.builtins["__vc_assert__"] = _vc_assert
        self.builtins["__vc_symbolic__"] = _vc_symbolic
        self.builtins["__vc_native_iter__"] = _vc_native_iter
        self.builtins["__vc_locals__"] = _vc_locals
        self.builtins["__vc_loop__"] = self._loop
        self.builtins["__vc_no__"] = _vc_no
        from . import loops

        self.builtins["__vc_items__"] = loops.items
        self.builtins["__vc_elem__"] = loops.elem
        self.builtins["__vc_list__"] = loops.mklist
        self.builtins["__vc_display__"] = loops.display

    def _loop(self, mod, fn, ordn, it, assigned, loc):
        from .loops import LoopCut, ParallelLoop

        if (fn.split(".")[-1], ordn) not in getattr(self.session, "loop_contracts", {}):
            return ParallelLoop(self.session, mod, fn, ordn, it, assigned, loc)
        return LoopCut(self.session, mod, fn, ordn, it, assigned, loc)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported("relative import")
        top = name.split(".")[0]
        if name in self.shadow:
            if fromlist:
                return self.shadow[name]
            return self.shadow[top]
        if top in ("numpy", "jax", "pandas", "scipy", "yaml"):
            raise Unsupported(f"import of {name} is not modelled")
        if top == "soepy":
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        sub = f"{name}.{f}"
                        try:
                            setattr(m, f, self.module(sub))
                        except FileNotFoundError:
                            raise ImportError(f"cannot import name {f} from {name}")
                return m
            return self.module("soepy")
        return importlib.__import__(name, globals, locals, fromlist, level)

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name == "soepy":
            m = types.ModuleType("soepy")  # package __init__ only re-exports
            m.__path__ = []
            self.mods[name] = m
            return m
        parts = name.split(".")
        parent = self.module(".".join(parts[:-1])) if len(parts) > 1 else None
        code, path = compile_module(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        exec(code, m.__dict__)
        for k, v in list(m.__dict__.items()):
            if isinstance(v, types.FunctionType) and v.__module__ == name:
                q = f"{name}.{k}"
                if q in self.stubs:
                    m.__dict__[k] = Dispatch(q, v, self)
        if parent is not None:
            setattr(parent, parts[-1], m)
        return m

    def get(self, qual):
        mod, fn = qual.rsplit(".", 1)
        m = self.module(mod)
        if not hasattr(m, fn):
            raise Unsupported(f"{qual} not found")
        return getattr(m, fn)

    def real(self, qual):
        f = self.get(qual)
        return f.real if isinstance(f, Dispatch) else f


class Dispatch:
    """A call site of a function under contract: use the contract, not the body."""

    def __init__(self, q, real, loader):
        self.q, self.real, self.loader = q, real, loader
        self.__name__ = real.__name__

    def __call__(self, *a, **k):
        import inspect

        C = sym.CUR
        stub = self.loader.stubs.get(self.q)
        if stub is None or C.spec_mode:
            return self.real(*a, **k)
        try:
            ba = inspect.signature(self.real).bind(*a, **k)
            ba.apply_defaults()
        except TypeError:
            raise
        try:
            r = stub(C, dict(ba.arguments))
        except StubMismatch as e:
            C.notes.add(f"{self.q}: call site verified against the body ({e})")
            return self.real(*a, **k)
        C.stubs_used.add(self.q)
        return r


class StubMismatch(Exception):
    pass
