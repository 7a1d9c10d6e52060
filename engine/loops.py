"""Loop contracts: an unbounded loop is cut at an invariant.

A unit lists ``loops = {("function", ordinal): spec}``.  ``spec.state(o, k, env)`` gives
the closed form of every variable the loop changes after k iterations.  Obligations:
  (init)  the values at loop entry are state(0),
  (step)  one execution of the real body from state(k), arbitrary k, ends in state(k+1);
the path then ends.  A second path continues behind the loop from state(n).
A spec may instead give ``havoc(o, k, env)`` (fresh values with assumed facts) and
``check(o, k, env, vals, tag)`` (obligations) for relational invariants.
"""
from __future__ import annotations

import z3

from . import arr as A
from . import sym
from .arr import Arr, dim, nidx
from .sym import PathEnd, S, Unsupported, lift


class SymSeq:
    """Python list of arrays with a symbolic number of elements (append only)."""

    def __init__(self, n, get, elem_shape, k="i"):
        self.n, self._get, self.elem_shape, self.k = nidx(n), get, elem_shape, k

    def get(self, i):
        return self._get(i)

    def append(self, x):
        old, n0 = self._get, self.n
        x = A.as_arr(x)
        rd, sh = x.snap(), x.shape
        if len(sh) != len(self.elem_shape):
            raise Unsupported("list of arrays of different rank")

        def get(i):
            c = eq_lex(nidx(i), n0)
            if c.conc:
                return Arr(sh, rd, self.k) if c.v else old(i)
            # element numbers beyond the old length are only the new one
            return Arr(sh, lambda ix: sym.ite(c, rd(ix), old(i).get(*ix)), self.k)

        self._get = get
        self.n = nidx(lift(n0) + 1)

    def compare(self, o, name, v):
        """v is this sequence: same length, same elements at every position enumerated by ``points``."""
        if isinstance(v, list):
            o.check(name + ", length", lift(self.n) == len(v))
            for i, x in enumerate(v):
                x = A.as_arr(x)
                o.shape_eq(name + ", shape", x, self.elem_shape)
                for ix in o.forall(*self.elem_shape):
                    o.eq(name, x.get(*ix), self.get(i).get(*ix))
            return
        if not isinstance(v, SymSeq):
            raise Unsupported("list changed kind in a loop")
        o.check(name + ", length", lift(self.n) == lift(v.n))
        for r, guard in self.points(o):
            for ix in o.forall(*self.elem_shape):
                want = self.get(r).get(*ix)
                o.eq(name, sym.ite(guard, v.get(r).get(*ix), want), want)

    def points(self, o):
        """An arbitrary position below n (override to present it in mixed-radix form)."""
        for (r,) in o.forall(self.n):
            yield r, S(True, "b")

    def __bool__(self):
        return bool(lift(self.n) > 0)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list of arrays")

    def concat(self, axis, lib):
        if axis != 0:
            raise Unsupported("concatenate of a symbolic list along another axis")
        m = self.elem_shape[0]
        get = self._get

        def fn(idx):
            sp = sym.CUR.split_index(lift(idx[0]), lift(m)) if not isinstance(idx[0], int) else None
            if sp is None:
                q, r = nidx(lift(idx[0]) // lift(m)), nidx(lift(idx[0]) % lift(m))
            else:
                q, r = nidx(sp[0]), nidx(sp[1])
            return get(q).get(r, *idx[1:])

        return Arr((nidx(lift(self.n) * lift(m)),) + tuple(self.elem_shape[1:]), fn, self.k, lib)


def eq_lex(a, b):
    """Equality of mixed-radix numbers, digit by digit where both are registered so.

    hi*d + lo == hi'*d + lo'  <=>  hi == hi' and lo == lo'   when 0 <= lo, lo' < d
    (the range of the low digits is entailed by the path condition, else fall back).
    """
    C = sym.CUR
    la, lb = lift(a), lift(b)
    fa = None if la.conc else C.flats.get(la.v.get_id())
    fb = None if lb.conc else C.flats.get(lb.v.get_id())
    if fa and fb:
        ha, oa, da = fa
        hb, ob, db = fb
        if A.dim_eq(dim(da), dim(db)) and all(
            C.entails(z3.And(x.term() >= 0, x.term() < da.term())) for x in (oa, ob)
        ):
            return eq_lex(nidx(ha), nidx(hb)) & eq_lex(nidx(oa), nidx(ob))
    return A.eq_idx(nidx(la), nidx(lb))


class LoopCut:
    """One execution of a loop under contract.

    ``outer``: iteration numbers of the enclosing cut loops (outermost first);
    ``nth``: how often this loop was reached before within the same enclosing iteration.
    """

    parallel = False

    def __init__(self, session, mod, fn, ordn, it, assigned, loc):
        from .contract import SymO
        from .shadow import SymRange

        self.C = session
        key = (fn.split(".")[-1], ordn)
        spec = getattr(session, "loop_contracts", {}).get(key)
        if spec is None:
            raise Unsupported(f"loop {fn}#{ordn} over a symbolic range has no contract")
        self.spec, self.key = spec, key
        self.it, self.entry = it, assigned
        self.o = SymO(session)
        self.env = dict(loc)
        self.inp = session.unit_inp
        self.n = nidx(it.slen()) if isinstance(it, SymRange) else it.shape[0]
        self.rel = hasattr(spec, "havoc")
        self.tag = f"{fn} loop {ordn}"
        self.outer = list(session.loop_stack)
        self.nth = session.loop_counts.get(key, 0)
        session.loop_counts[key] = self.nth + 1

    def find(self, pred, what):
        """The variable of the loop satisfying pred at entry (so that renaming does not matter)."""
        from .load import UNDEF

        c = [k for k, v in self.entry.items() if v is not UNDEF and pred(v)]
        if len(c) != 1:
            raise Unsupported(f"{self.tag}: no unique {what} among {sorted(self.entry)}")
        return c[0]

    # -- protocol used by the generated code
    def iterate(self):
        C = self.C
        C.loops_cut = getattr(C, "loops_cut", set()) | {self.key}
        if C.choose(2) == 0:
            # invariant at entry, then one arbitrary iteration
            k = C.fresh("it", "i")
            if self.rel:
                self.spec.check(self, 0, dict(self.entry), "entry")
            else:
                self._compare(self.entry, self.spec.state(self, 0), "entry")
            C.assume(z3.And(k.v >= 0, k.v < lift(self.n).term()))
            self.k = k
            C.see(self.n, k)
            C.loop_stack.append(k)
            C.loop_counts = {}
            return True
        self.k = nidx(self.n)
        return False

    def _put(self, k):
        st = self.spec.havoc(self, k) if self.rel else self.spec.state(self, k)
        from .load import UNDEF

        out = []
        for name in sorted(self.entry):
            if name in st:
                v = st[name]
                old = self.entry[name]
                if isinstance(old, Arr) and isinstance(v, Arr) and old.base is None and old.lib == "np":
                    old._replace(v.snap())  # keep aliases in step
                    v = old
                out.append(v)
            else:
                out.append(UNDEF)
        return tuple(out)

    def havoc_iter(self):
        return self._put(self.k)

    def havoc_exit(self):
        return self._put(self.k)

    def item(self):
        if isinstance(self.it, Arr):
            return self.it[nidx(self.k)]
        return S(z3.simplify((lift(self.it.a) + self.k).term()), "i")

    def end_iter(self, loc):
        k1 = nidx(lift(self.k) + 1)
        self.C.loop_stack.pop()
        if self.rel:
            self.spec.check(self, k1, dict(loc), "step")
        else:
            self._compare(loc, self.spec.state(self, k1), "step")
        raise PathEnd()

    # -- closed forms
    def _compare(self, vals, st, when):
        from .load import UNDEF

        o = self.o
        for name, form in st.items():
            v = vals.get(name, UNDEF)
            lab = f"{self.tag}: {name} matches its closed form ({when})"
            if v is UNDEF:
                raise Unsupported(f"{name} is not bound at the {when} of {self.tag}")
            n0 = len(self.C.obligations)
            if hasattr(form, "compare"):
                form.compare(o, lab, v)
            elif isinstance(form, Arr):
                if not isinstance(v, Arr):
                    raise Unsupported(f"{name} changed kind in {self.tag}")
                o.shape_eq(lab + ", shape", v, form.shape)
                for ix in o.forall(*form.shape):
                    o.eq(lab, v.get(*ix), form.get(*ix))
            else:
                o.eq(lab, v, form)
            for ob in self.C.obligations[n0:]:
                ob.kind = "invariant"


# -- loops without a contract: independent iterations
class ParallelLoop:
    """A loop whose iterations do not depend on each other, as the map over its iterations.

    Every array the body changes is given to one arbitrary iteration i as: its own slice
    (index i along one axis) as it was before the loop, everything else arbitrary (a fresh
    function H: what other iterations may have made of it).  Obligation: the iteration leaves
    everything outside its own slice as it was; and its own slice afterwards does not mention
    H, nor any other variable the loop assigns.  Then after the loop slice i of each array is
    what iteration i computes.  A list that is empty before and gets exactly one element
    appended per iteration becomes the list of those elements.
    """

    parallel = True

    def __init__(self, session, mod, fn, ordn, it, assigned, loc):
        from .load import UNDEF
        from .shadow import SymRange

        self.C, self.tag, self.UNDEF = session, f"{fn} loop {ordn}", UNDEF
        self.it = it
        if isinstance(it, SymRange):
            if it.step != 1:
                raise Unsupported("stepped symbolic range")
            self.lo, self.hi = lift(it.a), lift(it.b)
        else:
            self.lo, self.hi = lift(0), lift(A.as_arr(_toarr(it)).shape[0])
        self.entry = assigned
        self.arrs = {k: v for k, v in assigned.items() if isinstance(v, Arr)}
        self.lists = {k for k, v in assigned.items() if isinstance(v, list)}
        self.nout = {k: None for k in self.lists}
        for k in self.lists:
            if len(assigned[k]):
                raise Unsupported(f"{self.tag}: the list {k} is not empty before the loop")
        for k, v in self.arrs.items():
            if v.lib != "np":
                self.arrs = {q: w for q, w in self.arrs.items() if q != k}
        for k, v in self.arrs.items():
            if v.base is not None or _aliased(v, k, loc):
                raise Unsupported(f"{self.tag}: {k} may be seen under another name")

    def item(self, i):
        from .shadow import SymRange

        if isinstance(self.it, SymRange):
            return i
        return A.as_arr(_toarr(self.it))[nidx(i)]

    def execute(self, body, i, init, axes, H):
        """one iteration on arrays whose own slice is init's and whose rest is H"""
        C = self.C
        args = {}
        for k in self.entry:
            if k in self.arrs:
                a, rd0, ax = self.arrs[k], init[k], axes[k]
                h = H[k]

                def fn(idx, rd0=rd0, ax=ax, h=h):
                    c = A.eq_idx(nidx(idx[ax]), nidx(i))
                    if c.conc:
                        return rd0(idx) if c.v else h(idx)
                    return sym.ite(c, rd0(idx), h(idx))

                args[k] = Arr(a.shape, fn, a.k, "np")
            elif k in self.lists:
                args[k] = []
            else:
                args[k] = self.UNDEF
        mine = dict(args)
        floor, rl = A.Arr.serial, len(C.rng_log)
        old = C.frame
        C.frame = (floor, {id(x) for x in mine.values() if isinstance(x, Arr)})
        # arrays made before this point are not the iteration's to change, except its own copies
        try:
            out = body(self.item(i), *[args[k] for k in sorted(self.entry)])
        finally:
            C.frame = old
        if len(C.rng_log) != rl:
            raise Unsupported(f"{self.tag}: draws random numbers")
        for k in list(self.arrs) + list(self.lists):
            if out.get(k) is not mine[k]:
                raise Unsupported(f"{self.tag}: {k} is bound anew")
        return out

    def run(self, body):
        C = self.C
        init = {k: v.snap() for k, v in self.arrs.items()}
        axes, H = {}, {}
        for k, a in self.arrs.items():
            ax = [j for j, d in enumerate(a.shape) if A.dim_eq(d, dim(self.hi))]
            if not ax:
                ax = [j for j, d in enumerate(a.shape) if C.entails((self.hi <= lift(d)).term())]
            if not ax or not C.entails((self.lo >= 0).term()):
                raise Unsupported(f"{self.tag}: no axis of {k} runs along the loop")
            axes[k] = ax
            f = z3.Function(C.varies(f"other!{C.new_id()}"), *[z3.IntSort()] * len(a.shape),
                            {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}[a.k])
            H[k] = f
        read = lambda k: (lambda idx, f=H[k], kk=self.arrs[k].k: S(f(*[lift(q).term() for q in idx]), kk))
        Hr = {k: read(k) for k in H}
        pick = self._axes(body, init, axes, Hr, H)
        if C.choose(2) == 0:
            i = C.fresh("it", "i")
            C.assume((i >= self.lo).term())
            C.assume((i < self.hi).term())
            C.see(dim(self.hi - self.lo), i)
            out = self.execute(body, i, init, pick, Hr)
            self._independent(out, i, pick, Hr, H, prove=True)
            raise PathEnd()
        # behind the loop: slice i is what iteration i computes
        cache = {}

        def at(i):
            key = (A.ikey(nidx(i)), C.gkey())
            if key not in cache:
                cache[key] = (self.execute(body, lift(i), init, pick, Hr), i)
            return cache[key][0]

        res = []
        for k in sorted(self.entry):
            if k in self.arrs:
                a, rd0, ax = self.arrs[k], init[k], pick[k]

                def fn(idx, k=k, rd0=rd0, ax=ax):
                    j = lift(idx[ax])
                    c = (j >= self.lo) & (j < self.hi)
                    if not c.conc and C.entails(c.term()):
                        c = S(True, "b")
                    if c.conc:
                        return at(idx[ax])[k].snap()(idx) if c.v else rd0(idx)
                    with C.guarded(c):
                        v = at(idx[ax])[k].snap()(idx)
                    return sym.ite(c, v, rd0(idx))

                a._replace(fn)
                res.append(a)
            elif k in self.lists:
                res.append(self._list(k, at))
            else:
                res.append(self.UNDEF)
        return tuple(res)

    def _list(self, k, at):
        from .shadow import SymList

        C, n = self.C, dim(self.hi - self.lo)
        p = C.fresh("it", "i")
        C.assume((p >= self.lo).term())
        # what one element looks like (only its kind and shape are used)
        with C.guarded(p < self.hi):
            x = at(p)[k]
        return _seq(n, lambda i: one(at(nidx(lift(i) + self.lo))[k]), one(x))

    def _axes(self, body, init, axes, Hr, H):
        return {k: v[0] for k, v in axes.items()} if all(len(v) == 1 for v in axes.values()) else self._search(body, init, axes, Hr, H)

    def _search(self, body, init, axes, Hr, H):
        import itertools

        C = self.C
        names = list(axes)
        i = C.fresh("it", "i")
        rng = (i >= self.lo) & (i < self.hi)
        for combo in itertools.product(*[axes[k] for k in names]):
            pick = dict(zip(names, combo))
            n0 = len(C.obligations)
            try:
                with C.guarded(rng):
                    out = self.execute(body, i, init, pick, Hr)
                    if self._independent(out, i, pick, Hr, H, prove=False):
                        return pick
            except Unsupported:
                pass
            finally:
                del C.obligations[n0:]
        raise Unsupported(f"{self.tag}: iterations are not independent along one axis")

    def _independent(self, out, i, pick, Hr, H, prove):
        from .contract import SymO

        C, o = self.C, SymO(self.C)
        hs = {f.name() for f in H.values()}
        for k in self.lists:
            if len(out[k]) != 1:
                raise Unsupported(f"{self.tag}: {len(out[k])} elements appended to {k}")
            x = one(out[k])
            for t in ([x.get(*ix) for ix in o.forall(*x.shape)] if isinstance(x, Arr) else [lift(x)]):
                if _mentions(t, hs):
                    raise Unsupported(f"{self.tag}: an element of {k} depends on other iterations")
        for k, a in self.arrs.items():
            P, ax = out[k], pick[k]
            for ix in o.forall(*a.shape):
                other = [q for q in ix]
                own = tuple(nidx(i) if q == ax else v for q, v in enumerate(ix))
                v = P.snap()(own)
                if _mentions(v, hs):
                    raise Unsupported(f"{self.tag}: the slice of {k} depends on other iterations")
                g = lift(ix[ax]) != i
                with C.guarded(g):
                    w, h = P.snap()(tuple(other)), Hr[k](tuple(other))
                same = w.term() == h.term()
                if w.bad is not None and w.bad is not False:
                    same = z3.And(same, z3.Not(S(w.bad, "b").term()))
                goal = z3.Implies(g.term(), same)
                if prove:
                    C.prove(f"{self.tag}: an iteration leaves the rest of {k} as it was", S(goal, "b"), kind="invariant")
                elif not C.entails(goal):
                    return False
        return True


def one(x):
    return x[0] if isinstance(x, list) else x


def _mentions(t, names):
    from .solver import subterms

    ts = [t.term()] + ([t.bad] if isinstance(t.bad, z3.ExprRef) else [])
    for u in subterms([z3.simplify(q) for q in ts]):
        if z3.is_app(u) and u.decl().name() in names:
            return True
    return False


def _toarr(it):
    h = getattr(it, "__toarr__", None)
    return h() if h is not None else it


def _aliased(a, name, loc):
    seen = set()

    def look(v, depth=0):
        if id(v) in seen or depth > 3:
            return False
        seen.add(id(v))
        if isinstance(v, Arr):
            b = v
            while b is not None:
                if b is a:
                    return True
                b = b.base
            return False
        if isinstance(v, dict):
            return any(look(x, depth + 1) for x in v.values())
        if isinstance(v, (list, tuple)):
            return any(look(x, depth + 1) for x in v)
        d = getattr(v, "__dict__", None)
        if isinstance(d, dict) and not callable(v) and not hasattr(v, "__path__"):
            return any(look(x, depth + 1) for x in list(d.values())[:60])
        return False

    return any(look(v) for k, v in loc.items() if k != name)


def _seq(n, get, sample):
    from .shadow import SymList

    if isinstance(sample, Arr):
        return SymArrs(n, get, sample)
    lift(sample)
    return SymList(n, lambda i: lift(get(i)))


class SymArrs:
    """A list of equally shaped arrays with a symbolic number of elements."""

    def __init__(self, n, get, sample):
        self.n, self._get, self.sample = dim(n), get, sample

    def slen(self):
        return lift(self.n)

    def __getitem__(self, k):
        if isinstance(k, slice):
            raise Unsupported("slice of a symbolic list of arrays")
        k = nidx(k)
        if isinstance(k, int) and k < 0:
            k = nidx(lift(self.n) + k)
        return self._get(k)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list of arrays")

    def __toarr__(self):
        sh = self.sample.shape
        rd = lambda idx: A.as_arr(self._get(idx[0])).snap()(tuple(idx[1:]))
        return Arr((self.n,) + tuple(sh), rd, self.sample.k)


# -- list comprehensions and displays
class _Items:
    """stands for the one generic position of a symbolic range inside a comprehension"""

    def __init__(self, it):
        self.it = it


def items(it):
    from .load import _vc_symbolic

    from .shadow import SymList

    if _vc_symbolic(it) or (isinstance(it, SymList) and not isinstance(it.n, int)):
        return [_Items(it)]
    return it


def elem(f, x):
    if not isinstance(x, _Items):
        return f(x)
    return (x, _frozen(f))


def _frozen(f):
    """the function with the values its free names have now (arrays as they are now)"""
    import types

    def now(v):
        if isinstance(v, Arr) and v.lib == "np":
            return Arr(v.shape, v.snap(), v.k, v.lib)
        c = getattr(v, "__vc_now__", None)
        return c() if c is not None else v

    if not f.__closure__:
        return f
    cells = []
    for c in f.__closure__:
        try:
            cells.append(types.CellType(now(c.cell_contents)))
        except ValueError:
            cells.append(c)
    return types.FunctionType(f.__code__, f.__globals__, f.__name__, f.__defaults__, tuple(cells))


def mklist(l):
    if len(l) == 1 and isinstance(l[0], tuple) and len(l[0]) == 2 and isinstance(l[0][0], _Items):
        from .shadow import SymRange

        x, f = l[0]
        it = x.it
        if isinstance(it, SymRange):
            n, item = dim(it.slen()), lambda i: lift(it.a) + lift(i)
        else:
            a = A.as_arr(_toarr(it))
            a = Arr(a.shape, a.snap(), a.k, a.lib)
            n, item = a.shape[0], lambda i: a[nidx(i)]
        C = sym.CUR
        rl = len(C.rng_log)
        cache = {}

        def get(i):
            key = (A.ikey(nidx(i)), C.gkey())
            if key not in cache:
                old = C.frame
                C.frame = (A.Arr.serial, set())
                try:
                    cache[key] = (f(item(nidx(i))), i)
                finally:
                    C.frame = old
                if len(C.rng_log) != rl and C.rng_log[rl:]:
                    raise Unsupported("random numbers drawn in a comprehension over a symbolic range")
            return cache[key][0]

        p = C.fresh("it", "i")
        C.assume((p >= 0).term())
        with C.guarded(p < lift(n)):
            s = get(p)
        rl = len(C.rng_log)
        if isinstance(s, (tuple, list, dict)) or s is None or isinstance(s, str):
            raise Unsupported("comprehension over a symbolic range with structured elements")
        return _seq(n, get, s)
    return l


def display(parts):
    from .shadow import SymList

    vals = []
    for star, v in parts:
        if not star:
            vals.append([v])
        elif not isinstance(v, (Arr, SymList)) and not hasattr(v, "__toarr__"):
            vals.append(list(v))
        else:
            a = A.as_arr(_toarr(v))
            vals.append(list(a) if isinstance(a.shape[0], int) else a)
    if all(isinstance(v, list) for v in vals):
        return [x for v in vals for x in v]
    whole = A.concatenate([A.from_nested(v) if isinstance(v, list) else v for v in vals if not (isinstance(v, list) and not v)], 0)
    if whole.ndim != 1:
        raise Unsupported("display of rows")
    return SymList.from_arr(Arr(whole.shape, whole.snap(), whole.k))
