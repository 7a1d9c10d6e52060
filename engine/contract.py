"""Contracts: symbolic side (inputs generator ``g``, specification operations ``o``)."""
from __future__ import annotations

import contextlib
import json
import time
import traceback
from fractions import Fraction
from types import SimpleNamespace

import z3

from . import arr as A
from . import load, reduce as R, sym, vc
from .base import Reject, Unit
from .arr import Arr, nidx, dim
from .solver import Prover
from .sym import Infeasible, PathEnd, S, Unsupported, ite, lift

SORT = {"r": z3.RealSort(), "i": z3.IntSort(), "b": z3.BoolSort()}


class G:
    """Symbolic input generator."""

    symbolic = True

    def __init__(self, C):
        self.C = C

    def _reg(self, name, **kw):
        self.C.inputs[name] = kw

    def dim(self, name, lo=1, hi=None, conc=None):
        v = z3.Int(name)
        self.C.assume(v >= lo)
        if hi is not None:
            self.C.assume(v <= hi)
        self._reg(name, kind="dim", term=v, lo=lo)
        return S(v, "i")

    def int(self, name, lo=None, hi=None, conc=None):
        v = z3.Int(name)
        s = S(v, "i")
        self._bounds(s, lo, hi)
        self._reg(name, kind="int", term=v)
        return s

    def bool(self, name):
        v = z3.Bool(name)
        self._reg(name, kind="bool", term=v)
        return S(v, "b")

    def _bounds(self, s, lo=None, hi=None, slo=None, shi=None):
        if lo is not None:
            self.C.assume(s >= lo)
        if hi is not None:
            self.C.assume(s <= hi)
        if slo is not None:
            self.C.assume(s > slo)
        if shi is not None:
            self.C.assume(s < shi)

    def real(self, name, lo=None, hi=None, slo=None, shi=None, conc=None, snap=None):
        v = z3.Real(name)
        s = S(v, "r")
        self._bounds(s, lo, hi, slo, shi)
        self._reg(name, kind="real", term=v)
        return s

    def num(self, x):
        return lift(x) if not isinstance(x, str) else S(Fraction(x), "r")

    def arr(self, name, shape, k="r", lo=None, hi=None, slo=None, shi=None, conc=None,
            lib="np", fact=None, snap=None, dtype=None):
        C = self.C
        shape = tuple(dim(d) for d in shape)
        f = z3.Function(name, *[z3.IntSort()] * len(shape), SORT[k])

        def fn(idx):
            t = f(*[lift(i).term() for i in idx])
            s = S(t, k)
            if C.once(("in", t.get_id())):
                C.keepalive(t)
                for d, i in zip(shape, idx):
                    C.see(d, i)
                self._bounds(s, lo, hi, slo, shi)
                if fact is not None:
                    c = fact(SymO(C), s, idx)
                    if c is not None:
                        C.assume(c)
            return s

        self._reg(name, kind="arr", fn=f, shape=shape, k=k)
        return Arr(shape, fn, k, lib)

    def define(self, name, shape, fn, k="r", lib="np", dtype=None):
        """Array defined by a formula over other inputs."""
        return Arr(tuple(dim(d) for d in shape), lambda idx: lift(fn(SymO(self.C), *idx)), k, lib)

    def grid(self, name, n, lib="jnp", lo=None, hi=None):
        """Strictly increasing grid."""
        C = self.C
        n = dim(n)
        f = z3.Function(name, z3.IntSort(), z3.RealSort())
        seen = []

        def fn(idx):
            i = lift(idx[0])
            t = f(i.term())
            if C.once(("grid", t.get_id())):
                C.keepalive(t)
                rng = z3.And(i.term() >= 0, i.term() < lift(n).term())
                if lo is not None:
                    C.assume(z3.Implies(rng, t >= lo))
                if hi is not None:
                    C.assume(z3.Implies(rng, t <= hi))
                for j, tj in seen:
                    rj = z3.And(rng, j.term() >= 0, j.term() < lift(n).term())
                    C.assume(z3.Implies(rj, (i.term() < j.term()) == (t < tj)))
                    C.assume(z3.Implies(rj, (i.term() == j.term()) == (t == tj)))
                seen.append((i, t))
            return S(t, "r")

        self._reg(name, kind="arr", fn=f, shape=(n,), k="r")
        return Arr((n,), fn, "r", lib)

    def assume(self, c):
        self.C.assume(lift(c).as_bool())

    def table(self, name, levels, col, vals):
        """A pickled table, rows ordered by its index levels [(name, first label, size)]."""
        from . import shadow

        sizes = [dim(s) for _, _, s in levels]
        tot = A.dim_prod(sizes)
        path = f"/tables/{name}.pkl"

        def build():
            def part(k):
                lo = levels[k][1]
                return Arr((tot,), lambda idx: lift(A.unravel_index(idx[0], sizes)[k]) + lo, "i")

            df = shadow.DataFrame()
            df.cols[col] = Arr((tot,), lambda idx: vals.get(*A.unravel_index(idx[0], sizes)), vals.k)
            df.index = shadow.Index({nm: part(k) for k, (nm, _, _) in enumerate(levels)})
            df.index.names = tuple(nm for nm, _, _ in levels)
            return df

        self.C.files[path] = build
        return path

    def labelled(self, labels, names, col, vals):
        """A frame with concrete row labels; vals: one value per row."""
        from . import shadow

        return shadow.LabelFrame(labels, {col: shadow.from_nested([lift(v).as_real() for v in vals])}, names)

    def pickled(self, name, frame):
        path = f"/tables/{name}.pkl"
        self.C.files[path] = lambda: frame.copy()
        return path

    def yaml(self, name, obj):
        """A specification file; reading it gives the mapping obj (the parser is trusted)."""
        import copy

        path = f"/tables/{name}.yml"
        self.C.files[path] = lambda: copy.deepcopy(obj)
        return path

    def ns(self, **kw):
        return SimpleNamespace(**kw)

    def case(self, *a):
        return None


class SymO:
    """Symbolic specification operations."""

    symbolic = True

    def __init__(self, C):
        self.C = C

    def opaque(self, name, args, defn):
        """A contract-level function kept folded; unfolded only if the folded proof fails."""
        C = self.C
        d = lift(defn())
        if name not in C.opaque_on or d.conc or d.bad is not None:
            return d
        ts = [z3.simplify(lift(a).as_real().term()) for a in args]
        f = z3.Function("op!" + name, *[z3.RealSort()] * (len(ts) + 1))
        app = f(*ts)
        C.opaques[app.get_id()] = (app, d.term())
        return S(app, "r")

    # -- scalars
    def where(self, c, a, b):
        return ite(c, a, b)

    def exp(self, x):
        return sym.exp(lift(x))

    def log(self, x):
        return sym.log(lift(x))

    def pow(self, x, y):
        return lift(x).as_real() ** lift(y)

    def sqrt(self, x):
        from .shadow import _sqrt

        return _sqrt(lift(x))

    def max(self, a, b):
        return sym.smax(a, b)

    def min(self, a, b):
        return sym.smin(a, b)

    def and_(self, *a):
        r = S(True, "b")
        for x in a:
            r = r & lift(x).as_bool()
        return r

    def or_(self, *a):
        r = S(False, "b")
        for x in a:
            r = r | lift(x).as_bool()
        return r

    def not_(self, a):
        return sym.lnot(lift(a).as_bool())

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def real(self, x):
        return lift(x).as_real()

    def num(self, x):
        return S(Fraction(x), "r") if isinstance(x, str) else lift(x)

    def int(self, x):
        x = lift(x)
        return x.trunc() if x.k == "r" else x.as_int()

    def pick(self, xs, i):
        i = nidx(i)
        return lift(xs[i]) if isinstance(i, int) else A.pick([lift(x) for x in xs], i)

    def hermite(self, n, which, i):
        f = z3.Function("hermite_w" if which else "hermite_x", z3.IntSort(), z3.IntSort(), z3.RealSort())
        return S(f(lift(n).term(), lift(i).term()), "r")

    def normal(self, seed, shape, *idx, pos=0, stream=""):
        """Entry of the (pos)-th array of standard normals after seeding."""
        f = z3.Function(f"rng_normal{stream}!{pos}", z3.IntSort(), *[z3.IntSort()] * len(idx), z3.RealSort())
        return S(f(lift(seed).as_int().term(), *[lift(i).term() for i in idx]), "r")

    def finite(self, x):
        x = lift(x)
        if x.bad is None:
            return S(True, "b")
        return sym.lnot(S(x.bad, "b"))

    def div(self, a, b):
        return lift(a).as_real() / lift(b).as_real()

    # tolerance arguments only matter for the concrete (floating-point) side
    def le(self, a, b, tol=None):
        return lift(a) <= b

    def ge(self, a, b, tol=None):
        return lift(a) >= b

    def same(self, a, b, tol=None):
        return lift(a) == b

    @property
    def eps(self):
        """Machine epsilon of double precision."""
        return S(Fraction(1, 2**52), "r")

    @property
    def pi(self):
        return S(z3.Real("pi"), "r")

    # -- arrays
    def at(self, a, *idx):
        if isinstance(a, Arr):
            a0 = a
            return a0.get(*idx)
        if hasattr(a, "__toarr__"):
            return a.__toarr__().get(*idx)
        if isinstance(a, (list, tuple)):
            r = a
            for i in idx:
                r = A.pick([lift(x) for x in r], nidx(i)) if not isinstance(nidx(i), int) else r[nidx(i)]
            return lift(r)
        if not idx:
            return lift(a)
        raise Unsupported(f"o.at on {type(a).__name__}")

    def arr_of(self, x):
        return A.as_arr(x.__toarr__() if hasattr(x, "__toarr__") else x)

    def shape(self, a):
        if hasattr(a, "__toarr__"):
            a = a.__toarr__()
        if isinstance(a, (list, tuple)) and a:
            a = A.from_nested(a)
        if not isinstance(a, Arr):
            return ()
        return a.shape

    def sum(self, n, f):
        n = dim(n)
        if isinstance(n, int):
            t = S(Fraction(0), "r")
            for i in range(n):
                t = t + f(i)
            return t
        return R.sum_term(lambda i: f(nidx(i)), n)

    def scaled_sum(self, name, n, f, factor, g):
        """Lemma: f(i) == factor * g(i) for all i < n (an obligation), hence sum f == factor * sum g."""
        for (i,) in self.forall(n):
            self.eq(name, f(i), factor * g(i))
        self.C.notes.add("finite sums are linear (lemmas/Engine.lean: sum_scaled)")
        a, b = self.sum(n, f), self.sum(n, g)
        self.C.assume((a == factor * b).as_bool())
        return a

    def split(self, R, d):
        q = A.unravel_index(nidx(R), [None, dim(d)])
        return lift(q[0]), lift(q[1])

    def folded(self, a, *idx):
        """Read an array without unfolding its defining recurrence."""
        C = self.C
        old = getattr(C, "no_unfold", False)
        C.no_unfold = True
        try:
            return self.at(a, *idx)
        finally:
            C.no_unfold = old

    def flat(self, hi, lo, d):
        return A.flat_index(nidx(hi), nidx(lo), dim(d))

    def interp(self, grid, vals, x):
        """Operational reading of linear interpolation (see contract interp)."""
        n = lift(grid.shape[0])
        if "interp" in self.C.opaque_on:
            # where the stock falls on the grid stays folded (an uninterpreted position)
            q = z3.simplify(grid.get(S(z3.Int("grid?ix"), "i")).term())
            self.C.keepalive(q)
            gid = self.C.grid_ids.setdefault(q.get_id(), len(self.C.grid_ids))
            f = z3.Function(f"op!pos!{gid}", z3.RealSort(), z3.IntSort())
            p = f(z3.simplify(lift(x).as_real().term()))
            if self.C.once(("pos", p.get_id())):
                self.C.keepalive(p)
                self.C.assume(z3.And(p >= 0, p < n.term() - 1))
            lo = nidx(S(p, "i"))
            hi = nidx(lo + 1)
        else:
            j = R.searchsorted(grid, lift(x).as_real(), "right")
            j = sym.smin(sym.smax(j, 1), n - 1)
            lo = nidx(j - 1)
            hi = nidx(j)
        xl, xh = grid.get(lo), grid.get(hi)
        vl, vh = vals(lo), vals(hi)
        return vl + (lift(x) - xl) / (xh - xl) * (vh - vl)

    # -- quantification and obligations
    @contextlib.contextmanager
    def _scope(self, consts, rng):
        C = self.C
        for f in rng:
            C.assume(f)
        yield

    def forall(self, *dims, names=None, include=None):
        """One fresh index tuple standing for all in range (dims >= 1 assumed reachable)."""
        C = self.C
        out = []
        C.solver.push()
        nf = len(C.facts)
        ent, neg = dict(C._ent), dict(C._neg)
        for d in dims:
            d = dim(d)
            if isinstance(d, int) and d == 1:
                out.append(0)
                continue
            i = C.fresh("ix", "i")
            C.facts.append(z3.And(i.v >= 0, i.v < lift(d).term()))
            C.solver.add(C.facts[-1])
            C.see(d, i)
            out.append(i)
        n_range = len(C.facts)
        yield tuple(out)
        C.solver.pop()
        C._ent, C._neg = ent, neg
        del C.facts[nf:n_range]
        for f in C.facts[nf:]:
            C.solver.add(f)

    def each(self, *dims):
        """Concrete enumeration over concrete dims (case split), symbolic otherwise."""
        import itertools

        dims = [dim(d) for d in dims]
        if all(isinstance(d, int) for d in dims):
            yield from itertools.product(*[range(d) for d in dims])
        else:
            yield from self.forall(*dims)

    def eq(self, name, code, spec, rtol=None, atol=None):
        self.C.prove_eq(name, _sc(code), _sc(spec))

    def check(self, name, cond):
        self.C.prove(name, cond)

    def fact(self, cond):
        """Instantiate a known fact (lemma already discharged elsewhere)."""
        self.C.assume(lift(cond).as_bool())

    def shape_eq(self, name, a, dims):
        sh = self.shape(a)
        ok = len(sh) == len(dims)
        c = S(ok, "b")
        if ok:
            for x, y in zip(sh, dims):
                c = c & (lift(x) == lift(dim(y)))
        self.C.prove(name, c)

    def arb(self, name, lo=None, hi=None, **kw):
        """A further universally quantified integer / real in the postcondition."""
        v = self.C.fresh(name, "i")
        if lo is not None:
            self.C.assume(v >= lo)
        if hi is not None:
            self.C.assume(v <= hi)
        return v

    def general(self, vals, facts=()):
        """Forget what the values are: the claim is proved for arbitrary reals instead."""
        return [self.C.fresh("gen", "r") for _ in vals]

    def elementwise(self, f, *args, k="r", lib="jnp"):
        r = A.elementwise(f, lambda *ks: k, *args)
        if isinstance(r, Arr):
            r.lib = lib
        return r

    def array(self, shape, fn, k="r", lib="jnp"):
        return Arr(shape, lambda idx: lift(fn(*idx)), k, lib)


def _sc(x):
    if isinstance(x, Arr):
        if x.ndim:
            raise Unsupported("array where a scalar was expected")
        return x.get()
    return x


# ------------------------------------------------------------------ running a unit
class PathResult:
    pass


def explore(unit, case, stubs, max_paths=64):
    """Execute all paths symbolically; returns list of (session, outcome)."""
    work = [[]]
    out = []
    while work:
        dec = work.pop()
        C = vc.Session(unit.name, dec)
        sym.CUR = C
        C.files = {}
        status, err = "ok", None
        try:
            C.opaque_on = set(getattr(unit, "opaque", ()))
            g = G(C)
            o = SymO(C)
            C.g = g
            inp = unit.make(g, case)
            ld = load.Loader(C, stubs)
            fns = ld.real
            C.loader = ld
            C.loop_contracts = getattr(unit, "loops", {})
            C.unit_inp = inp
            C.npre = len(C.facts)
            try:
                res = unit.call(fns, inp, case)
                exc = None
            except (Unsupported, PathEnd, Infeasible):
                raise
            except Exception as e:  # the code under verification raised
                res, exc = None, e
                C.exc_tb = traceback.format_exc()
            if exc is not None:
                if hasattr(unit, "post_exc"):
                    unit.post_exc(o, inp, exc, case)
                else:
                    if _raised_by_repo(exc):
                        C.prove(f"no exception ({type(exc).__name__}: {exc})", S(False, "b"), kind="exc")
                    else:
                        raise Unsupported(f"exception {type(exc).__name__}: {exc}")
            else:
                unit.post(o, inp, res, case)
            C.instantiate_schemas()
            # facts gathered later (schemas, definitions) are valid for all obligations
            _share_facts(C)
        except PathEnd:
            C.instantiate_schemas()
            _share_facts(C)
            status = "cut"
        except Infeasible:
            status = "infeasible"
        except Unsupported as e:
            status, err = "unsupported", str(e)
            C.tb = traceback.format_exc()
        except RecursionError as e:
            status, err = "unsupported", "recursion"
        work.extend(reversed(C.alternatives))
        out.append((C, status, err))
        if len(out) > max_paths:
            out.append((C, "unsupported", "too many paths"))
            break
        if status == "unsupported":
            break
    return out


def _share_facts(C):
    """Facts recorded later (definitions, schemas, branch conditions) hold for every obligation
    of the path; assumed assertions are kept from obligations generated before them."""
    for ob in C.obligations:
        have = {f.get_id() for f in ob.facts}
        ob.facts = ob.facts + [f for f in C.facts if f.get_id() not in have and f.get_id() not in C.late]


def _raised_by_repo(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    return fn.startswith(load.REPO)


def run_unit(unit, case, stubs, budget=60.0, want_models=4):
    """-> dict with verdict proved/refuted/unknown/unsupported and details."""
    t0 = time.time()
    rep = dict(
        unit=unit.name, case=_cj(case), obligations=0, discharged=0, backends={},
        refuted=[], unknown=[], unsupported=None, models=[], notes=[], paths=0,
        stubs=[], solver_calls=0, solver_s=0.0,
    )
    try:
        paths = explore(unit, case, stubs)
    except Exception as e:  # engine defect: never a violation
        rep["unsupported"] = f"engine: {type(e).__name__}: {e}"
        rep["tb"] = traceback.format_exc()
        rep["verdict"] = "unsupported"
        rep["wall"] = time.time() - t0
        return rep
    vac = False
    for C, status, err in paths:
        sym.CUR = C
        rep["paths"] += 1
        rep["notes"].extend(sorted(C.notes))
        rep["stubs"] = sorted(set(rep["stubs"]) | C.stubs_used)
        rep["solver_calls"] += C.nsolver
        rep["solver_s"] += C.tsolver
        if status == "infeasible":
            continue
        if status == "unsupported":
            rep["unsupported"] = err
            rep["tb"] = C.tb if hasattr(C, "tb") else None
            continue
        # vacuity guard: the path's facts must be satisfiable
        pr = Prover(C, budget)
        r, _ = pr.z3_check(C.facts, z3.BoolVal(False), 2000)
        if r == z3.unsat:
            if len(C.decisions) == 0 or status == "ok" and not C.decisions:
                vac = True
                rep["unsupported"] = "contradictory precondition (vacuous)"
            continue
        for ob in C.obligations:
            rep["obligations"] += 1
            try:
                st = pr.prove(ob)
            except Exception as e:
                st = "unknown"
                ob.backend = f"error {type(e).__name__}: {e}"
            rep["backends"][ob.backend or "?"] = rep["backends"].get(ob.backend or "?", 0) + (
                1 if st == "proved" else 0
            )
            if st == "proved":
                rep["discharged"] += 1
            else:
                sat = st == "refuted"
                if ob.kind in ("invariant", "bounds") and sat:
                    st = "unknown"  # the invariant does not fit this code; that alone breaks no property
                d = dict(name=ob.name, kind=ob.kind, goal=str(z3.simplify(ob.goal))[:600], t=round(ob.time, 2), decisions=C.decisions)
                rep[st].append(d)
                if sat and len(rep["models"]) < want_models:
                    m = model_json(C, ob)
                    if m is not None:
                        rep["models"].append(dict(obligation=ob.name, values=m))
        rep["solver_calls"] += pr.calls
        rep["solver_s"] += pr.t
        for k, v in pr.audit.report().items():
            au = rep.setdefault("audit", {})
            au[k] = round(au.get(k, 0) + v, 2)
    rep["backends"] = {k: v for k, v in rep["backends"].items() if v}
    if rep["unsupported"]:
        rep["verdict"] = "unsupported"
    elif rep["refuted"]:
        rep["verdict"] = "refuted"
    elif rep["unknown"]:
        rep["verdict"] = "unknown"
    elif rep["obligations"] == 0:
        rep["verdict"] = "unsupported"
        rep["unsupported"] = "no obligations generated"
    else:
        rep["verdict"] = "proved"
    rep["solver_s"] = round(rep["solver_s"], 3)
    rep["wall"] = round(time.time() - t0, 3)
    return rep


def _cj(case):
    return {k: (v if isinstance(v, (int, float, str, bool, type(None), list, dict)) else str(v)) for k, v in case.items()}


def model_json(C, ob):
    """Concretise a counter-model: small dimensions, input values."""
    dims = [v["term"] for v in C.inputs.values() if v["kind"] == "dim"]
    for cap in (3, 6, 14, 40, None):
        s = z3.Solver()
        s.set("timeout", 3000)
        for f in ob.facts + getattr(ob, "extra", []):
            s.add(f)
        from .solver import axioms_for

        for a in axioms_for(list(ob.facts) + [ob.goal]):
            s.add(a)
        s.add(z3.Not(ob.goal))
        if cap:
            for d in dims:
                s.add(d <= cap)
        if s.check() == z3.sat:
            break
    else:
        return None
    m = s.model()
    out = {}

    def val(t):
        v = m.eval(t, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if z3.is_algebraic_value(v):
            return float(v.approx(20).as_fraction())
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    for n, d in C.inputs.items():
        if d["kind"] in ("dim", "int", "real", "bool"):
            out[n] = val(d["term"])
        elif d["kind"] == "arr":
            pts = {}
            fi = m[d["fn"]]
            if fi is not None and not z3.is_expr(fi):
                try:
                    for e in range(fi.num_entries()):
                        en = fi.entry(e)
                        key = ",".join(str(en.arg_value(a)) for a in range(en.num_args()))
                        pts[key] = val(en.value())
                    els = fi.else_value()
                    pts["else"] = val(els) if els is not None and not z3.is_var(els) and not _hasvar(els) else None
                except Exception:
                    pass
            out[n] = pts
    return out


def _hasvar(t):
    if z3.is_var(t):
        return True
    return any(_hasvar(c) for c in t.children())


def make_stub(u):
    """The contract of ``u`` at a call site: preconditions become obligations."""

    def frozen(x):  # the callee reads its arguments when it is called
        return Arr(x.shape, x.snap(), x.k, x.lib) if isinstance(x, Arr) else x

    def st(C, a):
        o = SymO(C)
        a = {k: frozen(v) for k, v in a.items()}
        req = getattr(u, "requires", None)
        if req is not None:
            for name, cond in req(o, a):
                cond = lift(cond).as_bool()
                if cond.conc:
                    if cond.v:
                        continue
                elif C._has_bound(cond.term()):
                    continue  # re-checked at every index the caller actually reads
                if not cond.conc and not C.once(("pre", u.name, z3.simplify(cond.term()).get_id())):
                    continue
                C.keepalive(z3.simplify(cond.term()) if not cond.conc else None)
                C.prove(f"precondition of {u.name}: {name}", cond, kind="pre")
        return u.stub(o, a)

    return st


def stubs_for(unit, reg):
    r = {reg[n].stub_target: make_stub(reg[n]) for n in unit.uses}
    for t, f in getattr(unit, "extra_stubs", {}).items():  # callees whose own unit is relational
        r[t] = f
    return r
