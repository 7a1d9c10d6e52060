"""Verification session: path facts, decision log, obligations, instantiation registries."""
from __future__ import annotations

import contextlib
import time

import z3

from . import sym
from .sym import Infeasible, PathEnd, S, Unsupported, lift


class Obligation:
    def __init__(self, name, facts, goal, kind="post", origin=None):
        self.name, self.facts, self.goal = name, facts, goal
        self.kind, self.origin = kind, origin
        self.ngen = len(facts)  # facts known when it was generated (the same on sibling paths)
        self.status = None
        self.model = None
        self.backend = None
        self.time = 0.0


class Session:
    def __init__(self, unit, decisions=()):
        self.unit = unit
        self.decisions = list(decisions)
        self.pos = 0
        self.alternatives = []  # decision prefixes still to explore
        self.facts = []
        self.solver = z3.Solver()
        self.solver.set("timeout", 400)
        self.obligations = []
        self.flats = {}
        self.masks = {}
        self.sums = {}
        self.deps = {}  # symbol -> outer bound variables its value varies with
        self.opaques, self.opaque_on = {}, set()
        self.simp_cache, self.rewrites, self.grid_ids = {}, {}, {}
        self.late = set()
        self.loop_stack, self.loop_counts = [], {}
        self._once = set()
        self._keep = []
        self._ids = 0
        self._bv = 0
        self._ent = {}
        self._neg = {}
        self.schemas = []  # (dim, fn(i)->z3)
        self.seen = {}  # dimkey -> {id: S}
        self._inst = set()
        self.funs = {}
        self._fun_ids = {}
        self.nan_compare = True
        self.bound_stack = []
        self.inputs = {}
        self.assumed = []
        self.rng = None
        self.rng_log = []
        self.maximised = []  # arrays an argmax was taken of (contracts use them as cut formulas)
        self.nsolver = 0
        self.tsolver = 0.0
        self.notes = set()
        self.stubs_used = set()
        self.loops = {}
        self.spec_mode = False
        self.flags = {}
        self.guards = ()
        self.frame = None  # (serial, ids): arrays an independent iteration may change

    # -- naming
    def new_id(self):
        self._ids += 1
        return self._ids

    def fresh(self, base, k):
        n = f"{base}!{self.new_id()}"
        self.varies(n)
        return S({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[k](n), k)

    def varies(self, name):
        """A new symbol made under bound variables stands for a value at one arbitrary position."""
        if self.bound_stack and name not in self.deps:
            self.deps[name] = {b.get_id() for b in self.bound_stack}
        return name

    def ufun(self, name, dom, rng):
        f = self.funs.get(name)
        if f is None:
            f = z3.Function(name, *dom, rng) if dom else None
            self.funs[name] = f
        return f

    def keepalive(self, t):
        self._keep.append(t)

    @contextlib.contextmanager
    def guarded(self, cond):
        """Evaluate under a path guard: obligations raised inside (index bounds,
        stub preconditions) are proved only where the guard holds, and every fact
        recorded inside is weakened by it."""
        cond = lift(cond)
        if cond.conc:
            yield
            return
        old = self.guards
        self._keep.append(cond.v)
        self.guards = old + (cond.v,)
        try:
            yield
        finally:
            self.guards = old

    def gkey(self):
        return tuple(t.get_id() for t in self.guards)

    def once(self, key):
        if self.guards:
            if key in self._once:
                return False
            key = (key, self.gkey())
        if key in self._once:
            return False
        self._once.add(key)
        return True

    # -- facts
    def assume(self, f):
        if isinstance(f, S):
            f = f.as_bool()
            f = bool(f.v) if f.conc else f.v
        if isinstance(f, bool):
            if f:
                return
            if not self.guards:
                raise Infeasible()
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        if self.guards:
            f = z3.Implies(z3.And(*self.guards), f)
        self.facts.append(f)
        self.solver.add(f)

    def assume_some(self, f):
        pass

    def _check(self, t):
        t0 = time.time()
        self.nsolver += 1
        r = self.solver.check(t)
        self.tsolver += time.time() - t0
        return r

    def entails(self, t):
        """Does the path condition entail t?  (False also when undecided.)"""
        if isinstance(t, S):
            t = t.term()
        if isinstance(t, bool):
            return t
        if z3.is_true(t):
            return True
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        i = t.get_id()
        if i in self._ent:
            return True
        if self.guards:
            return self._entails_guarded(t)
        if self._neg.get(i) == len(self.facts):
            return False
        r = self._check(z3.Not(t))
        if r == z3.unsat:
            self._ent[i] = t
            return True
        self._neg[i] = len(self.facts)
        self._keep.append(t)
        return False

    def _entails_guarded(self, t):
        i = (t.get_id(), self.gkey())
        if i in self._ent:
            return True
        if self._neg.get(i) == len(self.facts):
            return False
        self.solver.push()
        self.solver.add(*self.guards)
        r = self._check(z3.Not(t))
        self.solver.pop()
        self._keep.append(t)
        if r == z3.unsat:
            self._ent[i] = t
            return True
        self._neg[i] = len(self.facts)
        return False

    def quick_entails(self, t):
        return self.entails(t)

    def branch(self, b):
        if self.spec_mode:
            raise Unsupported("branching on a symbolic value inside a spec")
        if self.guards:
            raise Unsupported("branching on a symbolic value under a guard")
        t = z3.simplify(b.term())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if self.entails(t):
            return True
        if self.entails(z3.Not(t)):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
            self.alternatives.append(self.decisions[: self.pos] + [False])
            self.decisions.append(True)
        self.pos += 1
        if len(self.decisions) > 40:
            raise Unsupported("too many symbolic branches")
        self.assume(t if d else z3.Not(t))
        if self.solver.check() == z3.unsat:
            raise Infeasible()
        return d

    def choose(self, n):
        """Non-deterministic engine choice among n options (explored exhaustively)."""
        for i in range(n - 1):
            if self.pos < len(self.decisions):
                d = self.decisions[self.pos]
            else:
                d = True
                self.alternatives.append(self.decisions[: self.pos] + [False])
                self.decisions.append(True)
            self.pos += 1
            if d:
                return i
        return n - 1

    # -- flat indices
    def register_flat(self, t, hi, lo, d):
        t = lift(t)
        if t.conc:
            return
        self.flats[t.v.get_id()] = (lift(hi), lift(lo), lift(d))
        self._keep.append(t.v)

    def split_index(self, a, b):
        """(a // b, a % b) for recognised flat indices, else None."""
        if a.conc and b.conc:
            return None
        if not a.conc:
            f = self.flats.get(a.v.get_id())
            if f is not None:
                hi, lo, d = f
                if z3.is_int_value(z3.simplify(d.term() - b.term())) and (
                    z3.simplify(d.term() - b.term()).as_long() == 0
                ):
                    return hi, lo
        if self.entails(z3.And(a.term() >= 0, a.term() < b.term())):
            return S(0, "i"), a
        if not a.conc and not b.conc and a.k == "i" and b.k == "i":
            for k in (1, 2):  # a few rows of a symbolic width
                r = S(z3.simplify(a.term() - k * b.term()), "i")
                if self.entails(z3.And(r.term() >= 0, r.term() < b.term())):
                    return S(k, "i"), r
        return None

    def flat_in_bounds(self, j, n):
        """index j < n for a registered flat index j = hi*d+lo and n = H*d."""
        from .arr import dim, dim_div

        if j.conc:
            return False
        f = self.flats.get(j.v.get_id())
        if f is None:
            return False
        hi, lo, d = f
        H = dim_div(dim(n), dim(d))
        if H is None:
            return False
        return self.entails(
            z3.And(
                hi.term() >= 0,
                hi.term() < lift(H).term(),
                lo.term() >= 0,
                lo.term() < d.term(),
            )
        )

    # -- quantified schemas, instantiated for every index term read in a dimension
    def dkey(self, n):
        if isinstance(n, int):
            return n
        return z3.simplify(lift(n).term()).get_id()

    def add_schema(self, n, fn):
        self._keep.append(z3.simplify(lift(n).term()))
        self.schemas.append((self.dkey(n), n, fn))

    def see(self, n, i):
        i = lift(i)
        if i.conc:
            return
        d = self.seen.setdefault(self.dkey(n), {})
        if not self._has_bound(i.v):
            d[i.v.get_id()] = i

    def _has_bound(self, t):
        if not self.bound_stack:
            return False
        from .reduce import _occurs

        return any(_occurs(t, b) for b in self.bound_stack)

    def instantiate_schemas(self):
        for _ in range(3):
            todo = []
            for si, (dk, n, fn) in enumerate(self.schemas):
                for tid, i in list(self.seen.get(dk, {}).items()):
                    if (si, tid) not in self._inst:
                        self._inst.add((si, tid))
                        todo.append((fn, i, n))
            if not todo:
                return
            for fn, i, n in todo:
                rng = z3.And(i.term() >= 0, i.term() < lift(n).term())
                with self.guarded(S(rng, "b")):  # the schema speaks about indices in range only
                    self.assume(fn(i))

    # -- bound variables
    def bound_var(self, n):
        k = self.dkey(n)
        if not isinstance(n, int):
            self._keep.append(z3.simplify(lift(n).term()))
        names = self.__dict__.setdefault("_bvn", {})
        key = (len(self.bound_stack), k)
        if key not in names:
            names[key] = z3.Int(f"bv!{len(self.bound_stack)}!{len(names)}")
        return names[key]

    @contextlib.contextmanager
    def bound(self, b, n):
        self.bound_stack.append(b)
        # range facts for the bound variable hold globally (it is a fixed constant)
        if self.once(("bv", b.get_id(), self.dkey(n))):
            pass
        self.solver.push()
        self.solver.add(b >= 0, b < lift(n).term())
        nf = len(self.facts)
        ent, neg = dict(self._ent), dict(self._neg)
        try:
            yield
        finally:
            self.solver.pop()
            self._ent, self._neg = ent, neg
            self.bound_stack.pop()
            # facts added inside mention b only under instantiation at b; keep them
            for f in self.facts[nf:]:
                self.solver.add(f)

    def simp(self, t):
        return z3.simplify(t, som=False)

    def depend(self, names, body, own):
        """The symbols `names` stand for a value that varies with outer bound variables of `body`.

        They are constants to the solver: the value at one arbitrary position.
        """
        out, seen, st = set(), set(), [body]
        bvs = {b.get_id() for b in self.bound_stack}
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.get_id() in bvs:
                out.add(x.get_id())
            if z3.is_app(x):
                out |= self.deps.get(x.decl().name(), set())
                st.extend(x.children())
        out.discard(own.get_id())
        if out:
            for k in names:
                self.deps[k] = self.deps.get(k, set()) | out

    def sum_const(self, b, n, body):
        key = (body.get_id(), b.get_id(), self.dkey(n))
        r = self.sums.get(key)
        if r is None:
            c = z3.Real(f"sum!{len(self.sums)}")
            self.sums[key] = r = (c, b, n, body)
            self.depend([c.decl().name()], body, b)
        return r[0]

    def exists_flag(self, b, n, bad):
        key = ("flag", z3.simplify(bad).get_id(), b.get_id(), self.dkey(n))
        r = self.flags.get(key)
        if r is None:
            t = z3.simplify(bad)
            fb = z3.Bool(f"badflag!{len(self.flags)}")
            self.flags[key] = r = (fb, b, n, t)
            # flag is definedness: exists b. bad(b)
            bb = z3.Int("bq")
            q = z3.substitute(t, (b, bb))
            self.assume(
                z3.Implies(
                    fb,
                    z3.Exists([bb], z3.And(bb >= 0, bb < lift(n).term(), q)),
                )
            )
        return r[0]

    def intern_fun(self, rd, n):
        b = self.bound_var(n)
        with self.bound(b, n):
            body = self.simp(rd((S(b, "i"),)).term())
        key = (body.get_id(), b.get_id(), self.dkey(n))
        if key not in self._fun_ids:
            self._fun_ids[key] = len(self._fun_ids)
            self._keep.append(body)
        return self._fun_ids[key]

    # -- obligations
    def bounds_obligation(self, j, n, what):
        if self.flat_in_bounds(j, n):
            return
        if self._has_bound(j.term()):
            self.notes.add("index bounds under a bound variable assumed")
            return
        key = ("bounds", z3.simplify(j.term()).get_id(), self.dkey(n))
        if not self.once(key):
            return
        self._keep.append(z3.simplify(j.term()))
        if self.spec_mode:
            return
        self.pending_bounds = getattr(self, "pending_bounds", [])
        self.prove(
            f"{what} in bounds",
            S(z3.And(j.term() >= 0, j.term() < lift(n).term()), "b"),
            kind="bounds",
        )

    def prove(self, name, goal, kind="post"):
        goal = lift(goal).as_bool()
        if goal.conc:
            goal = S(z3.BoolVal(bool(goal.v)), "b", goal.bad)
        g = goal.v
        if self.guards:
            g = z3.Implies(z3.And(*self.guards), g)
        self.obligations.append(Obligation(name, list(self.facts), g, kind))

    def prove_eq(self, name, code, spec):
        """spec finite => code finite and equal."""
        code, spec = lift(code), lift(spec)
        conj = []
        sb = _badterm(spec)
        cb = _badterm(code)
        if code.k == "b" and spec.k == "b":
            g = code.term() == spec.term()
        else:
            if code.k == "r" or spec.k == "r":
                code, spec = code.as_real(), spec.as_real()
            else:
                code, spec = code.as_int(), spec.as_int()
            g = code.term() == spec.term()
        if cb is not None:
            conj.append(z3.Not(cb))
        conj.append(g)
        goal = z3.And(*conj) if len(conj) > 1 else conj[0]
        if sb is not None:
            goal = z3.Implies(z3.Not(sb), goal)
        self.prove(name, S(goal, "b"))


def _badterm(s):
    if s.bad is None:
        return None
    if s.bad is True:
        return z3.BoolVal(True)
    if s.bad is False:
        return None
    return s.bad
