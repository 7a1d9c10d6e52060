"""Discharging obligations: z3, own case-splitting + polynomial normal form, cvc5."""
from __future__ import annotations

import os
import time
from fractions import Fraction

import z3

from . import sym

T_FAST = 3000
T_SLOW = int(os.environ.get("VC_SLOW_MS", "12000"))


PREFIX = {}  # results for obligations shared by the paths of a unit (terms kept alive)


def subterms(ts):
    seen, out = set(), []
    st = list(ts)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(t)
        if z3.is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(t.children())
    return out


def axioms_for(ts):
    """Ground instances of the axioms of exp, log and pow for the terms present."""
    out = []
    exps, logs, pows = [], [], []
    for t in subterms(ts):
        if not z3.is_app(t) or t.num_args() == 0:
            continue
        if _has_var(t):
            continue
        d = t.decl()
        if d.eq(sym.F_EXP):
            exps.append(t)
        elif d.eq(sym.F_LOG):
            logs.append(t)
        elif d.eq(sym.F_POW):
            pows.append(t)
    for e in exps:
        x = e.arg(0)
        out.append(e > 0)
        out.append(z3.Implies(x > 0, e > 1))
        out.append(z3.Implies(x < 0, e < 1))
        out.append(z3.Implies(x == 0, e == 1))
    for l in logs:
        x = l.arg(0)
        out.append(z3.Implies(x > 1, l > 0))
        out.append(z3.Implies(x == 1, l == 0))
        out.append(z3.Implies(z3.And(x > 0, x < 1), l < 0))
    for p in pows:
        out.append(z3.Implies(p.arg(0) > 0, p > 0))
        out.append(z3.Implies(z3.And(p.arg(0) == 0, p.arg(1) > 0), p == 0))
        out.append(z3.Implies(p.arg(0) == 1, p == 1))
    for fam in (exps, logs):
        if 1 < len(fam) <= 6:
            for i in range(len(fam)):
                for j in range(i + 1, len(fam)):
                    a, b = fam[i], fam[j]
                    g = (a.arg(0) < b.arg(0)) == (a < b)
                    if fam is logs:
                        g = z3.Implies(z3.And(a.arg(0) > 0, b.arg(0) > 0), g)
                    out.append(g)
    return out


def _has_var(t):
    return any(z3.is_var(x) for x in subterms([t]))


def consts_of(t, cache={}):
    i = t.get_id()
    r = cache.get(i)
    if r is not None and r[0].eq(t):
        return r[1]
    s = set()
    for x in subterms([t]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            s.add(x.decl().name())
    cache[i] = (t, s)
    return s


class Audit:
    """Second opinion: some of z3's "unsat" answers are put to cvc5 as well. An answer that cvc5
    contradicts is not used (and is reported)."""

    every = False  # all answers while the time lasts, instead of an exponentially thinned sample
    budget_s = 0.0
    query_s = 1.0

    def __init__(self):
        self.n = self.confirmed = self.contradicted = self.no_answer = 0
        self.t = 0.0

    def agrees(self, s, extra):
        """False if cvc5 contradicts"""
        self.n += 1
        if self.t >= self.budget_s or not (self.every or self.n & (self.n - 1) == 0 or self.n % 64 == 0):
            return True
        t0 = time.time()
        q = z3.Solver()
        q.add(s.assertions())
        q.add(*extra)
        r = cvc5_solver(q, self.query_s)
        self.t += time.time() - t0
        if r == "unsat":
            self.confirmed += 1
        elif r == "sat":
            self.contradicted += 1
            return False
        else:
            self.no_answer += 1
        return True

    def report(self):
        return dict(unsat_answers=self.n, confirmed=self.confirmed, contradicted=self.contradicted, no_answer=self.no_answer, seconds=round(self.t, 2))


class Prover:
    def __init__(self, session, budget_s=60.0):
        self.audit = Audit()
        self.C = session
        self.deadline = time.time() + budget_s
        self.calls = 0
        self.stats = {"z3": 0, "split": 0, "cvc5": 0, "simplify": 0}
        self.t = 0.0

    # -- raw solver calls
    def z3_check(self, facts, goal, timeout):
        left = max(50, int((self.deadline - time.time()) * 1000))
        s = z3.Solver()
        s.set("timeout", min(timeout, left))
        for f in facts:
            s.add(f)
        ng = z3.Not(goal)
        s.add(ng)
        for a in axioms_for(list(facts) + [goal]):
            s.add(a)
        t0 = time.time()
        r = s.check()
        self.t += time.time() - t0
        self.calls += 1
        return self.second(r, s, ()), s

    def second(self, r, s, extra):
        if r == z3.unsat and self.audit.budget_s:
            t0 = time.time()
            ok = self.audit.agrees(s, extra)
            self.deadline += time.time() - t0
            if not ok:
                return z3.unknown
        return r

    def prove(self, ob):
        """-> 'proved' | 'refuted' | 'unknown'; sets backend/model/time."""
        t0 = time.time()
        goal = z3.simplify(ob.goal)
        try:
            if z3.is_true(goal):
                ob.status, ob.backend = "proved", "simplify"
                return ob.status
            facts = ob.facts
            self.unfolding = False
            goal = z3.simplify(self.rewrite(goal))
            if z3.is_true(goal):
                ob.status, ob.backend = "proved", "rewrite"
                return ob.status
            if z3.is_bool(ob.goal) and self.has_real(goal):
                s = z3.Solver()
                s.set("timeout", 1000)
                s.add(z3.Not(abstracted(ob.goal)))
                if self._chk(s) == z3.unsat:
                    ob.status, ob.backend = "proved", "abstract+z3"
                    return ob.status
            if not self.has_real(goal):
                ints = [f for f in facts[: ob.ngen] if not self.has_real(f)]
                key = (goal.get_id(), tuple(f.get_id() for f in ints))
                if key not in PREFIX:
                    PREFIX[key] = (goal, ints, self.z3_check(ints, goal, 1000)[0] == z3.unsat)
                if PREFIX[key][2]:
                    ob.status, ob.backend = "proved", "int+z3"
                    return ob.status
                ints = [f for f in facts if not self.has_real(f)]
                if self.z3_check(ints, goal, 1500)[0] == z3.unsat:
                    ob.status, ob.backend = "proved", "int+z3"
                    return ob.status
            light = self.relevant(facts, goal)
            if len(light) < len(facts):
                full = self.deadline
                if self.C.opaques:  # a cheap first attempt only
                    self.deadline = min(full, time.time() + 4)
                r = self._split(light + self.sum_lemmas(light, [goal]), goal)
                self.deadline = full
                if r is True:
                    ob.status, ob.backend = "proved", "light+z3"
                    return ob.status
            if self.C.opaques:
                # folded attempt first: opaque contract functions compared by congruence
                r = self._split(facts + self.sum_lemmas(facts, [goal]), goal)
                if r is True:
                    ob.status, ob.backend = "proved", "folded+z3"
                    return ob.status
                self.unfolding = True
                goal = z3.simplify(self.unfold(goal))
                facts = [self.unfold(f) for f in facts]
                ob.goal, ob.facts = goal, facts
            # 1. lemma pass for sums, definitions
            extra = self.sum_lemmas(facts, [goal])
            r = self._split(facts + extra, goal)
            if r is True:
                ob.status = "proved"
                ob.backend = ob.backend or "split+z3"
                return ob.status
            r, s = self.z3_check(facts + extra, goal, T_SLOW)
            if r == z3.unsat:
                ob.status, ob.backend = "proved", "z3"
            elif r == z3.sat:
                ob.status, ob.backend = "refuted", "z3"
                ob.model = s.model()
                ob.extra = extra
                if self._sums_in([goal]) or any(c.startswith("op!") for c in consts_of(goal)):
                    # sums are opaque constants here: a model need not be a counterexample
                    ob.status = "unknown"
            else:
                c = cvc5_check(facts + extra, goal, 8)
                if c == "unsat":
                    ob.status, ob.backend = "proved", "cvc5"
                else:
                    ob.status, ob.backend = "unknown", "none"
            return ob.status
        finally:
            ob.time = time.time() - t0

    def _sums_in(self, goals):
        names = {str(c) for (c, b, n, body) in self.C.sums.values()}
        return any(z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in names for t in subterms(goals))

    def has_real(self, t):
        tab = self.__dict__.setdefault("_reals", {})
        i = t.get_id()
        if i not in tab:
            tab[i] = (any(z3.is_real(x) for x in subterms([t])), t)
        return tab[i][0]

    def relevant(self, facts, goal):
        """Small facts that speak only about symbols of the goal (a sound weakening)."""
        gs = set(consts_of(goal))
        names = {str(c): body for (c, b, n, body) in self.C.sums.values()}
        for _ in range(3):
            for s in list(gs):
                if s in names:
                    gs |= consts_of(names.pop(s))
        key = len(facts), facts[-1].get_id() if facts else 0
        tab = self.__dict__.setdefault("_sizes", {})
        out = []
        for f in facts:
            i = f.get_id()
            if i not in tab:
                tab[i] = (len(subterms([f])), f)
            n = tab[i][0]
            if n > 40:
                continue
            cs = consts_of(f)
            if cs <= gs or (n <= 12 and all(self.is_dimlike(c) for c in cs)):
                out.append(f)
        return out

    def is_dimlike(self, c):
        v = self.C.inputs.get(c)
        return (v is not None and v["kind"] in ("dim", "int")) or c.startswith(("ix!", "it!"))

    def rewrite(self, t):
        """Definitional equations of recurrences, used left to right."""
        rw = self.C.rewrites
        for _ in range(3):
            have = {x.get_id() for x in subterms([t])}
            subs = [(v[0], v[1]) for k, v in rw.items() if k in have]
            if not subs:
                break
            t = z3.simplify(z3.substitute(t, *subs))
        return t

    def unfold(self, t):
        for _ in range(8):
            have = {x.get_id() for x in subterms([t])}
            subs = [v for k, v in self.C.opaques.items() if k in have]
            if not subs:
                return t
            t = z3.substitute(t, *subs)
        return t

    # -- equal sub-terms
    def sweep(self, facts, goal, limit=60):
        """Merge sub-terms of the goal that are provably equal, innermost first."""
        if not (z3.is_eq(goal) and z3.is_arith(goal.arg(0))):
            return goal
        s = z3.Solver()
        s.set("timeout", 400)
        for f in facts:
            s.add(f)
        failed, tries = set(), 0
        size = {}

        def sz(t):
            i = t.get_id()
            if i not in size:
                _KEEP.append(t)
                size[i] = 1 + max([sz(c) for c in t.children()], default=0)
            return size[i]

        while tries < limit:
            groups = {}
            for t in subterms([goal]):
                if not z3.is_app(t) or t.num_args() == 0 or z3.is_bool(t):
                    continue
                k = t.decl().kind()
                if k == z3.Z3_OP_UNINTERPRETED or k == z3.Z3_OP_POWER:
                    groups.setdefault(("f", t.decl().get_id()), []).append(t)
                elif k == z3.Z3_OP_ITE:
                    groups.setdefault(("ite", t.sort().name()), []).append(t)
            pairs = []
            for (kind, _), g in groups.items():
                if len(g) > 40:
                    continue
                for i in range(len(g)):
                    for j in range(i):
                        a, b = g[i], g[j]
                        if (a.get_id(), b.get_id()) in failed:
                            continue
                        pairs.append((max(sz(a), sz(b)), kind, a, b))
            pairs.sort(key=lambda p: p[0])
            merged = False
            for _, kind, a, b in pairs:
                failed.add((a.get_id(), b.get_id()))
                failed.add((b.get_id(), a.get_id()))
                _KEEP.extend((a, b))
                if kind == "f":
                    eqs = [z3.simplify(x == y) for x, y in zip(a.children(), b.children())]
                    eqs = [e for e in eqs if not z3.is_true(e) and not poly_true(e)]
                    if any(z3.is_false(e) for e in eqs):
                        continue
                    g = z3.And(*eqs) if eqs else z3.BoolVal(True)
                else:
                    g = a == b
                if not z3.is_true(g):
                    tries += 1
                    try:
                        if self._chk(s, z3.Not(g)) != z3.unsat:
                            continue
                    except TimeoutError:
                        return goal
                small, big = (a, b) if sz(a) <= sz(b) else (b, a)
                goal = z3.simplify(z3.substitute(goal, (big, small)))
                merged = True
                break
            if not merged:
                break
            if z3.is_true(goal) or poly_true(goal):
                return z3.BoolVal(True)
            if not z3.is_eq(goal):
                break
        return goal

    # -- sums
    def sum_lemmas(self, facts, goals, depth=0):
        C = self.C
        present = {}
        names = {str(c): (c, b, n, body) for (c, b, n, body) in C.sums.values()}
        for t in subterms(goals):
            if z3.is_const(t) and t.decl().name() in names:
                present[t.decl().name()] = names[t.decl().name()]
        ps = list(present.values())
        out = []
        if depth > 3:
            return out
        for i in range(len(ps)):
            for j in range(i + 1, len(ps)):
                c1, b1, n1, t1 = ps[i]
                c2, b2, n2, t2 = ps[j]
                t1, t2 = self.rewrite(t1), self.rewrite(t2)
                if self.unfolding:
                    t1, t2 = self.unfold(t1), self.unfold(t2)
                n1t, n2t = sym.lift(n1).term(), sym.lift(n2).term()
                if not z3.is_true(z3.simplify(n1t == n2t)):
                    continue
                if not b1.eq(b2):
                    t2 = z3.substitute(t2, (b2, b1))
                rng = [b1 >= 0, b1 < n1t]
                g = z3.simplify(t1 == t2)
                if z3.is_true(g):
                    out.append(c1 == c2)
                    continue
                u1, u2 = canon(z3.simplify(t1)), canon(z3.simplify(t2))
                if z3.is_true(z3.simplify(u1 == u2)):
                    out.append(c1 == c2)
                    continue
                if len(_all_conds(u1 == u2)) < len(_all_conds(g)):
                    t1, t2 = u1, u2
                sub = self.sum_lemmas(facts, [t1, t2], depth + 1)
                if self._split(facts + rng + sub, t1 == t2) is True:
                    out.append(c1 == c2)
        return out

    # -- case splitting
    def _split(self, facts, goal, depth=0):
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_and(goal):
            for g in goal.children():
                if self._split(facts, g, depth) is not True:
                    return None
            return True
        if z3.is_implies(goal):
            return self._split(facts + [goal.arg(0)], goal.arg(1), depth)
        if z3.is_or(goal):
            # a or b: assume not a, prove b (last equality-like disjunct kept as goal)
            ch = list(goal.children())
            key = [c for c in ch if z3.is_eq(c) and not z3.is_bool(c.arg(0))]
            g = key[-1] if key else ch[-1]
            rest = [z3.Not(c) for c in ch if not c.eq(g)]
            return self._split(facts + rest, g, depth)
        if poly_true(goal):
            return True
        s = z3.Solver()
        s.set("timeout", 700)
        for f in facts:
            s.add(f)
        for a in axioms_for(list(facts) + [goal]):
            s.add(a)
        try:
            if self._chk(s, z3.Not(goal)) == z3.unsat:
                return True
        except TimeoutError:
            return None
        try:
            for g, path in self._index_cases(s, goal, []):
                g = self.sweep(facts + path, g)
                if z3.is_true(g):
                    continue
                s.push()
                try:
                    for c in path:
                        s.add(c)
                    s.set("timeout", 1500)
                    self.nsplit = 0
                    if self._split_rec(s, g, 0) is not True:
                        return None
                finally:
                    s.pop()
            return True
        except TimeoutError:
            return None

    def _index_cases(self, s, goal, path, depth=0):
        """Case distinction on conditions over dimensions and index variables only."""
        if depth > 5 or not z3.is_eq(goal):
            return [(goal, path)]
        for c in _all_conds(goal):
            if not all(self.is_dimlike(x) for x in consts_of(c)):
                continue
            out = []
            for lit, val in ((c, True), (z3.Not(c), False)):
                s.push()
                try:
                    s.add(lit)
                    if self._chk(s) == z3.unsat:
                        continue
                    g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(val))))
                    out += self._index_cases(s, g, path + [lit], depth + 1)
                finally:
                    s.pop()
            return out
        return [(goal, path)]

    def _chk(self, s, *a):
        if time.time() > self.deadline:
            raise TimeoutError
        t0 = time.time()
        r = s.check(*a)
        self.t += time.time() - t0
        self.calls += 1
        return self.second(r, s, a)

    def _split_rec(self, s, goal, depth):
        try:
            return self._split_rec0(s, goal, depth)
        except TimeoutError:
            return None

    def _split_rec0(self, s, goal, depth):
        if depth > 60 or self.nsplit > 600:
            return None
        self.nsplit += 1
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        goal = self._prune(s, goal)
        if z3.is_true(goal):
            return True
        if poly_true(goal):
            return True
        c = _pick_cond(goal)
        if c is None:
            r = self._chk(s, z3.Not(goal))
            if r == z3.unsat:
                return True
            return None
        # quick whole-goal attempt
        if depth in (0, 3, 6, 10):
            s.set("timeout", 700)
            r = self._chk(s, z3.Not(goal))
            s.set("timeout", 1500)
            if r == z3.unsat:
                return True
        for val in (True, False):
            s.push()
            try:
                s.add(c if val else z3.Not(c))
                if self._chk(s) == z3.unsat:
                    continue
                g2 = z3.substitute(goal, (c, z3.BoolVal(val)))
                if self._split_rec0(s, g2, depth + 1) is not True:
                    return None
            finally:
                s.pop()
        return True

    def _prune(self, s, goal):
        """Resolve ite conditions that the path facts decide."""
        for _ in range(40):
            conds = _all_conds(goal)
            subs = []
            for c in conds[:12]:
                if self._chk(s, c) == z3.unsat:
                    subs.append((c, z3.BoolVal(False)))
                elif self._chk(s, z3.Not(c)) == z3.unsat:
                    subs.append((c, z3.BoolVal(True)))
            if not subs:
                return goal
            goal = z3.simplify(z3.substitute(goal, *subs))
            if z3.is_true(goal):
                return goal
        return goal


def abstracted(goal):
    """Every real-valued sum, product, power ... replaced by a constant of its own (a weakening)."""
    memo, keep = {}, []

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        keep.append(t)
        if z3.is_real(t) and not z3.is_rational_value(t) and not (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE):
            r = z3.Real(f"abs!{i}")
        elif z3.is_app(t) and t.num_args():
            r = t.decl()(*[go(c) for c in t.children()])
        else:
            r = t
        memo[i] = r
        return r

    return go(goal)


def _all_conds(goal):
    """ite conditions, innermost (ite-free) first."""
    out, seen = [], set()
    for t in subterms([goal]):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c = t.arg(0)
            for a in _atoms(c):
                if a.get_id() not in seen and not _contains_ite(a):
                    seen.add(a.get_id())
                    out.append(a)
    return out


def _atoms(c):
    if z3.is_and(c) or z3.is_or(c) or z3.is_not(c) or z3.is_implies(c):
        r = []
        for x in c.children():
            r.extend(_atoms(x))
        return r
    if z3.is_eq(c) and z3.is_bool(c.arg(0)):
        return _atoms(c.arg(0)) + _atoms(c.arg(1))
    if z3.is_true(c) or z3.is_false(c):
        return []
    return [c]


def _contains_ite(t):
    return any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in subterms([t]))


def _pick_cond(goal):
    cs = _all_conds(goal)
    if cs:
        # prefer boolean/integer atoms
        def rank(c):
            if z3.is_const(c):
                return 0
            if c.num_args() and z3.is_int(c.arg(0)):
                return 1
            return 2

        return min(cs, key=rank)
    if z3.is_bool(goal) and not z3.is_eq(goal):
        pass
    return None


# ------------------------------------------------------------------ polynomials
def poly(t, memo=None):
    """Normal form: dict monomial(tuple of (atom id, power)) -> Fraction ; None if huge."""
    memo = {} if memo is None else memo
    i = t.get_id()
    if i in memo:
        return memo[i]
    r = _poly(t, memo)
    memo[i] = r
    return r


_ATOMS = {}


def _atom(t):
    _ATOMS[t.get_id()] = t
    return {((t.get_id(), 1),): Fraction(1)}


def _padd(a, b, c=1):
    r = dict(a)
    for m, v in b.items():
        x = r.get(m, 0) + c * v
        if x:
            r[m] = x
        else:
            r.pop(m, None)
    return r


def _pmul(a, b):
    if len(a) * len(b) > 4000:
        raise OverflowError
    r = {}
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            d = dict(m1)
            for x, p in m2:
                d[x] = d.get(x, 0) + p
            m = tuple(sorted((x, p) for x, p in d.items() if p))
            v = r.get(m, 0) + v1 * v2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def _canon(t, memo):
    """Canonical representative of a non-polynomial atom (arguments normalised)."""
    return t


def _poly(t, memo):
    if z3.is_rational_value(t):
        v = t.as_fraction()
        return {(): v} if v else {}
    if z3.is_int_value(t):
        v = Fraction(t.as_long())
        return {(): v} if v else {}
    if z3.is_add(t):
        r = {}
        for c in t.children():
            r = _padd(r, poly(c, memo))
        return r
    if z3.is_sub(t):
        ch = t.children()
        r = poly(ch[0], memo)
        for c in ch[1:]:
            r = _padd(r, poly(c, memo), -1)
        return r
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return _padd({}, poly(t.arg(0), memo), -1)
    if z3.is_mul(t):
        r = {(): Fraction(1)}
        for c in t.children():
            r = _pmul(r, poly(c, memo))
        return r
    if z3.is_div(t):
        den = poly(t.arg(1), memo)
        if len(den) == 1:
            (m, v), = den.items()
            inv = {tuple((x, -p) for x, p in m): 1 / v}
            return _pmul(poly(t.arg(0), memo), inv)
        return _pmul(poly(t.arg(0), memo), {((_den_atom(den), -1),): Fraction(1)})
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        a = t.arg(0)
        if z3.is_add(a) or z3.is_mul(a) or z3.is_sub(a) or z3.is_int_value(a):
            return poly(a, memo)
        return poly(a, memo)
    if z3.is_app_of(t, z3.Z3_OP_POWER) and z3.is_int_value(t.arg(1)):
        n = t.arg(1).as_long()
        if 0 <= n <= 4:
            r = {(): Fraction(1)}
            b = poly(t.arg(0), memo)
            for _ in range(n):
                r = _pmul(r, b)
            return r
    if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        # normalise arguments
        key = [t.decl().get_id()]
        for a in t.children():
            if z3.is_arith(a):
                key.append(tuple(sorted((m, v) for m, v in poly(a, memo).items())))
            else:
                key.append(a.get_id())
        key = tuple(key)
        k = _APPS.setdefault(key, len(_APPS))
        _KEEP.append(t)
        return {((("app", k), 1),): Fraction(1)}
    _KEEP.append(t)
    return {((("t", t.get_id()), 1),): Fraction(1)}


_APPS, _DENS, _KEEP = {}, {}, []


def _den_atom(den):
    key = tuple(sorted(((m, v) for m, v in den.items()), key=repr))
    k = _DENS.setdefault(key, len(_DENS))
    return ("den", k)


def poly_true(goal):
    if not z3.is_eq(goal) or z3.is_bool(goal.arg(0)):
        return False
    try:
        memo = {}
        return not _padd(poly(goal.arg(0), memo), poly(goal.arg(1), memo), -1)
    except (OverflowError, TypeError, RecursionError):
        return False


# ------------------------------------------------------------------ cvc5
def cvc5_check(facts, goal, timeout_s):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for a in axioms_for(list(facts) + [goal]):
        s.add(a)
    s.add(z3.Not(goal))
    return cvc5_solver(s, timeout_s)


def cvc5_solver(s, timeout_s):
    try:
        import cvc5
    except Exception:
        return "unknown"
    try:
        txt = "(set-logic ALL)\n" + s.to_smt2()
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(int(timeout_s * 1000)))
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = p.getSymbolManager()
        res = "unknown"
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(slv, sm)).strip()
            if out in ("unsat", "sat", "unknown"):
                res = out
        return res
    except Exception:
        return "unknown"


# -- one normal form for statements about one integer term and integer constants
def _ivs_not(ivs):
    out, lo = [], None
    first = True
    for a, b in ivs:
        if first:
            if a is not None:
                out.append((None, a - 1))
            first = False
        else:
            out.append((lo, a - 1))
        if b is None:
            return out
        lo = b + 1
    return [(None, None)] if first else out + [(lo, None)]


def _ivs_or(p, q):
    key = lambda iv: (iv[0] is not None, iv[0] if iv[0] is not None else 0)
    out = []
    for a, b in sorted(list(p) + list(q), key=key):
        if out and (out[-1][1] is None or a is None or a <= out[-1][1] + 1):
            l, h = out[-1]
            out[-1] = (l, None if h is None or b is None else max(h, b))
        else:
            out.append((a, b))
    return out


def _ivs_and(p, q):
    return _ivs_not(_ivs_or(_ivs_not(p), _ivs_not(q)))


def _int_atom(t):
    """(x, intervals) for a comparison of an integer term with an integer constant."""
    if not z3.is_app(t) or t.num_args() != 2:
        return None
    a, b = t.children()
    flip = False
    if z3.is_int_value(a) or z3.is_rational_value(a):
        a, b, flip = b, a, True
    if z3.is_rational_value(b) and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_TO_REAL and b.denominator_as_long() == 1:
        a, v = a.arg(0), b.numerator_as_long()
    elif z3.is_int_value(b) and z3.is_int(a):
        v = b.as_long()
    else:
        return None
    k = t.decl().kind()
    if flip:
        k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT, z3.Z3_OP_GT: z3.Z3_OP_LT}.get(k, k)
    ivs = {z3.Z3_OP_LE: [(None, v)], z3.Z3_OP_GE: [(v, None)], z3.Z3_OP_LT: [(None, v - 1)], z3.Z3_OP_GT: [(v + 1, None)],
           z3.Z3_OP_EQ: [(v, v)], z3.Z3_OP_DISTINCT: [(None, v - 1), (v + 1, None)]}.get(k)
    return None if ivs is None else (a, ivs)


def _ivs_term(x, ivs):
    if not ivs:
        return z3.BoolVal(False)
    out = []
    for a, b in ivs:
        if a is None and b is None:
            return z3.BoolVal(True)
        if a is None:
            out.append(x <= b)
        elif b is None:
            out.append(x >= a)
        elif a == b:
            out.append(x == a)
        else:
            out.append(z3.And(x >= a, x <= b))
    return out[0] if len(out) == 1 else z3.Or(*out)


def canon(t):
    """An equivalent term in which Boolean combinations of comparisons of one integer
    term with constants have one form (a union of intervals)."""
    memo, sets, keep = {}, {}, []

    def put(i, r, s=None):
        keep.append(r)
        memo[i] = r
        if s is not None:
            sets[i] = s
        return r

    def go(t):
        i = t.get_id()
        if i in memo:
            return memo[i]
        keep.append(t)
        if not z3.is_app(t) or t.num_args() == 0:
            return put(i, t)
        ch = [go(c) for c in t.children()]
        r = t.decl()(*ch) if not all(x.eq(y) for x, y in zip(ch, t.children())) else t
        if not z3.is_bool(t):
            return put(i, r)
        at = _int_atom(r)
        if at is not None:
            return put(i, _ivs_term(*at), at)
        if z3.is_not(t):
            s = sets.get(t.arg(0).get_id())
            if s is not None:
                s = (s[0], _ivs_not(s[1]))
                return put(i, _ivs_term(*s), s)
            return put(i, r)
        if z3.is_and(t) or z3.is_or(t):
            op = _ivs_and if z3.is_and(t) else _ivs_or
            by, rest = {}, []
            for c, d in zip(t.children(), ch):
                s = sets.get(c.get_id())
                if s is None:
                    rest.append(d)
                else:
                    k = s[0].get_id()
                    by[k] = s if k not in by else (s[0], op(by[k][1], s[1]))
            parts = [_ivs_term(*by[k]) for k in sorted(by)] + sorted(rest, key=lambda c: c.get_id())
            if len(by) == 1 and not rest:
                return put(i, parts[0], next(iter(by.values())))
            return put(i, (z3.And if z3.is_and(t) else z3.Or)(*parts))
        return put(i, r)

    return go(t)
