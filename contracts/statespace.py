"""State space: enumeration and index, successors."""
from engine.base import Unit, register

from .exog import cov_fields, cov_spec, rule_spec
from .shared import AGE, EDUC, LAG, PARTNER, PERIOD, TYPE

SS = "soepy.solve.create_state_space"


def rank(o, d, p, e, t, m, q):
    """Position of a block of three states (one per lagged choice) in the enumeration."""
    r = o.flat(p, e, d.E)
    r = o.flat(r, t, d.NT)
    r = o.flat(r, m, 2)
    return o.flat(r, q, d.K)


def lex(o, a, b):
    """a comes strictly before b."""
    r = a[-1] < b[-1]
    for x, y in reversed(list(zip(a[:-1], b[:-1]))):
        r = o.or_(x < y, o.and_(o.same(x, y, 0), r))
    return r


def slot(o, d, a):
    """Loop position of a child-age slot of the index (the last slot means no child)."""
    return o.where(o.same(a, d.K - 1, 0), o.int(0), o.int(a + 1))


class Enumeration:
    """Closed form of the loop state of create_discrete_state_space."""

    def __init__(self, level):
        self.level = level

    def state(self, lc, k):
        from engine.arr import Arr, unravel_index
        from engine.loops import SymSeq
        from engine.sym import S, Unsupported, lift

        o, d = lc.o, lc.inp.d
        if len(lc.outer) != min(self.level, 3):
            raise Unsupported("loop nest differs")
        if lc.nth != 0 and self.level < 4 or lc.nth > 1:
            raise Unsupported("loop nest differs")
        pos = list(lc.outer) + ([lc.nth] if self.level == 4 else []) + [k]
        pos = pos + [0] * (5 - len(pos))
        now = rank(o, d, *pos)
        ix = lc.find(lambda v: isinstance(v, Arr) and v.ndim == 6, "index array")
        ct = lc.find(lambda v: isinstance(v, int) and not isinstance(v, bool) or isinstance(v, S), "counter")
        bl = lc.find(lambda v: isinstance(v, (list, SymSeq)), "list of blocks")

        def cell(c):
            p, e, l, t, a, m = c
            q = slot(o, d, a)
            set_, number = lift(lex(o, (p, e, t, m, q), pos)), o.flat(rank(o, d, p, e, t, m, q), l, 3)
            if set_.conc and set_.v or not set_.conc and lc.C.entails(set_.term()):
                return number
            return o.where(set_, number, o.int(-99))

        def block(r):
            p, e, t, m, q = unravel_index(r, [None, d.E, d.NT, 2, d.K])
            return Arr((3, 6), lambda i: lift(o.pick([o.int(v) for v in (p, e, i[0], t, lift(q) - 1, m)], i[1])), "i")

        class Blocks(SymSeq):
            def points(s, o):
                for p, e, t, m, q in o.forall(d.T, d.E, d.NT, 2, d.K):
                    yield rank(o, d, p, e, t, m, q), lex(o, (p, e, t, m, q), pos)

        return {
            ix: Arr((d.T, d.E, 3, d.NT, d.K, 2), cell, "i"),
            ct: 3 * now,
            bl: Blocks(now, block, (3, 6)),
        }


@register
class StateSpace(Unit):
    name = "states.enumeration"
    target = stub_target = f"{SS}.create_discrete_state_space"
    loops = {("create_discrete_state_space", i): Enumeration(i) for i in (0, 1, 2, 4)}
    n_random = 12

    def make(self, g, case):
        T, E, NT = g.dim("num_periods", conc=(1, 5)), g.dim("num_educ_levels", conc=(1, 3)), g.dim("num_types", conc=(1, 4))
        A = g.int("child_age_max", lo=0, conc=(0, 7))
        d = g.ns(T=T, E=E, NT=NT, K=A + 2)
        ms = g.ns(num_periods=T, num_educ_levels=E, num_types=NT, child_age_max=A)
        return g.ns(d=d, args=dict(model_spec=ms))

    def post(self, o, inp, res, case):
        d = inp.d
        states, ix = res
        per = d.E * 3 * d.NT * d.K * 2  # states of one period
        o.shape_eq("as many states as combinations", states, (d.T * per, 6))
        o.shape_eq("one lookup entry per combination", ix, (d.T, d.E, 3, d.NT, d.K, 2))
        for p, e, l, t, a, m in o.forall(d.T, d.E, 3, d.NT, d.K, 2):
            R = o.at(ix, p, e, l, t, a, m)
            o.check("the lookup entry is set and is a state's number", o.and_(R >= 0, R < d.T * per))
            want = (p, e, l, t, o.where(o.same(a, d.K - 1, 0), o.int(-1), o.int(a)), m)
            for c in range(6):
                o.eq("looking a combination up returns the number of exactly that state", o.at(states, R, c), want[c])
            o.check("states of one period are contiguous, every period has the same number of states",
                    o.and_(R >= p * per, R < (p + 1) * per))

    def stub(self, o, a):
        from types import SimpleNamespace

        from engine.contract import G

        ms = a["model_spec"]
        d = SimpleNamespace(T=ms.num_periods, E=ms.num_educ_levels, NT=ms.num_types, K=ms.child_age_max + 2)
        return abstract_space(G(o.C), d)[1:]


COLS = ("st_period", "st_educ", "st_lag", "st_type", "st_age", "st_partner")


def abstract_space(g, d):
    """Any state table and index satisfying the contract of the enumeration.

    -> (number of states, states, index)"""
    per = d.E * 3 * d.NT * d.K * 2
    n = d.T * per
    shape = (d.T, d.E, 3, d.NT, d.K, 2)
    if not g.symbolic:
        return (n,) + concrete_space(g, d)
    import z3

    from engine.sym import S, lift

    I = z3.IntSort()
    fi = z3.Function("indexer", *[I] * 7)
    fc = [z3.Function(c, I, I) for c in COLS]
    hi = [d.T, d.E, 3, d.NT, None, 2]

    def inverse(o, v, i):
        """the index entry of a state's own combination is the state's number"""
        t = lift(i[0]).term()
        a = [S(f(t), "i") for f in fc]
        age = o.where(a[4] < 0, d.K - 1, a[4])
        number = S(fi(a[0].term(), a[1].term(), a[2].term(), a[3].term(), lift(age).term(), a[5].term()), "i")
        ranges = [o.and_(x >= 0, x < h) for x, h in zip(a, hi) if h is not None] + [a[4] >= -1, a[4] < d.K - 1]
        period = o.and_(o.le(a[0] * per, i[0]), i[0] < (a[0] + 1) * per)
        return o.implies(o.and_(i[0] >= 0, i[0] < n), o.and_(o.same(number, S(t, "i"), 0), period, *ranges))

    def row(o, v, i):
        a = [S(f(v.term()), "i") for f in fc]
        want = list(i)
        want[4] = o.where(o.same(i[4], d.K - 1, 0), o.int(-1), o.int(i[4]))
        comb = (0, 1, 2, 3, 4, 5)
        rng = [o.and_(lift(x) >= 0, lift(x) < h) for x, h in zip(i, shape)]
        return o.implies(o.and_(*rng), o.and_(v >= 0, v < n, *[o.same(a[c], want[c], 0) for c in comb]))

    cols = [g.arr(c, (n,), k="i", fact=inverse) for c in COLS]
    states = g.define("states", (n, 6), lambda o, i, c: o.pick([o.at(x, i) for x in cols], c), k="i")
    return n, states, g.arr("indexer", shape, k="i", fact=row)


def concrete_space(g, d):
    import itertools

    import numpy as np

    rng = np.random.default_rng(g.int("layout", lo=0, hi=10**6))
    rows, off = [], 0
    for p in range(d.T):
        blk = [(p,) + c for c in itertools.product(range(d.E), range(3), range(d.NT), range(-1, d.K - 1), range(2))]
        rng.shuffle(blk)
        rows += blk
    states = np.array(rows, dtype=np.int64)
    ix = np.full((d.T, d.E, 3, d.NT, d.K, 2), -99)
    for i, (p, e, l, t, a, m) in enumerate(rows):
        ix[p, e, l, t, a, m] = i
    return states, ix


def successors(o, d, n, states, child, rule, choices=range(3), births=range(2)):
    for (i,) in o.forall(n):
        p, e, t = (o.at(states, i, c) for c in (PERIOD, EDUC, TYPE))
        for c in choices:
            for b in births:
                for m in range(2):
                    R = o.at(child, i, c, b, m)
                    parent = p < d.T - 1
                    o.check("a state before the last period has a successor for every choice and branch",
                            o.implies(parent, o.and_(R >= 0, R < n)))
                    o.check("a state of the last period has no successors", o.implies(o.not_(parent), R < 0))
                    age = o.int(0) if b else rule(i)
                    want = {PERIOD: p + 1, EDUC: e, LAG: c, TYPE: t, AGE: age, PARTNER: m}
                    for k, v in want.items():
                        if o.symbolic or bool(parent):
                            have = o.at(states, R, k)
                            o.eq("the successor is next period's state: same education and type, choice as lagged choice, "
                                 "given partner, newborn or aged child", o.where(parent, have, v), v)


@register
class ChildIndexes(Unit):
    name = "states.successors"
    target = stub_target = f"{SS}.create_child_indexes"
    n_random = 8
    # the six choice/birth blocks of the table, proved side by side
    cases = [dict(choice=c, birth=b) for c in range(3) for b in range(2)]
    conc_cases = [{}]
    cost = 5

    def make(self, g, case):
        T, E, NT = g.dim("num_periods", conc=(1, 4)), g.dim("num_educ_levels", conc=(1, 3)), g.dim("num_types", conc=(1, 2))
        A = g.int("child_age_max", lo=0, conc=(0, 4))
        d = g.ns(T=T, E=E, NT=NT, K=A + 2)
        n, states, ix = abstract_space(g, d)
        rule = g.arr("child_age_update_rule", (n,), k="i", lo=-1, hi=A if not g.symbolic else None,
                     fact=lambda o, v, i: v <= A)
        ms = g.ns(num_periods=T, num_educ_levels=E, num_types=NT, child_age_max=A)
        return g.ns(d=d, n=n, states=states, rule=rule,
                    args=dict(states=states, indexer=ix, model_spec=ms, child_age_update_rule=rule))

    def post(self, o, inp, res, case):
        o.shape_eq("one successor per state, choice, birth and partner", res, (inp.n, 3, 2, 2))
        only = dict(choices=[case["choice"]], births=[case["birth"]]) if case else {}
        successors(o, inp.d, inp.n, inp.states, res, lambda i: o.at(inp.rule, i), **only)


@register
class Objects(Unit):
    """The solver's state objects: table, index, covariates, ageing rule and successors together."""

    name = "states.objects"
    target = stub_target = f"{SS}.create_state_space_objects"
    uses = ("states.enumeration", "states.covariates", "states.age_rule")
    n_random = 8
    cases = [dict(choice=c, birth=b) for c in range(3) for b in range(2)]
    conc_cases = [{}]
    cost = 5

    def make(self, g, case):
        T, E, NT = g.dim("num_periods", conc=(1, 5)), g.dim("num_educ_levels", conc=(1, 3)), g.dim("num_types", conc=(1, 3))
        A = g.int("child_age_max", lo=0, conc=lambda r: int(r.choice([0, 1, 2, 5, 10, 11, 12])))
        d = g.ns(T=T, E=E, NT=NT, K=A + 2)
        ms = g.ns(num_periods=T, num_educ_levels=E, num_types=NT, child_age_max=A, **cov_fields(g))
        return g.ns(d=d, A=A, ms=ms, args=dict(model_spec=ms))

    def post(self, o, inp, res, case):
        d = inp.d
        states, ix, cov, rule, child = res
        n = d.T * (d.E * 3 * d.NT * d.K * 2)
        o.shape_eq("one row per state", states, (n, 6))
        o.shape_eq("covariates of every state", cov, (n, 4))
        o.shape_eq("one ageing entry per state", rule, (n,))
        o.shape_eq("one successor per state, choice, birth and partner", child, (n, 3, 2, 2))
        for (i,) in o.forall(n):
            for c in range(4):
                o.eq("covariates are those of the state itself", o.at(cov, i, c), cov_spec(o, inp.ms, states, i, c))
            o.eq("the ageing entry is that of the state itself", o.at(rule, i), rule_spec(o, o.at(states, i, AGE), inp.A))
        only = dict(choices=[case["choice"]], births=[case["birth"]]) if case else {}
        successors(o, d, n, states, child, lambda i: rule_spec(o, o.at(states, i, AGE), inp.A), **only)
