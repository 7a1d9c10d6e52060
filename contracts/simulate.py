"""Simulation: helpers, one period of every agent's life, entry, initial conditions, assembly."""
from engine.base import Unit, register

from .shared import AGE, EDUC, LAG, PARTNER, PERIOD, TYPE
from .solve import hours_input
from .tax import net_spec
from .shared import sched_inputs

SA = "soepy.simulate.simulate_auxiliary"
SI = "soepy.simulate.income_sim"
SN = "soepy.simulate.initial_states"


@register
class SimInterp(Unit):
    name = "sim.interp"
    target = stub_target = f"{SA}._interp_exp_grid"
    n_random = 12

    def make(self, g, case):
        m, ng = g.dim("n_agents", conc=(1, 5)), g.dim("n_grid", lo=2, conc=(2, 6))
        grid = g.grid("exp_grid", ng, lib="np", lo=0, hi=1)
        v = g.arr("values", (m, 3, ng), conc=lambda r, s: r.normal(size=s))
        x = g.arr("stock", (m, 1), conc=lambda r, s: r.choice([0.0, 1.0, 0.5, -0.2, 1.3], s) * (r.random(s) < 0.4) + r.random(s) * (r.random(s) < 0.7))
        return g.ns(m=m, grid=grid, v=v, x=x, args=dict(values=v, stock=x, exp_grid=grid))

    def post(self, o, inp, res, case):
        o.shape_eq("one value per agent and choice", res, (inp.m, 3))
        for (i,) in o.forall(inp.m):
            for c in range(3):
                x = o.min(o.max(o.at(inp.x, i, 0), o.num("0.0")), o.num("1.0"))
                want = o.interp(inp.grid, lambda j: o.at(inp.v, i, c, j), x)
                o.eq("piecewise linear in the stock (clipped to the unit interval) between the grid's own nodes", o.at(res, i, c), want)

    def stub(self, o, a):
        grid, v, x = o.arr_of(a["exp_grid"]), a["values"], a["stock"]

        def cell(i, c):
            p = o.min(o.max(o.at(x, i, 0), o.num("0.0")), o.num("1.0"))
            return o.interp(grid, lambda j: o.at(v, i, c, j), p)

        return o.array(o.shape(v)[:2], cell, lib="np")

    def requires(self, o, a):
        x = o.shape(a["stock"])
        yield "one stock per agent", len(x) == 2 and (o.int(x[1]) == 1)


def care_spec(o, costs, b, j):
    """Child care cost of working j (1 part-time, 2 full-time) with child group b."""
    c1, c2 = o.at(costs, 1, j - 1), o.at(costs, 2, j - 1)
    return o.opaque("care", [b, c1, c2], lambda: o.where(o.same(b, 1, 0), c1, o.where(o.same(b, 2, 0), c2, o.num("0.0"))))


@register
class ChildCare(Unit):
    name = "sim.child_care"
    target = stub_target = f"{SA}.get_child_care_cost_for_choice"
    n_random = 8

    def make(self, g, case):
        m = g.dim("n_agents", conc=(1, 6))
        b = g.arr("bin", (m,), k="i", lo=0, hi=4)
        fb = g.define("child_bins", (m,), lambda o, i: o.real(o.at(b, i)))
        costs = g.arr("child_care_costs", (3, 2), lo=0, lib="jnp", conc=lambda r, s: r.random(s) * 80)
        return g.ns(m=m, b=b, fb=fb, costs=costs, args=dict(child_bins=fb, child_care_costs=costs))

    def post(self, o, inp, res, case):
        o.shape_eq("one cost per agent and kind of work", res, (inp.m, 2))
        for (i,) in o.forall(inp.m):
            for j in (1, 2):
                o.eq("child care costs by child age group and hours, none without a child below six",
                     o.at(res, i, j - 1), care_spec(o, inp.costs, o.at(inp.b, i), j))
            o.eq("the agents' child groups are left alone", o.at(inp.fb, i), o.real(o.at(inp.b, i)))

    def requires(self, o, a):
        for (i,) in o.forall(o.shape(a["child_bins"])[0]):
            b = o.at(a["child_bins"], i)
            yield "child group", o.or_(*[o.same(b, k, 0) for k in range(5)])

    def stub(self, o, a):
        return o.array((o.shape(a["child_bins"])[0], 2), lambda i, j: o.pick(
            [care_spec(o, a["child_care_costs"], o.at(a["child_bins"], i), k) for k in (1, 2)], j), lib="np")


@register
class Employment(Unit):
    name = "sim.employment"
    target = stub_target = f"{SI}.calculate_employment_consumption_resources"
    uses = ("tax.net_jax",)
    opaque = ("net0", "net1")
    cases = [{"splitting": True}, {"splitting": False}]
    n_random = 8

    def make(self, g, case):
        m = g.dim("n_agents", conc=(1, 5))
        tp, d = sched_inputs(g, "np")
        f = g.arr("female_income", (m, 2), lo=0, conc=lambda r, s: r.random(s) * 1500)
        male = g.arr("male_wage", (m,), lo=0, conc=lambda r, s: r.random(s) * 1500 * (r.random(s) < 0.6))
        ms = g.ns(ssc_deductions=d, tax_params=tp)
        return g.ns(m=m, tp=tp, d=d, f=f, male=male, args=dict(
            model_spec=ms, current_female_income=f, male_wage=male, tax_splitting=case["splitting"]))

    def post(self, o, inp, res, case):
        o.shape_eq("one amount per agent and kind of work", res, (inp.m, 2))
        for (i,) in o.forall(inp.m):
            for j in (0, 1):
                o.eq("net household income at that labour income", o.at(res, i, j),
                     net_spec(o, inp.tp, inp.d, o.at(inp.f, i, j), o.at(inp.male, i), case["splitting"]))

    def requires(self, o, a):
        tp = a["model_spec"].tax_params
        for i in range(3):
            yield f"bracket {i} precedes bracket {i + 1}", o.at(tp, 0, i) < o.at(tp, 0, i + 1)

    def stub(self, o, a):
        from engine.load import StubMismatch

        if not isinstance(a["tax_splitting"], bool):
            raise StubMismatch("splitting not concrete")
        ms = a["model_spec"]
        return o.array(o.shape(a["current_female_income"]), lambda i, j: net_spec(
            o, ms.tax_params, ms.ssc_deductions, o.at(a["current_female_income"], i, j), o.at(a["male_wage"], i),
            a["tax_splitting"]), lib="np")


# ------------------------------------------------------------------ one period of every agent's life
COLS = ("Identifier", "Period", "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time",
        "Experience_Stock", "Type", "Age_Youngest_Child", "Partner_Indicator")
FIXED = ("Education_Level", "Type")


def below(p, k):
    """Mask of the agents that have entered before period k."""
    from engine.arr import Arr
    from engine.sym import lift

    return Arr((p.N,), lambda i: p.ini["Period"].get(*i) < lift(k), "b")


def entering(p, k):
    from engine.arr import Arr
    from engine.sym import lift

    return Arr((p.N,), lambda i: p.ini["Period"].get(*i) == lift(k), "b")


def entered(p, k):
    from engine.reduce import mask_info

    return mask_info(below(p, k)).count_s()


def count_lemma(C, p, k):
    """#{entry < k+1} = #{entry < k} + #{entry = k} (counting a disjoint union; trusted)."""
    from engine.reduce import mask_info, mask_sel
    from engine.sym import lift

    C.notes.add("counting a disjoint union of two selections adds (lemmas/Engine.lean: cnt_disjoint)")
    now, new, then = entered(p, k), mask_info(entering(p, k)).count_s(), entered(p, lift(k) + 1)
    C.assume(then == now + new)
    p.ini["Period"].get(mask_sel(entering(p, k)).get(0))  # a selection with an element has a first one
    return now, new, then


def row_spec(o, p, k, at):
    """What holds of a row alive in period k (at: column -> value): list of conditions."""
    a = at("Identifier")
    r = [o.and_(a >= 0, a < p.N), o.same(at("Period"), k, 0)]
    r.append(o.le(o.at(p.ini["Period"], a), k))
    r += [o.same(at(c), o.at(p.ini[c], a), 0) for c in FIXED]
    r.append(o.and_(at("Lagged_Choice") >= 0, at("Lagged_Choice") <= 2))
    r.append(o.and_(at("Age_Youngest_Child") >= -1, at("Age_Youngest_Child") <= p.A))
    r.append(o.and_(at("Partner_Indicator") >= 0, at("Partner_Indicator") <= 1))
    r.append(at("Experience_Stock") >= 0)
    return r


ROW = "a row describes one agent in this period: own identifier, education and type; admissible state"


class Rows:
    """An arbitrary table of m rows satisfying row_spec(k) with every entered agent in exactly one row."""

    def __init__(self, o, p, k, tag, upto):
        """upto(k): agents with entry < upto are present."""
        import z3

        from engine.arr import Arr, nidx
        from engine.sym import S, lift

        C = o.C
        I, R = z3.IntSort(), z3.RealSort()
        self.o, self.p, self.k, self.C = o, p, k, C
        self.m = nidx(entered(p, upto))
        n = C.new_id()
        self.f = {c: z3.Function(f"row_{c}!{tag}{n}", I, R if c == "Experience_Stock" else I) for c in COLS}
        self.rho = z3.Function(f"rho!{tag}{n}", I, I)

        def reader(c):
            def fn(idx):
                j = lift(idx[0])
                t = self.f[c](j.term())
                if C.once(("row", n, j.term().get_id())):
                    C.keepalive(j.term())
                    at = lambda c: S(self.f[c](j.term()), "r" if c == "Experience_Stock" else "i")
                    inr = o.and_(j >= 0, j < lift(self.m))
                    a = at("Identifier")
                    for fact in (*row_spec(o, p, k, at), o.at(p.ini["Period"], a) < upto, o.same(S(self.rho(a.term()), "i"), j, 0)):
                        C.assume(o.implies(inr, fact))
                    C.see(p.N, a)
                return S(t, "r" if c == "Experience_Stock" else "i")

            return fn

        self.cols = {c: Arr((self.m,), reader(c), "r" if c == "Experience_Stock" else "i") for c in COLS}
        self.upto = upto

    def row_of(self, a):
        """The row of an agent that has entered."""
        from engine.sym import S, lift

        o, a = self.o, lift(a)
        t = S(self.rho(a.term()), "i")
        if self.C.once(("rho", self.rho.name(), a.term().get_id())):
            self.C.keepalive(a.term())
            here = o.and_(a >= 0, a < self.p.N, o.at(self.p.ini["Period"], a) < self.upto)
            self.C.assume(o.implies(here, o.and_(t >= 0, t < self.m, o.same(self.cols["Identifier"].get(t), a, 0))))
        return t


class Frames:
    """The list of period tables (append only); earlier ones have already been checked."""

    def __init__(self, lc, n):
        self.lc, self.n, self.added = lc, n, []

    def append(self, df):
        self.added.append(df)
        if len(self.added) == 1:
            self.lc.spec.recorded(self.lc, df)


class SimLoop:
    """Invariant of the period loop."""

    def havoc(self, lc, k):
        from engine.shadow import DataFrame

        p, o = lc.inp.p, lc.o
        cur = lc.find(lambda v: isinstance(v, DataFrame), "table of living agents")
        lst = lc.find(lambda v: isinstance(v, list), "list of period tables")
        lc.cur, lc.lst = cur, lst
        df = DataFrame()
        rows = lc.rows = Rows(o, p, k, "h", k)
        lc.now, lc.new, lc.then = count_lemma(o.C, p, k)
        df.cols = dict(rows.cols)
        phase, last = lc.inp.case.get("phase"), p.ms.last_child_bearing_period
        if phase:  # cases of one proof; together they are exhaustive
            t = k < p.T - 1
            o.C.assume({"final": o.not_(t), "fertile": o.and_(t, k <= last), "later": o.and_(t, k > last)}[phase])
        return {cur: df, lst: Frames(lc, k)}

    def check(self, lc, k, vals, when):
        from engine.shadow import DataFrame
        from engine.sym import Unsupported

        o, p = lc.o, lc.inp.p
        if when == "entry":
            cur = lc.find(lambda v: isinstance(v, DataFrame), "table of living agents")
            lst = lc.find(lambda v: isinstance(v, list), "list of period tables")
            with kind(o, "invariant"):
                o.check("nobody lives before the first period", o.same(vals[cur].n, entered(p, 0), 0))
                o.check("nothing is recorded before the first period", len(vals[lst]) == 0)
                o.check("the table of living agents has the initial table's columns", set(vals[cur].cols) == set(COLS))
            return
        fr = vals[lc.lst]
        if not isinstance(fr, Frames):
            raise Unsupported("list of period tables replaced")
        o.check("exactly one table is recorded per period", len(fr.added) == 1)
        self.after(lc, k, fr.added[0], vals[lc.cur])

    # -- at the moment the period's table is recorded
    def recorded(self, lc, df):
        from engine.sym import PathEnd

        case = lc.inp.case
        if case["what"] == "entry":
            record_entry(lc, df)
            raise PathEnd()
        if case["what"] in ("values", "sparse"):
            record_values(lc, df)
            raise PathEnd()

    # -- after one execution of the body
    def after(self, lc, k1, df, cur):
        o, p = lc.o, lc.inp.p
        k = lc.k
        motion(lc, k, df, cur)


class kind:
    """Obligations generated inside are of the given kind."""

    def __init__(self, o, k):
        self.o, self.k = o, k

    def __enter__(self):
        self.n = len(self.o.C.obligations)

    def __exit__(self, *a):
        for ob in self.o.C.obligations[self.n:] if self.k != "post" else ():
            ob.kind = self.k


def both_parts(o, lc, df):
    """An arbitrary row: one of the agents alive before (part 0) or one of this period's entrants (part 1)."""
    from engine.sym import lift

    if lc.inp.case["part"] == 0:
        for (j,) in o.forall(lc.rows.m):
            o.C.see(df.n, j)
            yield j, None
    if lc.inp.case["part"] == 1:
        for (e,) in o.forall(lc.new):
            j = lift(lc.rows.m) + e
            o.C.see(df.n, j)
            yield j, e


def record_entry(lc, df):
    from engine.reduce import mask_rank, mask_sel
    from engine.sym import lift

    o, p, k, rows = lc.o, lc.inp.p, lc.k, lc.rows
    o.check("every agent who has entered by now, and nobody else, is recorded", o.same(df.n, lc.then, 0))
    col = lambda c, j: df.cols[c].get(j)
    for j, e in both_parts(o, lc, df):
        at = lambda c: col(c, j)
        if e is None:
            for c in COLS:
                o.eq("agents already alive are recorded in the state they are in", at(c), rows.cols[c].get(j))
            for c in row_spec(o, p, k, at):
                o.check(ROW, c)
        else:
            a = mask_sel(entering(p, k)).get(e)
            for c in COLS:
                o.eq("entrants are recorded in the state they were drawn in", at(c), o.at(p.ini[c], a))
            for c in row_spec(o, p, k, at):
                o.check(ROW, c)
    for (a,) in o.forall(p.N) if lc.inp.case["part"] == 2 else ():
        ent = o.at(p.ini["Period"], a)
        mine = o.where(ent < k, rows.row_of(a), lift(rows.m) + mask_rank(entering(p, k), a))
        o.check("an agent who has entered has a row", o.implies(ent <= k, o.and_(mine >= 0, mine < df.n)))
        o.check("the row of an agent who has entered carries the agent's identifier",
                o.implies(ent <= k, o.same(col("Identifier", mine), a, 0)))
    for j, e in both_parts(o, lc, df):
        a = col("Identifier", j)
        ent = o.at(p.ini["Period"], a)
        mine = o.where(ent < k, rows.row_of(a), lift(rows.m) + mask_rank(entering(p, k), a))
        o.check("no agent has two rows in a period", o.same(mine, j, 0))


def flow_spec(o, ms, mu, case, ag, lg, married, lw, wage, b, male, eq, cb, ncu):
    """Flow utilities of the three alternatives in a simulated agent's state."""
    from .shared import benefit_spec, claim_spec

    hours = o.array((3,), lambda i: o.pick([o.int(0), o.int(18), o.int(38)], i), k="i")
    rest = net_spec(o, ms.tax_params, ms.ssc_deductions, o.num("0.0"), male, case["splitting"]) + benefit_spec(
        o, ms, hours, case["regime"], ag, lg, married, lw + o.log(ms.elasticity_scale), male, cb)
    cons = [o.max(rest, o.eps) / eq]
    for j in (1, 2):
        inc = o.at(hours, j) * wage
        y = net_spec(o, ms.tax_params, ms.ssc_deductions, inc, male, case["splitting"])
        if case["regime"] == "erziehungsgeld" and j == 1:
            y = y + claim_spec(o, inc + male, married, o.or_(o.same(ag, 0, 0), o.same(ag, 1, 0)), o.at(ms.erziehungsgeld_income_threshold_single),
                               o.at(ms.erziehungsgeld_income_threshold_married), o.at(ms.erziehungsgeld))
        cons.append(o.max(y + cb - care_spec(o, ms.child_care_costs, b, j), o.eps) / eq)
    return [o.pow(cons[c], o.at(mu)) / o.at(mu) * ncu[c] for c in range(3)]


def recorded_values(o, p, k, at, j, case):
    """Contracted quantities of the recorded row j: wage, utilities, continuation values, ..."""
    from types import SimpleNamespace

    from .shared import inc_spec, log_wage_spec

    ms, mp = p.ms, p.mp
    e, lg, ty, ag, pa, x = (at(c) for c in ("Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator",
                                            "Experience_Stock"))
    R = o.at(p.ix, k, e, lg, ty, o.where(o.same(ag, -1, 0), p.d.K - 1, ag), pa)
    b, male, eq, cb = (o.at(v, R) for v in (p.cv.bin, p.cv.male, p.cv.eq, p.cv.cb))
    lw = log_wage_spec(o, mp, e, x, k, ms.init_exp_max, inc_spec(o, mp, e, ag, case["biased"]))
    wage = o.exp(lw + o.at(p.draws, k, j)) * ms.elasticity_scale
    ncu = [o.at(p.ncu, R, c) for c in range(3)]
    xc = o.min(o.max(x, o.num("0.0")), o.num("1.0"))
    flow = flow_spec(o, ms, mp.mu, case, ag, lg, o.same(pa, 1, 0), lw, wage, b, male, eq, cb, ncu)
    cont = [o.interp(p.grid, lambda g, c=c: o.at(p.emaxs, R, g, c), xc) for c in range(3)]
    return SimpleNamespace(wage=wage, male=male, ncu=ncu, flow=flow, cont=cont, state=R)


def record_values(lc, df):
    o, p, k, case = lc.o, lc.inp.p, lc.k, lc.inp.case
    names = "NPF"
    if case["sparse"]:
        want = {*COLS, "Choice", "Wage_Observed"}
    else:
        want = {*COLS, "Choice", "Wage_Observed", "Male_Wages"} | {
            f"{v}_{c}" for v in ("Non_Consumption_Utility", "Flow_Utility", "Continuation_Value", "Value_Function") for c in names}
    o.check("the documented columns are recorded", set(df.cols) == want)
    for j, e in both_parts(o, lc, df):
        at = lambda c: df.cols[c].get(j)
        v = recorded_values(o, p, k, at, j, case)
        o.eq("the recorded wage is the systematic wage times the shock, scaled", at("Wage_Observed"), v.wage)
        ch = at("Choice")
        o.check("the choice is one of the three alternatives", o.and_(ch >= 0, ch <= 2))
        best = lambda vals: [o.implies(o.same(ch, c, 0), o.and_(*[vals[c] > w if i < c else vals[c] >= w for i, w in enumerate(vals)]))
                             for c in range(3)]
        if case["sparse"]:
            vals = [v.flow[c] + o.at(p.mp.delta) * v.cont[c] for c in range(3)]
            for shape, rd in o.C.maximised:
                if len(shape) == 2 and shape[1] == 3:  # cut: the values compared are these
                    cut = [rd((j, c)) for c in range(3)]
                    with kind(o, "invariant"):
                        for c in range(3):
                            o.eq("reduced panel: the alternatives are compared by the values the full panel reports", cut[c], vals[c])
                    vals = cut
                    break
            for x in best(vals):
                o.check("reduced panel: the choice maximises the value the full panel reports, least hours on ties", x)
            continue
        o.eq("partner's wage is that of the agent's state", at("Male_Wages"), v.male)
        for c, nm in enumerate(names):
            o.eq("utility factor is that of the agent's state", at(f"Non_Consumption_Utility_{nm}"), v.ncu[c])
            o.eq("flow utility of consumption in the agent's state at the drawn wage", at(f"Flow_Utility_{nm}"), v.flow[c])
            o.eq("continuation value: the solution's, interpolated at the agent's experience", at(f"Continuation_Value_{nm}"), v.cont[c])
            o.eq("value: flow utility plus discounted continuation value", at(f"Value_Function_{nm}"),
                 at(f"Flow_Utility_{nm}") + o.at(p.mp.delta) * at(f"Continuation_Value_{nm}"))
        for x in best([at(f"Value_Function_{nm}") for nm in names]):
            o.check("the chosen alternative has the highest value, the least hours on ties", x)


def motion(lc, k, df, cur):
    from engine.arr import Arr
    from engine.reduce import mask_rank
    from engine.sym import S, lift

    from .shared import inc_spec, next_spec

    o, p, C, case = lc.o, lc.inp.p, lc.o.C, lc.inp.case
    ms, mp = p.ms, p.mp
    for a, rd in lc.inp.before:
        same_array(o, "inputs are left alone", a, Arr(a.shape, rd, a.k))
    o.check("draws are determined by the generator's state on entry", all(rec["seed"] is not None for rec in C.rng_log))
    o.check("nobody disappears", o.same(cur.n, df.n, 0))
    o.check("the living agents' table keeps its columns", set(cur.cols) == set(COLS))
    k = lift(k)
    for j, e in both_parts(o, lc, df):
        was, now = (lambda c: df.cols[c].get(j)), (lambda c: cur.cols[c].get(j))
        ch = was("Choice")
        for c in ("Identifier", *FIXED):
            o.eq("identifier, education and type never change", now(c), was(c))
        o.eq("one period later", now("Period"), k + 1)
        o.eq("this period's choice becomes the lagged choice", now("Lagged_Choice"), ch)
        one = o.int(1)
        for c, v in (("Part", 1), ("Full", 2)):
            nm = f"Experience_{c}_Time"
            o.eq("years of work are counted by kind of work", now(nm), was(nm) + o.where(o.same(ch, v, 0), one, o.int(0)))
        inc = inc_spec(o, mp, was("Education_Level"), was("Age_Youngest_Child"), case["biased"])
        o.eq("the experience stock follows its law of motion", now("Experience_Stock"),
             next_spec(o, was("Experience_Stock"), k, ms.init_exp_max, inc, ch))
        for c in row_spec(o, p, k + 1, now):
            o.check("after the period: " + ROW, c)
        more = k < p.T - 1
        ed, ag, pa = was("Education_Level"), was("Age_Youngest_Child"), was("Partner_Indicator")
        R = o.at(p.ix, k, ed, was("Lagged_Choice"), was("Type"), o.where(o.same(ag, -1, 0), p.d.K - 1, ag), pa)
        aged = o.at(p.rule, R)
        born = [o.and_(k > ms.last_child_bearing_period, o.same(now("Age_Youngest_Child"), aged, 0))]
        for rec, d, q in drawn(C, df.n, j, None):
            born.append(o.and_(k <= ms.last_child_bearing_period, o.same(q, o.at(p.pc, k + 1, ed)),
                               o.same(now("Age_Youngest_Child"), o.where(o.same(d, 1, 0), o.int(0), aged), 0)))
        with kind(o, "post" if len(born) > 1 else "invariant"):  # no draw recognised: undecided, not refuted
            o.check("a child is born with next period's probability at the agent's education, up to the last child bearing period; "
                    "otherwise the child ages by the rule", o.implies(more, o.or_(*born)))
        for m, to in ((0, 1), (1, 0)):
            mask = Arr((df.n,), lambda i: df.cols["Partner_Indicator"].get(*i) == m, "b")
            alt = []
            for rec, d, q in drawn(C, df.n, j, mask):
                alt.append(o.and_(o.same(q, o.at(p.pp, k, ed, m, to)),
                                  o.same(now("Partner_Indicator"), o.where(o.same(d, 1, 0), o.int(to), o.int(m)), 0)))
            with kind(o, "post" if alt else "invariant"):
                o.check("partners arrive and leave with the transition probabilities of the period, education and current status",
                        o.implies(o.same(pa, m, 0), o.or_(*alt)))


def drawn(C, n, j, mask):
    """Binomial draws of this iteration that concern row j (if selected): (record, outcome, probability)."""
    from engine.arr import Arr, dim_eq
    from engine.reduce import mask_info, mask_rank
    from engine.sym import S, lift

    for rec in C.rng_log:
        if rec["kind"] != "binomial" or len(rec["size"]) != 1:
            continue
        size, q, sel = rec["size"][0], rec["p"], S(True, "b")
        if dim_eq(size, n):
            i = j
        elif mask is not None and dim_eq(size, mask_info(mask).count_s()):
            i, sel = mask_rank(mask, j), mask.get(j)
        else:
            continue
        with C.guarded(sel.as_bool().term()):
            yield rec, rec["fn"]((i,)), (q.get(i) if isinstance(q, Arr) and q.ndim else lift(q))


class _Loop(Unit):
    """simulate_agents_over_periods: arbitrary period, arbitrary agent."""

    target = f"{SA}.simulate_agents_over_periods"
    uses = ("sim.interp", "sim.child_care", "sim.employment", "exp.pt_increment", "exp.next_stock", "wages.log_wage",
            "nonemp.resources", "nonemp.erziehungsgeld")
    opaque = ("net0", "net1", "benefit_elterngeld", "benefit_erziehungsgeld", "interp", "care", "erz")
    loops = {("simulate_agents_over_periods", 0): SimLoop()}
    concrete = False
    budget = 150.0
    cost = 20

    def make(self, g, case):
        from engine.shadow import DataFrame

        from .shared import exp_params
        from .solve import covariates_input, tax_model
        from .statespace import abstract_space

        T, N, ng, nt = g.dim("T"), g.dim("n_agents"), g.dim("n_grid", lo=2), g.dim("num_types")
        A = g.int("child_age_max", lo=0)
        d = g.ns(T=T, E=3, NT=nt, K=A + 2)
        n, states, ix = abstract_space(g, d)
        grid = g.grid("exp_grid", ng, lib="np", lo=0, hi=1)
        cv = covariates_input(g, n)
        emaxs = g.arr("emaxs", (n, ng, 4))
        ncu = g.arr("non_consumption_utilities", (n, 3), slo=0)
        rule = g.arr("child_age_update_rule", (n,), k="i", lo=-1, fact=lambda o, v, i: v <= A)
        pc = g.arr("prob_child", (T, 3), lo=0, hi=1)
        pp = g.arr("prob_partner", (T, 3, 2, 2), lo=0, hi=1)
        draws = g.arr("draws_sim", (T, N))
        ey = [g.int(f"educ_years_{i}", lo=0) for i in range(3)]
        ini = {}
        ini["Identifier"] = g.define("Identifier", (N,), lambda o, i: o.int(i), k="i")
        educ = g.arr("initial_educ", (N,), k="i", lo=0, hi=2)
        ini["Period"] = g.define("Period", (N,), lambda o, i: o.pick(ey, o.at(educ, i)), k="i")
        ini["Education_Level"] = educ
        ini["Lagged_Choice"] = g.arr("initial_lag", (N,), k="i", lo=0, hi=2)
        ini["Experience_Part_Time"] = g.arr("initial_pt", (N,), k="i", lo=0)
        ini["Experience_Full_Time"] = g.arr("initial_ft", (N,), k="i", lo=0)
        ini["Experience_Stock"] = g.arr("initial_stock", (N,), lo=0)
        ini["Type"] = g.arr("initial_type", (N,), k="i", lo=0, fact=lambda o, v, i: v < nt)
        ini["Age_Youngest_Child"] = g.arr("initial_age", (N,), k="i", lo=-1, fact=lambda o, v, i: v <= A)
        ini["Partner_Indicator"] = g.arr("initial_partner", (N,), k="i", lo=0, hi=1)
        df = DataFrame()
        df.cols = dict(ini)
        mp = g.ns(**vars(exp_params(g)), delta=g.real("delta", lo=0, hi=1), mu=g.real("mu", shi=0),
                  gamma_0=g.arr("gamma_0", (3,)), gamma_1=g.arr("gamma_1", (3,)))
        ms = tax_model(g, case["regime"], splitting=case["splitting"])
        ms.num_periods, ms.exp_grid, ms.educ_years = T, grid, ey
        ms.init_exp_max = g.real("init_exp_max", lo=0)
        ms.elasticity_scale = g.real("elasticity_scale", slo=0)
        ms.last_child_bearing_period = g.int("last_child_bearing_period", lo=0)
        ms.num_agents_sim = N
        from engine import sym

        sym.CUR.rng = {"seed": g.int("generator_state"), "n": 0}
        p = g.ns(T=T, N=N, A=A, ng=ng, ix=ix, states=states, cv=cv, emaxs=emaxs, ncu=ncu, rule=rule, pc=pc, pp=pp, draws=draws,
                 ini=ini, mp=mp, ms=ms, grid=grid, d=d)
        before = [(v, v.snap()) for v in (grid, emaxs, ncu, rule, pc, pp, draws, ix, cv.cov, *ini.values())]
        return g.ns(p=p, case=case, before=before, args=dict(
            model_spec=ms, state_space=states, indexer=ix, covariates=cv.cov, emaxs=emaxs, non_consumption_utilities=ncu,
            child_age_update_rule=rule, prob_child=pc, prob_partner=pp, draws_sim=draws, initial_states=df, model_params=mp,
            biased_exp=case["biased"], data_sparse=case["sparse"]))

    def post(self, o, inp, res, case):
        if not isinstance(res, Frames):
            from engine.sym import Unsupported

            raise Unsupported("result is not the list of period tables")
        o.check("one table per period", o.same(res.n, inp.p.T, 0))
        o.check("no further tables", len(res.added) == 0)


BASE = dict(regime="elterngeld", splitting=True, biased=False, sparse=True)


@register
class LoopEntry(_Loop):
    """Who is in a period's table, and in which state."""

    name = "sim.entry"
    cases = [dict(BASE, what="entry", part=i) for i in (0, 1, 2)]


@register
class LoopMotion(_Loop):
    """How an agent's state changes from one period to the next."""

    name = "sim.motion"
    cases = [dict(BASE, what="motion", phase=ph, biased=b, part=i)
             for ph, b in (("fertile", False), ("later", True), ("final", False)) for i in (0, 1)]
    cost = 60


@register
class LoopValues(_Loop):
    """What is recorded about an agent's wage, values and choice."""

    name = "sim.values"
    cases = [dict(what="values", regime=r, splitting=s, biased=b, sparse=sp, part=i) for i in (0, 1) for r, s, b, sp in (
        ("elterngeld", True, False, False), ("elterngeld", False, True, True), ("erziehungsgeld", True, False, False),
        ("erziehungsgeld", False, True, False))]


# ------------------------------------------------------------------ initial conditions
def lagged_spec(o, years):
    """Years are not negative: part-time if fractional, else full-time if above one, else none."""
    frac = years - o.real(o.int(years))
    return o.where(frac > o.num("0.00000001"), o.int(1), o.where(years > 1, o.int(2), o.int(0)))


@register
class Lagged(Unit):
    name = "sim.lagged"
    target = stub_target = f"{SN}.lagged_choice_initial"
    n_random = 8

    def make(self, g, case):
        m = g.dim("n_agents", conc=(1, 8))
        y = g.arr("years", (m,), lo=0, conc=lambda r, s: r.integers(0, 5, s) + (r.random(s) < 0.5) * r.choice([0.5, 0.25, 1e-3], s))
        return g.ns(m=m, y=y, args=dict(initial_exp_years=y))

    def post(self, o, inp, res, case):
        o.shape_eq("one choice per agent", res, (inp.m,))
        for (i,) in o.forall(inp.m):
            o.eq("lagged choice: part-time if years are fractional, else full-time if above one, else none",
                 o.at(res, i), lagged_spec(o, o.at(inp.y, i)))

    def requires(self, o, a):
        for (i,) in o.forall(o.shape(a["initial_exp_years"])[0]):
            yield "years are not negative", o.at(a["initial_exp_years"], i) >= 0

    def stub(self, o, a):
        y = a["initial_exp_years"]
        return o.array(o.shape(y), lambda i: lagged_spec(o, o.at(y, i)), k="i", lib="np")


@register
class Initial(Unit):
    name = "sim.initial"
    target = f"{SN}.prepare_simulation_data"
    uses = ("exp.pt_increment", "exp.years_to_stock", "sim.lagged", "integ.draws")
    cases = [{"biased": False}, {"biased": True}]
    concrete = False
    cost = 20

    def make(self, g, case):
        from .shared import exp_params

        T, N, nt = g.dim("T"), g.dim("n_agents"), g.dim("num_types")
        A0, X0 = g.int("child_age_init_max", lo=0), g.int("init_exp_max", lo=0)
        ey = [g.int(f"educ_years_{i}", lo=0) for i in range(3)]
        pe = g.arr("prob_educ_level", (3,), lo=0, hi=1)
        pa = g.arr("prob_child_age", (3, A0 + 2), lo=0, hi=1)
        pp = g.arr("prob_partner_present", (3,), lo=0, hi=1)
        pt, ft = (g.arr(f"prob_exp_{c}", (3, X0 + 1), lo=0, hi=1) for c in ("pt", "ft"))
        ts = g.arr("type_shares", (nt,), lo=0, hi=1)
        mp = g.ns(**vars(exp_params(g)), type_shares=ts, shock_sd=g.real("shock_sd", lo=0))
        ms = g.ns(num_periods=T, num_agents_sim=N, num_types=nt, num_educ_levels=3, educ_years=ey, child_age_init_max=A0,
                  init_exp_max=X0, seed_sim=g.int("seed_sim", lo=0))
        if g.symbolic:  # non-negative part-time increments
            for e in range(3):
                g.assume(mp.gamma_p.get(e) >= 0)
                g.assume(mp.gamma_p.get(e) + mp.gamma_p_mom >= 0)
        return g.ns(T=T, N=N, nt=nt, A0=A0, X0=X0, ey=ey, pe=pe, pa=pa, pp=pp, pt=pt, ft=ft, ts=ts, mp=mp, ms=ms, args=dict(
            model_params=mp, model_spec=ms, prob_educ_level=pe, prob_child_age=pa, prob_partner_present=pp, prob_exp_pt=pt,
            prob_exp_ft=ft, biased_exp=case["biased"]))

    def post(self, o, inp, res, case):
        from .shared import inc_spec, stock_spec

        p = inp
        df, draws = res
        o.check("the documented columns", set(df.cols) == set(COLS))
        o.check("one row per agent", o.same(df.n, p.N, 0))
        o.shape_eq("one shock per period and agent", draws, (p.T, p.N))
        for t, i in o.forall(p.T, p.N):
            o.eq("shocks are the seeded normal draws times the standard deviation", o.at(draws, t, i),
                 o.normal(p.ms.seed_sim, (p.T, p.N), t, i) * o.at(p.mp.shock_sd))
        for (a,) in o.forall(p.N):
            at = lambda c: df.cols[c].get(a)
            e, ag, pa, pt, ft, ty = (at(c) for c in ("Education_Level", "Age_Youngest_Child", "Partner_Indicator",
                                                     "Experience_Part_Time", "Experience_Full_Time", "Type"))
            o.eq("agents are numbered", at("Identifier"), o.int(a))
            o.check("education is drawn from its distribution", o.and_(e >= 0, e <= 2, o.at(p.pe, e) > 0))
            o.eq("entry in the period of the education level", at("Period"), o.pick(p.ey, e))
            inr = lambda v, lo, hi: o.and_(v >= lo, v <= hi)
            o.check("child age is drawn from the distribution of the education level", o.and_(inr(ag, -1, p.A0), o.at(p.pa, e, ag + 1) > 0))
            o.check("partner is drawn from the distribution of the education level", o.and_(
                inr(pa, 0, 1), o.implies(o.same(pa, 1, 0), o.at(p.pp, e) > 0), o.implies(o.same(pa, 0, 0), o.at(p.pp, e) < 1)))
            o.check("part-time experience is drawn from the distribution of the education level", o.and_(inr(pt, 0, p.X0), o.at(p.pt, e, pt) > 0))
            o.check("full-time experience is drawn from the distribution of the education level", o.and_(inr(ft, 0, p.X0), o.at(p.ft, e, ft) > 0))
            o.check("type is drawn from the type shares", o.and_(inr(ty, 0, p.nt - 1), o.at(p.ts, ty) > 0))
            inc = inc_spec(o, p.mp, e, ag, case["biased"])
            years = o.real(pt) * inc + o.real(ft)
            o.eq("initial stock: total years over the initial maximum", at("Experience_Stock"), stock_spec(o, years, o.int(0), p.X0, inc))
            o.eq("lagged choice by the rule on total years", at("Lagged_Choice"), lagged_spec(o, years))


# ------------------------------------------------------------------ assembling the panel
class Panel:
    """The list of period tables: any number of rows of the recorded columns."""

    def __init__(self, g, sparse):
        from engine.shadow import DataFrame

        n = g.dim("rows")
        self.df = DataFrame()
        cols = [*COLS, "Choice", "Wage_Observed"]
        if not sparse:
            cols += ["Male_Wages"] + [f"{v}_{c}" for c in "NPF" for v in (
                "Non_Consumption_Utility", "Flow_Utility", "Continuation_Value", "Value_Function")]
        for c in cols:
            ints = c in COLS and c != "Experience_Stock" or c == "Choice"
            hi = 2 if c in ("Choice", "Lagged_Choice", "Education_Level") else None
            self.df.cols[c] = g.arr("panel_" + c, (n,), k="i" if ints else "r", lo=0 if hi else None, hi=hi)
        self.n, self.g = n, g
        self.want = {c: v.snap() for c, v in self.df.cols.items()}

    def __concat__(self):
        return self.df.copy()


SMALL = ("Period", "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Age_Youngest_Child", "Choice")
LOOP_ARGS = ("indexer", "emaxs", "non_consumption_utilities", "child_age_update_rule", "prob_child", "prob_partner")


def same_array(o, name, a, b):
    """a is b as far as any reader can tell."""
    from engine.arr import as_arr, dim_eq

    a, b = as_arr(a), as_arr(b)
    o.shape_eq(name, a, b.shape)
    if len(a.shape) == len(b.shape):
        for ix in o.forall(*b.shape):
            o.eq(name, o.at(a, *ix), o.at(b, *ix))


def loop_stub(C, a):
    from engine.contract import SymO

    o, inp = SymO(C), C.unit_inp
    inp.calls.append(a)
    for nm in LOOP_ARGS:
        same_array(o, f"the loop gets the {nm} passed in", a[nm], inp.world[nm])
    same_array(o, "the loop gets the covariates passed in", a["covariates"], inp.world["covariates"])
    o.check("the loop gets the parameters and the specification passed in",
            a["model_params"] is inp.args["model_params"] and a["model_spec"] is inp.args["model_spec"])
    o.check("simulated agents follow the belief setting passed in", a["biased_exp"] is inp.case["biased"])
    o.check("the reduced panel is requested as passed in", a["data_sparse"] is inp.case["sparse"])
    seeded = C.rng is not None and C.rng["seed"] is not None
    o.check("the random draws of the loop start from the simulation seed", seeded and o.same(C.rng["seed"], inp.ms.seed_sim, 0))
    Initial().post(o, inp.ini, (a["initial_states"], a["draws_sim"]), inp.case)
    inp.panel = Panel(C.g, inp.case["sparse"])
    return inp.panel


@register
class Assemble(Unit):
    """pyth_simulate: seeding, initial conditions, hand-over to the period loop, assembly of the panel."""

    name = "sim.assemble"
    target = f"{SA}.pyth_simulate"
    uses = ("exp.pt_increment", "exp.years_to_stock", "sim.lagged", "integ.draws")
    cases = [dict(biased=b, sparse=s) for b, s in ((False, False), (False, True), (True, False))]
    extra_stubs = {f"{SA}.simulate_agents_over_periods": loop_stub}
    concrete = False
    cost = 25
    budget = 90.0

    def make(self, g, case):
        ini = Initial().make(g, case)
        n, ng = g.dim("n_states"), g.dim("n_grid", lo=2)
        d6 = [g.dim(f"d{i}") for i in range(6)]
        world = dict(
            indexer=g.arr("indexer", d6, k="i"), emaxs=g.arr("emaxs", (n, ng, 4)), covariates=g.arr("covariates", (n, 5)),
            non_consumption_utilities=g.arr("ncu", (n, 3)), child_age_update_rule=g.arr("rule", (n,), k="i"),
            prob_child=g.arr("prob_child", (ini.T, 3), lo=0, hi=1), prob_partner=g.arr("prob_partner", (ini.T, 3, 2, 2), lo=0, hi=1))
        states = g.arr("states", (n, 6), k="i")
        args = {k: v for k, v in ini.args.items() if k != "biased_exp"}
        args.update(world, states=states, biased_exp=case["biased"], data_sparse=case["sparse"])
        before = {k: (v, v.snap()) for k, v in args.items() if hasattr(v, "snap")}
        return g.ns(ini=ini, ms=ini.ms, world=dict(world), case=case, calls=[], before=before, args=args)

    def post(self, o, inp, res, case):
        from engine.arr import Arr
        from engine.sym import lift

        o.check("one run of the period loop", len(inp.calls) == 1)
        for rec in o.C.rng_log:
            o.check("every draw of the initial conditions is determined by the simulation seed",
                    rec["seed"] is not None and o.same(rec["seed"], inp.ms.seed_sim, 0))
        pan = inp.panel
        o.check("the panel has the recorded columns", set(res.cols) == set(pan.want))
        o.check("the panel has every recorded row", o.same(res.n, pan.n, 0))
        for (i,) in o.forall(pan.n):
            ch = lift(pan.want["Choice"]((i,)))
            for c, rd in pan.want.items():
                was, now = rd((i,)), res.cols[c].get(i)
                if c == "Wage_Observed":
                    o.check("the wage is missing exactly when the agent does not work",
                            o.finite(now) == o.not_(o.same(ch, 0, 0)))
                    o.check("the wage of a working agent is the recorded one", o.implies(o.not_(o.same(ch, 0, 0)), o.same(now, was, 0)))
                elif case["sparse"] and c in SMALL:  # int8 in the reduced panel: values of that range are kept
                    o.check("nothing else is altered", o.implies(o.and_(lift(was) >= -128, lift(was) <= 127), o.same(now, was, 0)))
                else:
                    o.eq("nothing else is altered", now, was)
        for k, (a, rd) in inp.before.items():
            same_array(o, "inputs are left alone", a, Arr(a.shape, rd, a.k))


# ------------------------------------------------------------------ entry points
SP = "soepy.simulate.simulate_python"
EX = "soepy.exogenous_processes"


class Tok:
    """A value known only by what it was computed from (congruence)."""

    sorts = {}

    def __init__(self, f, *args, arity=None):
        import z3

        U = Tok.sorts.setdefault("U", z3.DeclareSort("Value"))
        ts = [Tok.of(a) for a in args]
        self._term = z3.Function(f"{f}/{len(ts)}", *[U] * len(ts), U)(*ts) if ts else z3.Const(f, U)
        self._arity = arity

    @staticmethod
    def of(a):
        import z3

        if isinstance(a, Tok):
            return a._term
        U = Tok.sorts.setdefault("U", z3.DeclareSort("Value"))
        if isinstance(a, (bool, str, int, type(None))):
            return z3.Const(f"value {a!r}", U)
        if isinstance(a, (list, tuple)):
            return Tok("sequence", *a)._term
        from engine.sym import Unsupported

        raise Unsupported(f"opaque call with {type(a).__name__}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Tok("attribute " + n, self)

    def __call__(self, *a, **k):
        return Tok("call", self, *a, *[x for kv in sorted(k.items()) for x in kv], arity=self._arity)

    def __iter__(self):
        from engine.sym import Unsupported

        if self._arity is None:
            raise Unsupported("iteration over an opaque value")
        return iter([Tok(f"part {i}", self) for i in range(self._arity)])

    def __bool__(self):
        from engine.sym import Unsupported

        raise Unsupported("branch on an opaque value")

    __hash__ = None

    def __eq__(self, b):
        from engine.sym import Unsupported

        raise Unsupported("comparison of opaque values")

    def same(self, b):
        from engine.sym import S

        return S(self._term == Tok.of(b), "b")


class Sim(Tok):
    """The panel of one run."""

    def set_index(self, keys, **k):
        return Tok("set_index", self, *(keys if isinstance(keys, (list, tuple)) else [keys]), *[x for kv in sorted(k.items()) for x in kv])


def tok_stub(name, parts=None, arity=None):
    def st(C, a):
        t = Tok(name, *a.values(), arity=arity)
        return tuple(Tok(f"part {i}", t) for i in range(parts)) if parts else t

    return st


def spec_stub(C, a):
    v = list(a.values())
    return Tok("specification", v[0], Tok("number of types", v[1]))


def panel_stub(C, a):
    C.unit_inp.runs.append(dict(a))
    return Sim("panel", *a.values())


def solver_stub(C, a):
    return Tok("solver", *[a[k] for k in sorted(a)], arity=2)


@register
class SimEntryPoints(Unit):
    """simulate, get_simulate_func and partiable_simulate over opaque callees: the same panel is asked for."""

    name = "sim.entry_points"
    target = f"{SP}.get_simulate_func"
    cases = [dict(biased=b, sparse=s) for b in (True, False) for s in (True, False)]
    concrete = False
    extra_stubs = {
        "soepy.pre_processing.model_processing.read_model_params_init": tok_stub("parameters", parts=2),
        "soepy.pre_processing.model_processing.read_model_spec_init": spec_stub,
        "soepy.solve.create_state_space.create_state_space_objects": tok_stub("state space", parts=5),
        "soepy.solve.solve_python.get_solve_function": solver_stub,
        f"{SA}.pyth_simulate": panel_stub,
        **{f"{EX}.{m}.{f}": tok_stub(f) for m, fs in dict(
            children=("gen_prob_child_init_age_vector", "gen_prob_child_vector"), education=("gen_prob_educ_level_vector",),
            partner=("gen_prob_partner", "gen_prob_partner_present_vector"),
            experience=("gen_prob_init_exp_component_vector", "gen_prob_init_exp_years_vector")).items() for f in fs},
    }

    def make(self, g, case):
        from engine import sym

        P, Q, M, M2 = (Tok(n) for n in ("parameters P", "parameters Q", "specification file M", "specification file M'"))
        nt = [Tok("number of types", Tok("part 0", Tok("parameters", x))) for x in (P, Q)]
        sym.CUR.assume(nt[0].same(nt[1]))  # a prepared function is for a given number of types
        return g.ns(P=P, Q=Q, M=M, case=case, runs=[], args={})

    def call(self, fns, inp, case):
        P, Q, M, b, s = inp.P, inp.Q, inp.M, case["biased"], case["sparse"]
        simulate, prepare, partial = (fns(f"{SP}.{n}") for n in ("simulate", "get_simulate_func", "partiable_simulate"))
        out = {}

        def run(nm, f):
            n = len(inp.runs)
            r = f()
            out[nm] = (r, inp.runs[n:])

        run("direct", lambda: simulate(P, M, biased_exp=b, data_sparse=s))
        run("default", lambda: simulate(P, M))
        run("other beliefs", lambda: simulate(P, M, biased_exp=not b, data_sparse=s))
        run("full", lambda: simulate(P, M, biased_exp=b, data_sparse=not s))
        f = prepare(P, M, biased_exp=b, data_sparse=s)
        run("prepared", lambda: f(P, M))
        h = prepare(Q, M, biased_exp=b, data_sparse=s)
        run("prepared with others", lambda: h(P, M))
        run("in between", lambda: h(Q, M))
        run("prepared with others, again", lambda: h(P, M))
        sp = spec_stub(None, dict(a=M, b=Tok("part 0", Tok("parameters", P))))
        t = lambda name, *a, **k: tok_stub(name, **k)(None, dict(enumerate(a)))
        st = t("state space", sp, parts=5)
        pc, pp = t("gen_prob_child_vector", sp), t("gen_prob_partner", sp)
        solve = solver_stub(None, dict(
            states=st[0], covariates=st[2], child_state_indexes=st[4], model_spec=sp, prob_child=pc, prob_partner=pp, biased_exp=b))
        run("partial", lambda: partial(
            solve_func=solve, states=st[0], indexer=st[1], covariates=st[2], child_age_update_rule=st[3],
            prob_educ_level=t("gen_prob_educ_level_vector", sp), prob_child_age=t("gen_prob_child_init_age_vector", sp),
            prob_partner_present=t("gen_prob_partner_present_vector", sp), prob_exp_years=Tok("unused"),
            prob_exp_pt=t("gen_prob_init_exp_component_vector", sp, sp.pt_exp_shares_file_name),
            prob_exp_ft=t("gen_prob_init_exp_component_vector", sp, sp.ft_exp_shares_file_name),
            prob_child=pc, prob_partner=pp, data_sparse=s, model_params_init_file_name=P, model_spec_init_file_name=M))
        return out

    def post_exc(self, o, inp, exc, case):
        from engine.sym import Unsupported

        raise Unsupported(f"{type(exc).__name__}: {exc}")

    def post(self, o, inp, res, case):
        with kind(o, "invariant"):
            for nm, (r, runs) in res.items():
                o.check("one panel per call", len(runs) == 1)
                o.check("realised experience, wages and initial conditions follow the unbiased law of motion", runs[0]["biased_exp"] is False)
            base, (run,) = res["direct"]
            o.check("the panel is indexed by agent and period", base.same(Sim("panel", *run.values()).set_index(["Identifier", "Period"])))
            o.check("the reduced panel is returned on request", run["data_sparse"] is case["sparse"])
            for nm in ("prepared", "partial", "prepared with others", "prepared with others, again"):
                o.check(f"same inputs, same panel: direct and {nm}", base.same(res[nm][0]))
            for other, but in (("other beliefs", ("emaxs", "non_consumption_utilities")), ("full", ("data_sparse",))):
                for k, v in res[other][1][0].items():
                    if k not in but:
                        o.check(f"{k} does not depend on the beliefs or the kind of panel", Tok("id", v).same(Tok("id", run[k])))
            d = res["default"][1][0]
            o.check("by default the full panel is returned", d["data_sparse"] is False)
