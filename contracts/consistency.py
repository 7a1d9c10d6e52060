"""Lemmas over the contracts of the solution and of the simulation."""
from engine.base import Unit, register

from .solve import REGIMES, rest_value, tax_model, work_value
from .tax import net_spec


@register
class SameFlow(Unit):
    """The flow utility in the Bellman contract is the one in the contract of the simulated period.

    Covariates are those of the state (states.covariates); groups without a small child have
    no care costs (spec.read); non-employment resources are at least the consumption floor.
    """

    name = "match.flow"
    target = "soepy.simulate.simulate_auxiliary.simulate_agents_over_periods"
    cases = [dict(regime=r, splitting=s) for r in REGIMES for s in (True, False)]
    opaque = ("net0", "net1", "benefit_elterngeld", "benefit_erziehungsgeld")
    concrete = False

    def make(self, g, case):
        from .exog import cov_fields

        ms = tax_model(g, case["regime"], splitting=case["splitting"])
        for k, v in cov_fields(g).items():
            setattr(ms, k, v)
        ms.elasticity_scale = g.real("elasticity_scale", slo=0)
        s = g.arr("state", (1, 6), k="i")
        for c, lo, hi in ((0, 0, None), (1, 0, 2), (2, 0, 2), (4, -1, None), (5, 0, 1)):
            g.assume(s.get(0, c) >= lo)
            if hi is not None:
                g.assume(s.get(0, c) <= hi)
        for j in (0, 1):
            g.assume(ms.child_care_costs.get(0, j) == 0)
        ncu = [g.real(f"utility_factor_{c}", slo=0) for c in range(3)]
        cont = [g.real(f"continuation_{c}") for c in range(3)]
        return g.ns(ms=ms, st=s, ncu=ncu, cont=cont, lw=g.real("log_wage"), shock=g.real("shock"), mu=g.real("mu", shi=0),
                    delta=g.real("delta", lo=0, hi=1), args={})

    def call(self, fns, inp, case):
        return None

    def post(self, o, inp, res, case):
        from types import SimpleNamespace

        from .exog import cov_spec
        from .shared import benefit_spec
        from .simulate import flow_spec

        ms, st = inp.ms, inp.st
        lg, ag, pa = (o.at(st, 0, c) for c in (2, 4, 5))
        b, male, eq, cb = (cov_spec(o, ms, st, 0, c) for c in range(4))
        married = o.same(pa, 1, 0)
        wage = o.exp(inp.lw + inp.shock) * ms.elasticity_scale
        lw = inp.lw + o.log(ms.elasticity_scale)
        o.eq("same wage at equal draws", o.exp(lw + inp.shock), wage)
        sim = flow_spec(o, ms, inp.mu, case, ag, lg, married, inp.lw, wage, b, male, eq, cb, inp.ncu)
        hours = o.array((3,), lambda i: o.pick([o.int(0), o.int(18), o.int(38)], i), k="i")
        rest = net_spec(o, ms.tax_params, ms.ssc_deductions, o.num("0.0"), male, case["splitting"]) + benefit_spec(
            o, ms, hours, case["regime"], ag, lg, married, lw, male, cb)
        a = SimpleNamespace(
            tp=ms.tax_params, d=ms.ssc_deductions, ms=ms, split=case["splitting"], hours=hours, mu=inp.mu, delta=inp.delta,
            costs=ms.child_care_costs, bin=b, male=male, eq=eq, cb=cb, rest=rest, factors=lambda k: inp.ncu[k], cont=lambda k: inp.cont[k],
            baby=o.or_(o.same(ag, 0, 0), o.same(ag, 1, 0)) if case["regime"] == "erziehungsgeld" else None)
        o.C.assume(rest >= o.eps)
        for c in range(3):
            v = rest_value(o, a) if c == 0 else work_value(o, a, c, wage)
            o.eq("value in the solution: simulated flow utility plus discounted continuation value", v, sim[c] + inp.delta * inp.cont[c])
