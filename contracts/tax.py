"""Income tax, social security contributions, net household income."""
from engine.base import Unit, register

J = "soepy.shared.tax_and_transfers_jax"
P = "soepy.shared.tax_and_transfers"
TP = "soepy.pre_processing.tax_and_transfers_params"


def bracket_spec(o, tp, y):
    """Statutory formula: 0 below the allowance, otherwise the bracket containing y."""

    def form(i):
        d = y - o.at(tp, 0, i)
        return o.at(tp, 1, i) + o.at(tp, 2, i) * d + o.at(tp, 3, i) * d * d

    return o.where(
        y < o.at(tp, 0, 0),
        0 * form(0),
        o.where(
            y < o.at(tp, 0, 1),
            form(0),
            o.where(y < o.at(tp, 0, 2), form(1), o.where(y < o.at(tp, 0, 3), form(2), form(3))),
        ),
    )


def sched(g, lib):
    tp = g.arr("tax_params", (4, 4), conc=lambda r, s: _rand_tp(r), lib=lib)
    for i in range(3):
        g.assume(tp[0, i] < tp[0, i + 1])
    return tp


def _rand_tp(r):
    import numpy as np

    t = np.cumsum(r.random(4) * 300 + 1)
    return np.stack([t, np.cumsum(r.random(4) * 40), r.random(4) * 0.6, r.random(4) * 0.001])


class _IncTax(Unit):
    lib = "np"

    def make(self, g, case):
        tp = sched(g, self.lib)
        y = g.real("income", conc=(-50, 1500), snap=None if g.symbolic else [float(tp[0, i]) for i in range(4)])
        return g.ns(args=dict(tax_params=tp, taxable_income=y), tp=tp, y=y)

    def call(self, fns, inp, case):
        return fns(self.target)(inp.tp, inp.y)

    def post(self, o, inp, res, case):
        o.eq("tax equals the bracket formula", res, bracket_spec(o, inp.tp, inp.y))

    def requires(self, o, a):
        tp = a["tax_params"]
        for i in range(3):
            yield f"bracket {i} precedes bracket {i + 1}", o.at(tp, 0, i) < o.at(tp, 0, i + 1)

    def stub(self, o, a):
        return o.elementwise(lambda y: bracket_spec(o, a["tax_params"], y), a["taxable_income"])


@register
class IncTaxJax(_IncTax):
    name = "tax.inc_tax_jax"
    target = stub_target = f"{J}.calculate_inc_tax"
    lib = "jnp"


@register
class IncTaxScalar(_IncTax):
    name = "tax.inc_tax_scalar"
    target = stub_target = f"{P}.calculate_inc_tax"


class _Ssc(Unit):
    lib = "np"

    def make(self, g, case):
        d = g.arr("deductions", (2,), lo=0, conc=lambda r, s: [r.random() * 0.5, r.random() * 1500], lib=self.lib)
        w = g.real("wage", conc=(-5, 2500), snap=None if g.symbolic else [float(d[1]), 0.0])
        return g.ns(d=d, w=w)

    def call(self, fns, inp, case):
        return fns(self.target)(inp.d, inp.w)

    def post(self, o, inp, res, case):
        o.eq("contribution is the rate times capped earnings", res, ssc_spec(o, inp.d, inp.w))

    def stub(self, o, a):
        return o.elementwise(lambda w: ssc_spec(o, a["deductions_spec"], w), a["gross_labor_income"])


def ssc_spec(o, d, w):
    return o.at(d, 0) * o.min(w, o.at(d, 1))


@register
class SscJax(_Ssc):
    name = "tax.ssc_jax"
    target = stub_target = f"{J}.calculate_ssc_deductions"
    lib = "jnp"


@register
class SscScalar(_Ssc):
    name = "tax.ssc_scalar"
    target = stub_target = f"{P}.calculate_ssc_deductions"


def net_spec(o, tp, d, f, m, splitting):
    args = [o.at(tp, r, c) for r in range(4) for c in range(4)] + [o.at(d, 0), o.at(d, 1), f, m]
    return o.opaque(f"net{int(splitting)}", args, lambda: _net_spec(o, tp, d, f, m, splitting))


def _net_spec(o, tp, d, f, m, splitting):
    fd = f - ssc_spec(o, d, f)
    md = m - ssc_spec(o, d, m)
    if splitting:
        couple = bracket_spec(o, tp, (fd + md) / 2) * 2
    else:
        couple = bracket_spec(o, tp, fd) + bracket_spec(o, tp, md)
    single = bracket_spec(o, tp, fd)
    s = o.num("1.05")
    return o.where(m > 0, fd + md - s * couple, fd - s * single)


class _Net(Unit):
    lib = "np"
    cases = [{"splitting": True}, {"splitting": False}]

    def make(self, g, case):
        tp = sched(g, self.lib)
        d = g.arr("deductions", (2,), lo=0, conc=lambda r, s: [r.random() * 0.5, r.random() * 1500], lib=self.lib)
        f = g.real("female_wage", conc=(0, 1500), snap=[0.0])
        m = g.real("male_wage", conc=(0, 1500), snap=[0.0])
        return g.ns(tp=tp, d=d, f=f, m=m)

    def call(self, fns, inp, case):
        return fns(self.target)(inp.tp, inp.d, inp.f, inp.m, case["splitting"])

    def post(self, o, inp, res, case):
        o.eq(
            "net income: earnings minus contributions minus 1.05 x tax, joint iff a spouse earns",
            res, net_spec(o, inp.tp, inp.d, inp.f, inp.m, case["splitting"]),
        )

    def requires(self, o, a):
        tp = a["income_tax_spec"]
        for i in range(3):
            yield f"bracket {i} precedes bracket {i + 1}", o.at(tp, 0, i) < o.at(tp, 0, i + 1)

    def stub(self, o, a):
        from engine.load import StubMismatch

        if not isinstance(a["tax_splitting"], bool):
            raise StubMismatch("tax_splitting not concrete")
        return o.elementwise(
            lambda f, m: net_spec(o, a["income_tax_spec"], a["deductions_spec"], f, m, a["tax_splitting"]),
            a["female_wage"], a["male_wage"],
        )


@register
class NetJax(_Net):
    name = "tax.net_jax"
    target = stub_target = f"{J}.calculate_net_income"
    lib = "jnp"
    uses = ("tax.inc_tax_jax", "tax.ssc_jax")


@register
class NetScalar(_Net):
    name = "tax.net_scalar"
    target = stub_target = f"{P}.calculate_net_income"
    uses = ("tax.inc_tax_scalar", "tax.ssc_scalar")


YF = ("7664", "12739", "52151", "250000")
RATES = ("0.15", "0.2397", "0.42", "0.45")


@register
class TaxParams(Unit):
    """create_tax_parameters: the published 2007 schedule in weekly units."""

    name = "tax.params"
    target = f"{TP}.create_tax_parameters"

    def make(self, g, case):
        return g.ns(args={})

    def post(self, o, inp, res, case):
        y = o.num("51.6")
        T = [o.num(t) / y for t in YF]
        L = [o.num(r) for r in RATES]
        o.shape_eq("schedule shape", res, (4, 4))
        base = 0
        for i in range(4):
            o.eq(f"threshold {i} is the statutory amount per week", o.at(res, 0, i), T[i])
            o.eq(f"marginal rate at threshold {i}", o.at(res, 2, i), L[i])
            q = (L[i + 1] - L[i]) / (T[i + 1] - T[i]) / 2 if i < 2 else 0 * L[0]
            o.eq(f"progression of bracket {i}", o.at(res, 3, i), q, atol=1e-12)
            if i:
                w = T[i] - T[i - 1]
                qp = (L[i] - L[i - 1]) / w / 2 if i - 1 < 2 else 0 * L[0]
                base = base + L[i - 1] * w + qp * w * w
            o.eq(f"tax accumulated up to threshold {i} (no jump)", o.at(res, 1, i), base)


class _Schedule(Unit):
    """Composition of the real constructor and the real tax function."""

    n_random = 60

    def make(self, g, case):
        a = g.real("income_a", conc=(-100, 7000), snap=[t / 51.6 for t in (7664.0, 12739.0, 52151.0, 250000.0)])
        b = g.real("income_b", conc=(-100, 7000), snap=[t / 51.6 for t in (7664.0, 12739.0, 52151.0, 250000.0)])
        return g.ns(a=a, b=b)

    def call(self, fns, inp, case):
        tp = fns(f"{TP}.create_tax_parameters")()
        f = fns(self.target)
        return f(tp, inp.a), f(tp, inp.b)

    def post(self, o, inp, res, case):
        a, b = inp.a, inp.b
        ta, tb = o.at(res[0]), o.at(res[1])
        z = o.num("7664") / o.num("51.6")
        o.check("no tax up to the allowance", o.implies(o.le(a, z, 0), o.same(ta, 0)))
        o.check("tax is non-negative", o.ge(ta, 0))
        o.check("tax does not exceed 45% of income", o.implies(a >= 0, o.le(ta, a * o.num("0.45"))))
        o.check("tax rises with income", o.implies(a <= b, o.le(ta, tb)))
        o.check(
            "no jump: tax rises by at most 45% of the extra income",
            o.implies(a <= b, o.le(tb - ta, (b - a) * o.num("0.45"))),
        )
        o.check(
            "at least 15% of each extra unit above the allowance is taxed",
            o.implies(o.and_(a <= b, a >= z), o.ge(tb - ta, (b - a) * o.num("0.15"))),
        )


@register
class ScheduleJax(_Schedule):
    name = "tax.schedule_jax"
    target = f"{J}.calculate_inc_tax"


@register
class ScheduleScalar(_Schedule):
    name = "tax.schedule_scalar"
    target = f"{P}.calculate_inc_tax"
