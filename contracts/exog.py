"""Exogenous processes, covariates."""
from engine.base import Unit, register

from .shared import AGE, EDUC, PARTNER, PERIOD, states_input

CH = "soepy.exogenous_processes.children"
PA = "soepy.exogenous_processes.partner"
EX = "soepy.exogenous_processes.experience"
ED = "soepy.exogenous_processes.education"
CO = "soepy.solve.covariates"


def prob(r, s):
    return r.random(s)


@register
class Births(Unit):
    name = "exog.births"
    target = stub_target = f"{CH}.gen_prob_child_vector"

    def make(self, g, case):
        T, more = g.dim("num_periods", conc=(1, 6)), g.dim("more_rows", lo=0, conc=(0, 3))
        L = g.int("last_child_bearing_period", lo=0, conc=(0, 7))
        tab = g.arr("prob_child_values", (T + more, 3), lo=0, hi=1, conc=prob)
        f = g.table("child", [("period", 0, T + more), ("educ_level", 0, 3)], "prob_child_values", tab)
        ms = g.ns(num_periods=T, num_educ_levels=3, last_child_bearing_period=L, child_info_file_name=f)
        return g.ns(args=dict(model_spec=ms), T=T, L=L, tab=tab)

    def post(self, o, inp, res, case):
        o.shape_eq("one probability per period and education", res, (inp.T, 3))
        for t, e in o.forall(inp.T, 3):
            o.eq("the table's value up to and including the last child-bearing period, zero afterwards",
                 o.at(res, t, e), o.where(t <= inp.L, o.at(inp.tab, t, e), o.num("0.0")))


@register
class Partners(Unit):
    name = "exog.partners"
    target = stub_target = f"{PA}.gen_prob_partner"

    def make(self, g, case):
        T = g.dim("num_periods", conc=(1, 6))
        m1, m2 = g.dim("more_rows_arrival", lo=0, conc=(0, 3)), g.dim("more_rows_separation", lo=0, conc=(0, 3))
        a = g.arr("arrival", (T + m1, 3), lo=0, hi=1, conc=prob)
        s = g.arr("separation", (T + m2, 3), lo=0, hi=1, conc=prob)
        ms = g.ns(
            num_periods=T, num_educ_levels=3,
            partner_arrival_info_file_name=g.table("arr", [("period", 0, T + m1), ("educ_level", 0, 3)], "prob_partner_values", a),
            partner_separation_info_file_name=g.table("sep", [("period", 0, T + m2), ("educ_level", 0, 3)], "prob_partner_values", s),
        )
        return g.ns(args=dict(model_spec=ms), T=T, a=a, s=s)

    def post(self, o, inp, res, case):
        o.shape_eq("period, education, partner now, partner next", res, (inp.T, 3, 2, 2))
        one = o.num("1.0")
        for t, e in o.forall(inp.T, 3):
            a, s = o.at(inp.a, t, e), o.at(inp.s, t, e)
            o.eq("single finds a partner with the arrival probability", o.at(res, t, e, 0, 1), a)
            o.eq("single stays single otherwise", o.at(res, t, e, 0, 0), one - a)
            o.eq("couple separates with the separation probability", o.at(res, t, e, 1, 0), s)
            o.eq("couple stays together otherwise", o.at(res, t, e, 1, 1), one - s)
            for m in range(2):
                o.eq("each row sums to one", o.at(res, t, e, m, 0) + o.at(res, t, e, m, 1), one)


class _Shares(Unit):
    """One list of shares per education level, the first set to the remainder."""

    E = 3

    def post(self, o, inp, res, case):
        o.check("one list per education level", len(res) == self.E)
        one = o.num("1.0")
        for e in range(self.E):
            o.shape_eq("one share per row of the table", o.arr_of(res[e]), (inp.M,))
            r = o.arr_of(res[e])
            rest = o.sum(inp.M - 1, lambda j: o.at(inp.tab, e, j + 1))
            for (j,) in o.forall(inp.M):
                o.eq("share: the table's value, the first one is the remainder",
                     o.at(r, j), o.where(o.same(j, 0, 0), one - rest, o.at(inp.tab, e, j)))
            o.eq("shares sum to one", o.at(r, 0) + o.sum(inp.M - 1, lambda j: o.at(r, j + 1)), one)


@register
class InitialAges(_Shares):
    name = "exog.initial_ages"
    target = stub_target = f"{CH}.gen_prob_child_init_age_vector"

    def make(self, g, case):
        M = g.dim("n_ages", conc=(1, 6))
        tab = g.arr("child_age_shares", (3, M), lo=0, hi=1, conc=prob)
        ms = g.ns(num_educ_levels=3, child_age_shares_file_name=g.table(
            "age", [("educ_level", 0, 3), ("child_age", -1, M)], "child_age_shares", tab))
        return g.ns(args=dict(model_spec=ms), M=M, tab=tab)


@register
class InitialExp(_Shares):
    name = "exog.initial_exp"
    target = stub_target = f"{EX}.gen_prob_init_exp_component_vector"

    def make(self, g, case):
        M = g.dim("n_years", conc=(1, 6))
        tab = g.arr("exper_shares", (3, M), lo=0, hi=1, conc=prob)
        f = g.table("exp", [("educ_level", 0, 3), ("exp", 0, M)], "exper_shares", tab)
        return g.ns(args=dict(model_spec=g.ns(num_educ_levels=3), model_spec_exp_file_key=f), M=M, tab=tab)


@register
class InitialYears(Unit):
    name = "exog.initial_years"
    target = f"{EX}.gen_prob_init_exp_years_vector"
    # any maximum; the small ones as well, where a convolution written out by hand can be followed
    cases = [{}] + [{"M0": m} for m in range(3)]
    n_random = 4

    def make(self, g, case):
        M0 = case["M0"] if "M0" in case else g.dim("init_exp_max", lo=0, conc=(0, 6))
        M = M0 + 1
        share = lambda r, s: r.dirichlet([1.0] * s[1], s[0])
        ft = g.arr("ft", (3, M), lo=0, hi=1, conc=share)
        pt = g.arr("pt", (3, M), lo=0, hi=1, conc=share)
        ms = g.ns(
            num_educ_levels=3, init_exp_max=M0,
            ft_exp_shares_file_name=g.table("ft", [("educ_level", 0, 3), ("ft_exp", 0, M)], "exper_shares", ft),
            pt_exp_shares_file_name=g.table("pt", [("educ_level", 0, 3), ("pt_exp", 0, M)], "exper_shares", pt),
        )
        return g.ns(args=dict(model_spec=ms), M=M, ft=ft, pt=pt)

    def post(self, o, inp, res, case):
        M, zero, one = inp.M, o.num("0.0"), o.num("1.0")
        o.check("one distribution per education level", len(res) == 3)
        for e in range(3):
            def share(t):
                rest = o.sum(M - 1, lambda j: o.at(t, e, j + 1))
                return lambda j: o.where(o.same(j, 0, 0), one - rest, o.at(t, e, j))

            f, p = share(inp.ft), share(inp.pt)
            r = o.arr_of(res[e])
            o.shape_eq("total years 0 .. 2 x maximum", r, (2 * M - 1,))
            for (n,) in o.forall(2 * M - 1):
                want = o.sum(M, lambda i: o.where((n - i >= 0) & (n - i < M), f(i) * p(n - i), zero))
                o.eq("total years are the sum of independent part-time and full-time years", o.at(r, n), want)
            o.eq("the distribution sums to one", o.sum(2 * M - 1, lambda n: o.at(r, n)), one)


@register
class InitialPartner(Unit):
    name = "exog.initial_partner"
    target = stub_target = f"{PA}.gen_prob_partner_present_vector"

    def make(self, g, case):
        tab = g.arr("partner_shares", (3,), lo=0, hi=1, conc=prob)
        ms = g.ns(num_educ_levels=3, partner_shares_file_name=g.table("partner", [("educ_level", 0, 3)], "partner_shares", tab))
        return g.ns(args=dict(model_spec=ms), tab=tab)

    def post(self, o, inp, res, case):
        o.shape_eq("one share per education level", res, (3,))
        for (e,) in o.forall(3):
            o.eq("the table's share", o.at(res, e), o.at(inp.tab, e))


@register
class InitialEduc(Unit):
    name = "exog.initial_educ"
    target = stub_target = f"{ED}.gen_prob_educ_level_vector"

    def make(self, g, case):
        tab = g.arr("educ_shares", (3,), lo=0, hi=1, conc=prob)
        ms = g.ns(num_educ_levels=3, educ_shares_file_name=g.table("educ", [("educ_level", 0, 3)], "educ_shares", tab))
        return g.ns(args=dict(model_spec=ms), tab=tab)

    def post(self, o, inp, res, case):
        o.check("one share per education level", len(res) == 3)
        for e in range(3):
            o.eq("the table's share", res[e], o.at(inp.tab, e))


# ------------------------------------------------------------------ covariates
def bin_spec(o, age):
    n = o.num
    return o.where(age < 0, n("0"), o.where(age <= 2, n("1"), o.where(age <= 5, n("2"), o.where(age <= 10, n("3"), n("4")))))


def male_spec(o, ms, period, educ, partner):
    x = o.at(ms.partner_cf_const) + o.at(ms.partner_cf_age) * period + o.at(ms.partner_cf_age_sq) * period * period + o.at(ms.partner_cf_educ) * educ
    return o.where(o.same(partner, 1, 0), o.exp(x) * o.num("38"), o.num("0.0"))


def equiv_spec(o, age, partner):
    kid, m = age >= 0, o.same(partner, 1, 0)
    return o.where(kid, o.where(m, o.num("1.8"), o.num("1.3")), o.where(m, o.num("1.5"), o.num("1.0")))


def cb_spec(o, ms, age):
    return o.where(age >= 0, o.at(ms.child_benefits), o.num("0.0"))


def cov_spec(o, ms, st, i, c):
    p, e, a, m = (o.at(st, i, k) for k in (PERIOD, EDUC, AGE, PARTNER))
    return o.pick([o.real(bin_spec(o, a)), male_spec(o, ms, p, e, m), equiv_spec(o, a, m), cb_spec(o, ms, a)], c)


def cov_fields(g):
    return dict(
        partner_cf_const=g.real("partner_cf_const", conc=(1, 3)), partner_cf_age=g.real("partner_cf_age", conc=(-0.3, 0.4)),
        partner_cf_age_sq=g.real("partner_cf_age_sq", conc=(-0.03, 0.03)), partner_cf_educ=g.real("partner_cf_educ", conc=(-0.2, 0.4)),
        child_benefits=g.real("child_benefits", conc=(0, 80)),
    )


@register
class Covariates(Unit):
    name = "states.covariates"
    target = stub_target = f"{CO}.construct_covariates"

    def make(self, g, case):
        n = g.dim("n", conc=(1, 12))
        A = g.int("child_age_max", lo=0, conc=lambda r: int(r.choice([0, 1, 3, 5, 9, 10, 11, 12, 17])))
        cols, st = states_input(g, n, age_hi=A)
        ms = g.ns(child_age_max=A, **cov_fields(g))
        return g.ns(args=dict(states=st, model_spec=ms), n=n, ms=ms, st=st)

    def post(self, o, inp, res, case):
        o.shape_eq("four covariates per state", res, (inp.n, 4))
        for (i,) in o.forall(inp.n):
            for c, nm in enumerate(("child age group", "partner's weekly wage", "equivalence scale", "child benefit iff there is a child")):
                o.eq(nm, o.at(res, i, c), cov_spec(o, inp.ms, inp.st, i, c))

    def requires(self, o, a):
        st = a["states"]
        for (i,) in o.forall(o.shape(st)[0]):
            yield "child age is -1 to the maximum", o.and_(o.at(st, i, AGE) >= -1, o.at(st, i, AGE) <= o.at(a["model_spec"].child_age_max))

    def stub(self, o, a):
        st = a["states"]
        return o.array((o.shape(st)[0], 4), lambda i, c: cov_spec(o, a["model_spec"], st, i, c), lib="np")


@register
class AgeRule(Unit):
    name = "states.age_rule"
    target = stub_target = f"{CH}.define_child_age_update_rule"

    def make(self, g, case):
        n = g.dim("n", conc=(1, 12))
        A = g.int("child_age_max", lo=0, conc=(0, 8))
        cols, st = states_input(g, n, age_hi=A)
        return g.ns(args=dict(model_spec=g.ns(child_age_max=A), states=st), n=n, st=st, A=A)

    def post(self, o, inp, res, case):
        o.shape_eq("one age per state", res, (inp.n,))
        for (i,) in o.forall(inp.n):
            o.eq("next child age without a birth", o.at(res, i), rule_spec(o, o.at(inp.st, i, AGE), inp.A))

    def stub(self, o, a):
        st = a["states"]
        return o.array((o.shape(st)[0],), lambda i: rule_spec(o, o.at(st, i, AGE), a["model_spec"].child_age_max), k="i", lib="np")


def rule_spec(o, age, A):
    return o.where(o.or_(age < 0, age + 1 > A), o.int(-1), o.int(age + 1))
