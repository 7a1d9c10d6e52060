"""Whole-pipeline contracts, decided concretely against the reference model (bounded).

These are stand-ins for the composition of jitted, pandas-heavy functions.  They go
through the public entry points only, so they survive internal reorganisation.
"""
import copy

import numpy as np

from engine.base import Unit, register

SIM = "soepy.simulate.simulate_python"


def _mk(g, **opts):
    from .world import Ref, World

    w = World(g.rng, **opts)
    for k, v in w.describe().items():
        g._log(k, v)
    return g.ns(w=w, ref=Ref(w))


def build(fns, w, biased):
    """States, solution inputs and solution through the building blocks of ``simulate``."""
    mp_df, mp = fns("soepy.pre_processing.model_processing.read_model_params_init")(w.params)
    ms = fns("soepy.pre_processing.model_processing.read_model_spec_init")(w.spec, mp_df)
    ex = "soepy.exogenous_processes."
    prob_child = fns(ex + "children.gen_prob_child_vector")(ms)
    prob_partner = fns(ex + "partner.gen_prob_partner")(ms)
    states, indexer, cov, rule, child_idx = fns("soepy.solve.create_state_space.create_state_space_objects")(ms)
    sol = fns("soepy.solve.solve_python.get_solve_function")(
        states=states, covariates=cov, child_state_indexes=child_idx, model_spec=ms,
        prob_child=prob_child, prob_partner=prob_partner, biased_exp=biased,
    )
    return dict(mp=mp, ms=ms, prob_child=prob_child, prob_partner=prob_partner, states=states,
                indexer=indexer, cov=cov, rule=rule, child_idx=child_idx, solve=sol)


class _Pipe(Unit):
    symbolic = False
    n_random = 3
    weight = 3.0
    doc = "whole-pipeline composition (jit, pandas): bounded comparison with the reference model"


def _close(o, name, a, b, where=None, rtol=1e-7, atol=1e-9):
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    o.n += a.size
    if a.shape != b.shape:
        o.check(f"{name}: shape {a.shape} instead of {b.shape}", False)
        return
    bad = ~(np.isclose(a, b, rtol=rtol, atol=atol) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        from engine.conc import Violation

        ix = tuple(int(i[0]) for i in np.nonzero(bad))
        raise Violation(name, f"at {where(ix) if where else ix}: got {a[ix]!r}, specified {b[ix]!r} ({int(bad.sum())} of {bad.size} differ)")


def _all(o, name, cond, info=""):
    from engine.conc import Violation

    cond = np.atleast_1d(np.asarray(cond))
    o.n += cond.size
    if not cond.all():
        ix = tuple(int(i[0]) for i in np.nonzero(~cond))
        raise Violation(name, f"fails at {ix} {info if not callable(info) else info(ix)}")


def look_up(ix, T, NT, K):
    """state numbers by (period, educ, lag, type, age+1, partner)"""
    ages = np.array([K - 1] + list(range(K - 1)))
    return np.asarray(ix)[:, :, :, :, ages, :]


# ------------------------------------------------------------------ solution
@register
class Solution(_Pipe):
    name = "pipe.solution"
    target = "soepy.solve.solve_python.get_solve_function"
    cases = [
        dict(regime="elterngeld", biased=False), dict(regime="erziehungsgeld", biased=False),
        dict(regime="elterngeld", biased=True), dict(regime="erziehungsgeld", biased=True),
    ]
    n_random = 2

    def make(self, g, case):
        return _mk(g, regime=case["regime"])

    def call(self, fns, inp, case):
        b = build(fns, inp.w, case["biased"])
        ncu, em = b["solve"](b["mp"])
        return b, np.asarray(ncu), np.asarray(em)

    def post(self, o, inp, res, case):
        w, ref = inp.w, inp.ref
        b, ncu, em = res
        K = w.A + 2
        ids = look_up(b["indexer"], w.T, w.NT, K)
        V = ref.solve(case["biased"])
        lab = lambda ix: dict(zip(("period", "educ", "lagged", "type", "age+1", "partner", "grid", "column"), ix))
        got = em[ids]
        for t in range(w.T - 1, -1, -1):
            _close(o, "continuation values of the last period are zero" if t == w.T - 1 else
                   "continuation value: next-period values interpolated, then weighted by the state's probabilities",
                   got[t, ..., :3], V[t, ..., :3], lambda ix: (t, lab((t,) + ix)))
            _close(o, "stored value: expected maximum of flow utility plus discounted continuation value",
                   got[t, ..., 3], V[t, ..., 3], lambda ix: (t, lab((t,) + ix)))
        e, ty, a = np.meshgrid(np.arange(3), np.arange(w.NT), np.arange(-1, w.A + 1), indexing="ij")
        lz = ref.leisure(e, ty, a)
        z = np.broadcast_to(lz[None, :, None, :, :, None, :], ids.shape + (3,))
        _close(o, "utility factor stored at the state's own number", ncu[ids], z, lab)


@register
class SolutionCorners(Solution):
    """Child costs above earnings, horizon of one period, one draw, one type."""

    name = "pipe.solution_corners"
    cases = [
        dict(biased=False, opts=dict(T=1, educ_years=[0, 0, 0])),
        dict(biased=True, opts=dict(T=3, A=12, A0=11, n_grid=3, NT=1, scale=0.7)),
        dict(biased=False, opts=dict(T=4, A=1, L=1, regime="erziehungsgeld", NT=2)),
        dict(biased=False, opts=dict(T=2, A=11, tt=dict(child_care_costs={"under_3": [2000.0, 3000.0], "3_to_6": [1500.0, 4000.0]}), regime="elterngeld")),
        dict(biased=False, opts=dict(T=2, A=6, tt=dict(child_care_costs={"under_3": [2000.0, 3000.0], "3_to_6": [1500.0, 4000.0]}), regime="erziehungsgeld")),
    ]
    n_random = 1

    def make(self, g, case):
        return _mk(g, **case["opts"])


# ------------------------------------------------------------------ states
@register
class StateSpaceEx(_Pipe):
    name = "pipe.states"
    target = "soepy.solve.create_state_space.create_state_space_objects"
    cases = [dict(T=T, NT=NT, A=A) for T, NT, A in ((1, 1, 0), (2, 1, 1), (3, 2, 2), (4, 3, 1), (2, 2, 12), (2, 1, 10), (5, 1, 3), (3, 4, 0), (2, 1, 19), (2, 6, 5))]
    n_random = 1
    weight = 1.0
    doc = "bounded exhaustive: all states and successors of the listed dimensions"

    def make(self, g, case):
        r = g.rng
        cf = dict(partner_cf_const=r.uniform(1, 2), partner_cf_age=r.uniform(-0.2, 0.3), partner_cf_age_sq=r.uniform(-0.03, 0.03), partner_cf_educ=r.uniform(-0.2, 0.4))
        from .world import Ref

        ms = g.ns(num_periods=case["T"], num_educ_levels=3, num_types=case["NT"], child_age_max=case["A"],
                  child_benefits=r.uniform(5, 50), last_child_bearing_period=int(r.integers(0, 5)), **cf)
        w = g.ns(cf=cf, tt=dict(child_care_costs=dict(zip(("under_3", "3_to_6"), ([1, 1], [1, 1])))), T=case["T"], p_child=np.zeros((case["T"], 3)), L=0)
        return g.ns(args=dict(model_spec=ms), ms=ms, ref=Ref(w))

    def post(self, o, inp, res, case):
        T, NT, A = case["T"], case["NT"], case["A"]
        K = A + 2
        states, indexer, cov, rule, ch = (np.asarray(x) for x in res)
        N = T * 3 * 3 * NT * K * 2
        o.shape_eq("every combination occurs exactly once", states, (N, 6))
        o.shape_eq("one lookup entry per combination", indexer, (T, 3, 3, NT, K, 2))
        ids = look_up(indexer, T, NT, K)
        comb = np.stack(np.meshgrid(np.arange(T), np.arange(3), np.arange(3), np.arange(NT), np.arange(-1, A + 1), np.arange(2), indexing="ij"), -1)
        _all(o, "no lookup entry is left unset", (ids >= 0) & (ids < N))
        _close(o, "looking a combination up returns the number of exactly that state", states[ids], comb)
        _all(o, "each state number is returned for one combination", np.sort(ids.ravel()) == np.arange(N))
        _all(o, "states of one period are contiguous and equally many", states[:, 0] == np.repeat(np.arange(T), N // T))
        # successors
        age = comb[..., 4]
        nxt = np.where((age < 0) | (age + 1 > A), -1, age + 1)
        _close(o, "child age without a birth", rule[ids], nxt)
        if T > 1:
            for c in range(3):
                for birth in range(2):
                    for m in range(2):
                        a2 = np.zeros_like(nxt[:-1]) if birth else nxt[:-1]
                        p, e, _, ty, _, _ = (comb[:-1, ..., k] for k in range(6))
                        want = ids[p + 1, e, c, ty, a2 + 1, m]
                        _close(o, "successor: next period, same education and type, lagged choice, child and partner of the branch",
                               ch[ids[:-1], c, birth, m], want, lambda ix: dict(state=comb[:-1][ix].tolist(), choice=c, birth=birth, partner=m))
        _all(o, "states of the last period have no successors", ch[ids[-1]] < 0)
        # covariates
        p, e, a, m = comb[..., 0], comb[..., 1], comb[..., 4], comb[..., 5]
        cov = np.asarray(cov, dtype=float)
        _close(o, "child age group", cov[ids][..., 0], inp.ref.bin(a))
        _close(o, "partner's weekly wage", cov[ids][..., 1], inp.ref.male(p, e, m))
        _close(o, "equivalence scale", cov[ids][..., 2], inp.ref.equiv(a, m))
        _close(o, "child benefit iff there is a child", cov[ids][..., 3], np.where(a >= 0, inp.ms.child_benefits, 0.0))


# ------------------------------------------------------------------ simulation
COLS = ("N", "P", "F")


def panel_parts(df):
    d = df.reset_index()
    return d


class _Panel(_Pipe):
    target = f"{SIM}.simulate"
    cases = [
        dict(regime="elterngeld", biased=True), dict(regime="erziehungsgeld", biased=False),
        dict(regime="erziehungsgeld", biased=True), dict(regime="elterngeld", biased=False),
    ]
    n_random = 2

    def make(self, g, case):
        return _mk(g, **{k: v for k, v in case.items() if k not in ("biased",)})

    def call(self, fns, inp, case):
        np.random.seed(99)
        return fns(self.target)(inp.w.params, inp.w.spec, biased_exp=case["biased"])

    def pick(self, d, t):
        return d[d["Period"] == t]


@register
class PanelValues(_Panel):
    """C16, C18: every simulated row against the reference solution and budget."""

    name = "pipe.panel_values"
    public = True

    def solution(self, inp, case):
        return inp.ref.solve(case["biased"]), lambda t, e, l, ty, a, m: inp.ref.leisure(e, ty, a)

    def post(self, o, inp, res, case):
        w, ref = inp.w, inp.ref
        V, factor = self.solution(inp, case)
        d = panel_parts(res)
        p = w.p
        draws = np.random.RandomState(w.seed_sim).normal(0, 1, (w.T, w.N)) * p["sd"]
        for t in range(w.T):
            x = self.pick(d, t)
            if not len(x):
                continue
            e, l, ty, a, m, s = (x[c].to_numpy() for c in ("Education_Level", "Lagged_Choice", "Type", "Age_Youngest_Child", "Partner_Indicator", "Experience_Stock"))
            ch = x["Choice"].to_numpy()
            info = lambda ix: dict(period=t, row=x.iloc[ix[0]].to_dict())
            cont = np.stack([x[f"Continuation_Value_{k}"] for k in COLS], 1)
            flow = np.stack([x[f"Flow_Utility_{k}"] for k in COLS], 1)
            val = np.stack([x[f"Value_Function_{k}"] for k in COLS], 1)
            fac = np.stack([x[f"Non_Consumption_Utility_{k}"] for k in COLS], 1)
            vals = V[t, e, l, ty, a + 1, m][..., :3]
            want = ref.interp(np.moveaxis(vals, 1, 2), np.repeat(np.clip(s, 0, 1)[:, None], 3, 1))
            _close(o, "continuation value: the solution of her state, interpolated at her stock", cont, want, info, rtol=1e-6, atol=1e-8)
            _close(o, "value: flow utility plus discounted continuation value", val, flow + p["delta"] * cont, info)
            _all(o, "the choice has the highest value, the least hours on ties", ch == np.argmax(val, 1), info)
            inc = ref.inc(e, a, False)
            lw = ref.log_wage(s, t, inc, e)
            wage = w.scale * np.exp(lw + draws[t, : len(x)])
            ob = x["Wage_Observed"].to_numpy(dtype=float)
            _all(o, "the wage is missing exactly when the agent does not work", np.isnan(ob) == (ch == 0), info)
            _close(o, "wage: scale times the exponential of log wage plus the shock", ob[ch > 0], wage[ch > 0])
            male = ref.male(t, e, m)
            _close(o, "partner's wage is that of the agent's state", x["Male_Wages"], male, info)
            _close(o, "utility factor is that of the agent's state", fac, factor(t, e, l, ty, a, m), info)
            eps = np.finfo(float).eps
            eq = ref.equiv(a, m)
            cons = np.stack([np.maximum(ref.nonwork(lw + np.log(w.scale), l, a, m, male), eps)]
                            + [ref.work_resources(wage, h, a, m, male, eps) for h in (1, 2)], 1)
            _close(o, "flow utility: equivalised consumption of the choice's budget times the utility factor",
                   flow, ref.utility(cons, eq[:, None], factor(t, e, l, ty, a, m)), info, rtol=1e-6)


@register
class PanelMotion(_Panel):
    """C17, C22: completeness and law of motion, row by row."""

    name = "pipe.panel_motion"
    public = True
    cases = [
        dict(biased=True, degenerate=True, scale=None), dict(biased=False, degenerate=True, A=1),
        dict(biased=True, degenerate=False), dict(biased=False, degenerate=True, L=1, T=5, educ_years=[0, 1, 2]),
        dict(biased=False, degenerate=True, A=2, L=0, T=5),
    ]

    def post(self, o, inp, res, case):
        w, ref = inp.w, inp.ref
        _all(o, "indexed by agent and period", np.array(list(res.index.names) == ["Identifier", "Period"]))
        d = panel_parts(res)
        _all(o, "no agent twice in a period", ~d.duplicated(["Identifier", "Period"]).to_numpy())
        n_rows = 0
        first = d.sort_values(["Identifier", "Period"]).groupby("Identifier").first()
        _all(o, "entry in the period given by the years of education",
             first["Period"].to_numpy() == np.array(w.educ_years)[first["Education_Level"].to_numpy()])
        want = (w.T - first["Period"]).sum()
        _all(o, "one row per agent and period from entry to the last period", np.array(len(d) == want), f"{len(d)} rows, expected {want}")
        cnt = d.groupby("Identifier")["Period"].agg(["min", "max", "count"])
        _all(o, "every agent is followed to the last period", (cnt["max"] == w.T - 1).to_numpy() & (cnt["count"] == cnt["max"] - cnt["min"] + 1).to_numpy())
        if max(w.educ_years) < w.T:
            _all(o, "every agent whose entry lies within the horizon is there", np.array(sorted(first.index) == list(range(w.N))))
        for t in range(w.T - 1):
            x = d[d["Period"] == t].set_index("Identifier").sort_index()
            y = d[d["Period"] == t + 1].set_index("Identifier").sort_index().loc[x.index]
            if not len(x):
                continue
            info = lambda ix: dict(period=t, before=x.iloc[ix[0]].to_dict(), after=y.iloc[ix[0]].to_dict())
            for c in ("Education_Level", "Type"):
                _all(o, f"{c} never changes", x[c].to_numpy() == y[c].to_numpy(), info)
            ch = x["Choice"].to_numpy()
            _all(o, "lagged choice is the previous choice", y["Lagged_Choice"].to_numpy() == ch, info)
            e, a, m, s = (x[c].to_numpy() for c in ("Education_Level", "Age_Youngest_Child", "Partner_Indicator", "Experience_Stock"))
            inc = ref.inc(e, a, False)
            _close(o, "experience stock follows the unbiased law of motion", y["Experience_Stock"], ref.next_stock(s, t, inc, ch), info, rtol=1e-6)
            _all(o, "part-time years rise by one exactly after part-time", y["Experience_Part_Time"].to_numpy() == x["Experience_Part_Time"].to_numpy() + (ch == 1), info)
            _all(o, "full-time years rise by one exactly after full-time", y["Experience_Full_Time"].to_numpy() == x["Experience_Full_Time"].to_numpy() + (ch == 2), info)
            a2, m2 = y["Age_Youngest_Child"].to_numpy(), y["Partner_Indicator"].to_numpy()
            aged = np.where((a < 0) | (a + 1 > w.A), -1, a + 1)
            _all(o, "the youngest child ages by one year, drops out beyond the maximum, or is newborn", (a2 == aged) | (a2 == 0), info)
            # a birth out of turn is visible only where ageing does not give zero
            pb = ref.births[t + 1][e]
            born = a2 != aged
            _all(o, "births only with positive probability for the coming period", (pb > 0) | ~born, info)
            _all(o, "a certain birth happens", (pb < 1) | (a2 == 0), info)
            q = np.where(m == 0, w.p_arr[t][e], w.p_sep[t][e])
            _all(o, "partnerships change only with positive probability of her education and period", (q > 0) | (m2 == m), info)
            _all(o, "a certain partnership change happens", (q < 1) | (m2 != m), info)


@register
class PanelShares(_Panel):
    """Frequencies of simulated transitions (large sample, six standard errors)."""

    name = "pipe.panel_shares"
    public = True
    cases = [dict(biased=False, degenerate=False, mixed=False, N=6000, T=3, educ_years=[0, 0, 1], A=3, L=2, NT=3, n_grid=3, nd=1)]
    n_random = 1

    def post(self, o, inp, res, case):
        w, ref = inp.w, inp.ref
        d = panel_parts(res)

        def freq(name, hit, prob):
            n = len(hit)
            if n < 30:
                return
            se = np.sqrt(max(prob * (1 - prob), 1e-12) / n)
            _all(o, name, np.array(abs(hit.mean() - prob) <= 6 * se + 1e-9), f"frequency {hit.mean():.4f} of {n}, probability {prob:.4f}")

        for t in range(w.T - 1):
            x = d[d["Period"] == t].set_index("Identifier").sort_index()
            y = d[d["Period"] == t + 1].set_index("Identifier").sort_index().loc[x.index]
            for e in range(3):
                k = (x["Education_Level"] == e).to_numpy()
                freq(f"births of period {t + 1}, education {e}", (y["Age_Youngest_Child"] == 0).to_numpy()[k], ref.births[t + 1][e])
                for m, pr in ((0, w.p_arr[t][e]), (1, w.p_sep[t][e])):
                    km = k & (x["Partner_Indicator"] == m).to_numpy()
                    freq(f"partner change from {m} in period {t}, education {e}", (y["Partner_Indicator"] != m).to_numpy()[km], pr)
        f = d.sort_values("Period").groupby("Identifier").first()
        for e in range(3):
            freq(f"share of education {e}", (f["Education_Level"] == e).to_numpy(), w.s_educ[e])
        for j in range(w.NT):
            freq(f"share of type {j}", (f["Type"] == j).to_numpy(), w.p["shares"][j])
        for e in range(3):
            g = f[f["Education_Level"] == e]
            freq("initial partner", (g["Partner_Indicator"] == 1).to_numpy(), w.s_partner[e])
            for a in range(-1, w.A0 + 1):
                freq("initial child age", (g["Age_Youngest_Child"] == a).to_numpy(), w.s_age[e][a + 1])
            for y0 in range(w.M0 + 1):
                freq("initial part-time years", (g["Experience_Part_Time"] == y0).to_numpy(), w.s_pt[e][y0])
                freq("initial full-time years", (g["Experience_Full_Time"] == y0).to_numpy(), w.s_ft[e][y0])
            # independence of the two components
            for y0 in range(w.M0 + 1):
                for y1 in range(w.M0 + 1):
                    freq("part-time and full-time years are drawn independently",
                         ((g["Experience_Part_Time"] == y0) & (g["Experience_Full_Time"] == y1)).to_numpy(), w.s_pt[e][y0] * w.s_ft[e][y1])


@register
class PanelEntry(_Panel):
    """C19: initial conditions as seen in the panel."""

    name = "pipe.panel_entry"
    public = True
    cases = [
        dict(biased=True, degenerate=True), dict(biased=False, degenerate=True, M0=2, educ_years=[0, 1, 1], T=3),
        dict(biased=True, degenerate=False, M0=3, T=2, educ_years=[0, 1, 0]), dict(biased=False, degenerate=False, M0=0, T=2),
    ]

    def post(self, o, inp, res, case):
        w, ref = inp.w, inp.ref
        d = panel_parts(res)
        f = d.sort_values("Period").groupby("Identifier").first().reset_index()
        e, a = f["Education_Level"].to_numpy(), f["Age_Youngest_Child"].to_numpy()
        pt, ft = f["Experience_Part_Time"].to_numpy(), f["Experience_Full_Time"].to_numpy()
        info = lambda ix: f.iloc[ix[0]].to_dict()
        _all(o, "enters in the period given by her years of education", f["Period"].to_numpy() == np.array(w.educ_years)[e], info)
        inc = ref.inc(e, a, False)
        yrs = pt * inc + ft
        _close(o, "initial stock: total years over the initial maximum attainable years", f["Experience_Stock"], yrs / (w.M0 if w.M0 else 1.0), info, rtol=1e-6)
        frac = np.abs(yrs - np.floor(yrs + 1e-12)) > 1e-7
        near = np.abs(yrs - np.round(yrs))
        ok = (near == 0) | (near > 1e-6)  # away from the code's rounding tolerance
        lag = np.where(near > 1e-6, 1, np.where(yrs > 1, 2, 0))
        _all(o, "initial lagged choice from fractional or whole years", (f["Lagged_Choice"].to_numpy() == lag) | ~ok, info)

        def supp(name, v, pr, off=0):
            v = v.to_numpy() - off
            _all(o, name + " in range", (v >= 0) & (v < pr.shape[1]), info)
            _all(o, name + " has positive probability for her education", pr[e, v] > 0, info)

        supp("initial child age", f["Age_Youngest_Child"], w.s_age, -1)
        supp("initial part-time years", f["Experience_Part_Time"], w.s_pt)
        supp("initial full-time years", f["Experience_Full_Time"], w.s_ft)
        supp("initial partner", f["Partner_Indicator"], np.stack([1 - w.s_partner, w.s_partner], 1))
        _all(o, "type has positive share", w.p["shares"][f["Type"].to_numpy()] > 0, info)


# ---- the same contracts on many more worlds: simulation from an arbitrary solution
class _Supplied:
    """The partial interface takes the solution from the caller, so any value functions
    can be simulated; without the solver a world costs a fraction of a second."""

    target = f"{SIM}.partiable_simulate"
    n_random = 8
    weight = 2.5

    def make(self, g, case):
        kw = {k: v for k, v in case.items() if k != "biased"}
        if "T" not in kw and "educ_years" not in kw:
            kw["T"] = int(g.rng.choice([1, 2, 3, 4, 5, 7]))
        kw.setdefault("NT", int(g.rng.choice([1, 2, 3, 4])))
        kw.setdefault("N", int(g.rng.choice([1, 3, 7, 8])))  # few array shapes: each one is compiled
        inp = _mk(g, **kw)
        w, r = inp.w, g.rng
        shape = (w.T, 3, 3, w.NT, w.A + 2, 2)
        # values of the size of flow utilities, so that all choices occur
        inp.V = -r.uniform(0.2, 2.0) * r.random(shape + (len(w.grid), 4))
        if r.random() < 0.2:
            inp.V[..., :3] = inp.V[..., :1]  # equal continuation values
        elif r.random() < 0.25:
            # continuation values next to which flow utilities vanish: choices tie exactly
            inp.V[..., :3] = -(2.0 ** r.integers(60, 62, shape + (1, 3)))
        inp.F = r.uniform(0.4, 1.6, shape + (3,))
        if r.random() < 0.2:
            # hardly anything to choose: values that differ by very little, but differ
            inp.V[..., :3] = inp.V[..., :1]
            inp.F *= 10.0 ** -r.uniform(5, 9)
        return inp

    def solution(self, inp, case):
        return inp.V, lambda t, e, l, ty, a, m: inp.F[t, e, l, ty, a + 1, m]

    def call(self, fns, inp, case):
        w = inp.w
        K = w.A + 2
        df, _ = fns("soepy.pre_processing.model_processing.read_model_params_init")(w.params)
        ms = fns("soepy.pre_processing.model_processing.read_model_spec_init")(w.spec, df)
        ex = "soepy.exogenous_processes."
        states, indexer, cov, rule, _ = fns("soepy.solve.create_state_space.create_state_space_objects")(ms)
        ids = look_up(indexer, w.T, w.NT, K)
        emaxs, ncu = np.full((len(states), len(w.grid), 4), np.nan), np.full((len(states), 3), np.nan)
        emaxs[ids], ncu[ids] = inp.V, inp.F
        np.random.seed(99)
        return fns(f"{SIM}.partiable_simulate")(
            solve_func=lambda params: (ncu, emaxs), states=states, indexer=indexer, covariates=cov, child_age_update_rule=rule,
            prob_educ_level=fns(ex + "education.gen_prob_educ_level_vector")(ms),
            prob_child_age=fns(ex + "children.gen_prob_child_init_age_vector")(ms),
            prob_partner_present=fns(ex + "partner.gen_prob_partner_present_vector")(ms),
            prob_exp_years=fns(ex + "experience.gen_prob_init_exp_years_vector")(ms),
            prob_exp_pt=fns(ex + "experience.gen_prob_init_exp_component_vector")(ms, ms.pt_exp_shares_file_name),
            prob_exp_ft=fns(ex + "experience.gen_prob_init_exp_component_vector")(ms, ms.ft_exp_shares_file_name),
            prob_child=fns(ex + "children.gen_prob_child_vector")(ms), prob_partner=fns(ex + "partner.gen_prob_partner")(ms),
            model_spec_init_file_name=w.spec, model_params_init_file_name=w.params, data_sparse=False,
        )


@register
class SuppliedValues(_Supplied, PanelValues):
    name = "pipe.supplied_values"
    cases = [dict(regime="elterngeld"), dict(regime="erziehungsgeld"),
             dict(regime="elterngeld", tt=dict(child_care_costs={"under_3": [2000.0, 3000.0], "3_to_6": [1500.0, 4000.0]})),
             dict(regime="erziehungsgeld", N=1)]
    solution = _Supplied.solution


@register
class SuppliedMotion(_Supplied, PanelMotion):
    name = "pipe.supplied_motion"
    cases = [dict(degenerate=True), dict(degenerate=False), dict(degenerate=True, A=1), dict(degenerate=True, A=2),
             dict(degenerate=True, N=1), dict(degenerate=False, T=5, L=1)]


@register
class SuppliedEntry(_Supplied, PanelEntry):
    name = "pipe.supplied_entry"
    cases = [dict(degenerate=True), dict(degenerate=False), dict(degenerate=False, M0=0), dict(degenerate=False, N=2), dict(degenerate=False, M0=3)]


def same_frame(o, name, a, b, exact=True):
    import pandas as pd

    o.n += 1
    try:
        if exact:
            pd.testing.assert_frame_equal(a, b, check_exact=True)
        else:
            pd.testing.assert_frame_equal(a, b, check_exact=False, rtol=1e-9)
    except AssertionError as e:
        from engine.conc import Violation

        raise Violation(name, str(e)[:500])


@register
class Reproducible(_Pipe):
    """C20"""

    name = "pipe.reproducible"
    public = True
    target = f"{SIM}.simulate"
    cases = [dict(method="monte_carlo", degenerate=False), dict(method="quadrature", degenerate=False)]
    n_random = 2

    def make(self, g, case):
        inp = _mk(g, N=40, T=int(g.rng.integers(2, 4)), A=2, NT=2, **case)
        from .world import World

        inp.other = World(g.rng, T=2, A=1, N=30)
        return inp

    def call(self, fns, inp, case):
        f = fns(self.target)
        w = inp.w
        p0, s0 = w.params.copy(deep=True), copy.deepcopy(w.spec)
        np.random.seed(5)
        a = f(w.params, w.spec)
        keep = a.copy(deep=True)
        mid = (w.params.copy(deep=True), copy.deepcopy(w.spec))
        np.random.rand(17)
        f(inp.other.params, inp.other.spec, biased_exp=False)
        np.random.seed(123456)
        b = f(w.params, w.spec)
        spec2 = copy.deepcopy(s0)
        spec2["SOLUTION"]["seed_emax"] += 1
        c = f(w.params, spec2)
        spec3 = copy.deepcopy(s0)
        spec3["SIMULATION"]["seed_sim"] += 1
        d = f(w.params, spec3)
        # from files: parameter pickle and specification file
        import os

        import yaml

        pf, sf = os.path.join(w.dir, "params.pkl"), os.path.join(w.dir, "spec.yml")
        p0.to_pickle(pf)
        with open(sf, "w") as fh:
            yaml.dump(s0, fh)
        e = f(pf, sf)
        return p0, s0, mid, keep, a, b, c, d, e

    def post(self, o, inp, res, case):
        p0, s0, mid, keep, a, b, c, d, e = res
        w = inp.w
        same_frame(o, "the parameter frame passed in is not modified", mid[0], p0)
        same_frame(o, "the parameter frame passed in is not modified", w.params, p0)
        o.check("the specification passed in is not modified", mid[1] == s0 and w.spec == s0)
        same_frame(o, "running the simulation twice gives identical panels", a, b)
        same_frame(o, "a panel is not changed by later simulations", a, keep)
        same_frame(o, "reading the same inputs from files gives the same panel", a, e, exact=False)
        init = ["Education_Level", "Lagged_Choice", "Experience_Stock", "Type", "Age_Youngest_Child", "Partner_Indicator"]
        fst = lambda x: x.reset_index().sort_values("Period").groupby("Identifier").first()[init]
        same_frame(o, "the simulation seed alone determines initial conditions", fst(a), fst(c))
        o.check("another simulation seed gives another panel", not (len(a) == len(d) and np.allclose(np.nan_to_num(a["Wage_Observed"].to_numpy()), np.nan_to_num(d["Wage_Observed"].to_numpy()))))


@register
class EntryPoints(_Pipe):
    """C21, C22 (reduced panel)"""

    name = "pipe.entry_points"
    public = True
    target = f"{SIM}.get_simulate_func"
    cases = [dict(biased=True), dict(biased=False)]
    n_random = 2

    def make(self, g, case):
        inp = _mk(g, N=50, T=int(g.rng.integers(2, 5)), NT=2, A=2)
        p2 = inp.w.params.copy(deep=True)
        p2.loc[("const_wage_eq", "gamma_0_low"), "value"] += 0.3
        p2.loc[("discount", "delta"), "value"] *= 0.9
        p2.loc[("sd_wage_shock", "sigma"), "value"] *= 1.3
        p2.loc[("hetrg_unobs", "theta_f1"), "value"] -= 0.2
        p2.loc[("exp_increase_p", "gamma_p_high"), "value"] *= 0.8
        p2.loc[("shares", "share_1"), "value"] *= 0.7
        inp.p2 = p2
        return inp

    def call(self, fns, inp, case):
        w, b = inp.w, case["biased"]
        sim, gsf, part = (fns(f"{SIM}.{n}") for n in ("simulate", "get_simulate_func", "partiable_simulate"))
        direct = sim(w.params, w.spec, biased_exp=b)
        direct2 = sim(inp.p2, w.spec, biased_exp=b)
        sparse = sim(w.params, w.spec, biased_exp=b, data_sparse=True)
        f = gsf(w.params, w.spec, biased_exp=b)
        r1, r2, r3 = f(w.params, w.spec), f(inp.p2, w.spec), f(w.params, w.spec)
        g = gsf(w.params, w.spec, biased_exp=b, data_sparse=True)
        s1 = g(w.params, w.spec)
        B = build(fns, w, b)
        ex = "soepy.exogenous_processes."
        ms = B["ms"]
        pargs = dict(
            solve_func=B["solve"], states=B["states"], indexer=B["indexer"], covariates=B["cov"],
            child_age_update_rule=B["rule"], prob_educ_level=fns(ex + "education.gen_prob_educ_level_vector")(ms),
            prob_child_age=fns(ex + "children.gen_prob_child_init_age_vector")(ms),
            prob_partner_present=fns(ex + "partner.gen_prob_partner_present_vector")(ms),
            prob_exp_years=fns(ex + "experience.gen_prob_init_exp_years_vector")(ms),
            prob_exp_pt=fns(ex + "experience.gen_prob_init_exp_component_vector")(ms, ms.pt_exp_shares_file_name),
            prob_exp_ft=fns(ex + "experience.gen_prob_init_exp_component_vector")(ms, ms.ft_exp_shares_file_name),
            prob_child=B["prob_child"], prob_partner=B["prob_partner"],
            model_spec_init_file_name=w.spec,
        )
        q1 = part(data_sparse=False, model_params_init_file_name=w.params, **pargs)
        q2 = part(data_sparse=False, model_params_init_file_name=inp.p2, **pargs)
        qs = part(data_sparse=True, model_params_init_file_name=w.params, **pargs)
        other = sim(w.params, w.spec, biased_exp=not b)
        return direct, direct2, sparse, r1, r2, r3, s1, q1, q2, qs, other

    def post(self, o, inp, res, case):
        direct, direct2, sparse, r1, r2, r3, s1, q1, q2, qs, other = res
        same_frame(o, "direct and prepared simulation agree", direct, r1)
        same_frame(o, "a prepared function follows other parameters", direct2, r2)
        same_frame(o, "a prepared function carries nothing over", r1, r3)
        same_frame(o, "direct and partial interface agree", direct, q1)
        same_frame(o, "direct and partial interface agree (other parameters)", direct2, q2)
        same_frame(o, "reduced panels agree (prepared)", sparse, s1)
        same_frame(o, "reduced panels agree (partial)", sparse, qs)
        cols = list(sparse.columns)
        o.check("reduced panel has the panel's rows and columns", set(cols) <= set(direct.columns) and sparse.index.equals(direct.index))
        for c in ("Choice", "Wage_Observed", "Education_Level", "Lagged_Choice", "Experience_Stock", "Type", "Age_Youngest_Child", "Partner_Indicator"):
            o.check(f"reduced panel keeps {c}", c in cols)
        for c in cols:
            _close(o, f"reduced panel equals the full panel in {c}", sparse[c].to_numpy(dtype=float), direct[c].to_numpy(dtype=float), rtol=1e-12, atol=0)
        # beliefs only change the solution
        d, e = direct.reset_index(), other.reset_index()
        fd, fe = (x.sort_values(["Identifier", "Period"]).groupby("Identifier").first() for x in (d, e))
        init = ["Period", "Education_Level", "Lagged_Choice", "Experience_Stock", "Type", "Age_Youngest_Child", "Partner_Indicator", "Male_Wages"]
        same_frame(o, "beliefs do not change initial conditions", fd[init], fe[init])
        p, w, ref = inp.w.p, inp.w, inp.ref
        draws = np.random.RandomState(w.seed_sim).normal(0, 1, (w.T, w.N)) * p["sd"]
        for x in (d, e):
            for t in range(w.T):
                y = x[x["Period"] == t]
                wk = (y["Choice"] > 0).to_numpy()
                ed, a, s = (y[c].to_numpy() for c in ("Education_Level", "Age_Youngest_Child", "Experience_Stock"))
                wg = w.scale * np.exp(ref.log_wage(s, t, ref.inc(ed, a, False), ed) + draws[t, : len(y)])
                _close(o, "wages follow the unbiased law of motion with the same shocks under both beliefs", y["Wage_Observed"].to_numpy(dtype=float)[wk], wg[wk], rtol=1e-6)
            z = x.set_index(["Identifier", "Period"])
            for t in range(w.T - 1):
                b0 = x[x["Period"] == t].set_index("Identifier")
                b1 = x[x["Period"] == t + 1].set_index("Identifier").loc[b0.index]
                if len(b0):
                    want = ref.next_stock(b0["Experience_Stock"].to_numpy(), t, ref.inc(b0["Education_Level"].to_numpy(), b0["Age_Youngest_Child"].to_numpy(), False), b0["Choice"].to_numpy())
                    _close(o, "realised experience follows the unbiased law of motion under both beliefs", b1["Experience_Stock"], want, rtol=1e-6)


@register
class Reuse(_Pipe):
    """C20, C21: what ran before does not matter.

    A prepared function is called with one group of parameters changed after the other; a fresh interpreter
    simulates the same parameters (and the specification with one entry changed) in the reverse order."""

    name = "pipe.reuse"
    public = True
    target = f"{SIM}.get_simulate_func"
    cases = [dict(part=i) for i in (0, 1, 2)]
    n_random = 1
    GROUPS = ("hetrg_unobs theta_f", "hetrg_unobs theta_p", "disutil_work no_kids", "disutil_work yes_kids", "disutil_work child_", "risk mu",
              "exp_return", "const_wage_eq", "exp_increase_p ", "exp_increase_p_mom", "shares", "sd_wage_shock", "discount")
    SPEC = (("TAXES_TRANSFERS", "tax_splitting", lambda v: not v), ("SIMULATION", "seed_sim", lambda v: v + 1),
            ("SIMULATION", "num_agents_sim", lambda v: v - 7), ("TAXES_TRANSFERS", "regelsatz_single", lambda v: v * 0.5),
            ("SOLUTION", "num_draws_emax", lambda v: v + 1))

    def make(self, g, case):
        inp = _mk(g, N=40, T=2, NT=2, A=2, A0=1, educ_years=[0, 1, 0], degenerate=False)
        rows = ["%s %s" % ix for ix in inp.w.params.index]
        inp.runs = [(inp.w.params, inp.w.spec)]
        for k, grp in enumerate(self.GROUPS):
            if k % 3 != case["part"]:
                continue
            q = inp.w.params.copy(deep=True)
            sel = np.array([r.startswith(grp) for r in rows])
            assert sel.any(), grp
            q.loc[sel, "value"] = q.loc[sel, "value"] * 0.8 - (0.05 if grp.split()[0] in ("hetrg_unobs", "disutil_work") else 0.0)
            inp.runs.append((q, inp.w.spec))
        inp.prepared = len(inp.runs)
        for k, (a, b, f) in enumerate(self.SPEC):
            if k % 3 == case["part"]:
                sp = copy.deepcopy(inp.w.spec)
                sp[a][b] = f(sp[a][b])
                inp.runs.append((inp.w.params, sp))
        return inp

    def call(self, fns, inp, case):
        import os
        import pickle
        import subprocess
        import sys

        f, sim = fns(f"{SIM}.get_simulate_func")(inp.w.params, inp.w.spec), fns(f"{SIM}.simulate")
        here = [f(*r) for r in inp.runs[: inp.prepared]] + [sim(*r) for r in inp.runs[inp.prepared :]]
        again = f(*inp.runs[0])
        job = os.path.join(inp.w.dir, "runs.pkl")
        with open(job, "wb") as fh:
            pickle.dump(inp.runs, fh)
        import soepy

        root = os.path.dirname(os.path.dirname(os.path.abspath(soepy.__file__)))
        code = (
            "import sys, pickle, importlib, warnings; warnings.filterwarnings('ignore'); sys.path.insert(0, %r)\n"
            "import jax; jax.config.update('jax_enable_x64', True)\n"
            "sim = importlib.import_module(%r).simulate\n"
            "runs = pickle.load(open(%r, 'rb'))\n"
            "pickle.dump([sim(*r) for r in reversed(runs)][::-1], open(%r, 'wb'))\n" % (root, SIM, job, job + ".out"))
        p = subprocess.run([sys.executable, "-c", code], cwd=inp.w.dir, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(p.stderr[-800:])
        with open(job + ".out", "rb") as fh:
            there = pickle.load(fh)
        return here, again, there

    def post(self, o, inp, res, case):
        here, again, there = res
        same_frame(o, "a prepared function carries nothing over", here[0], again)
        for a, b in zip(here, there):
            same_frame(o, "the panel depends on parameters and specification only, not on what ran before", a, b, exact=False)


# ------------------------------------------------------------------ consistency of both sides
@register
class Timing(_Pipe):
    """C24: the row of each exogenous table that moves period t to t+1 in the solution and in the simulation.

    One row of one table is switched on; the latest period whose solved value reacts and
    the period out of which simulated agents move must be the same.
    """

    name = "pipe.timing"
    public = True
    target = f"{SIM}.simulate"
    cases = [dict(table=t, row=k, biased=b) for t, b in (("births", False), ("arrival", True), ("separation", False)) for k in (1, 2)]
    n_random = 1
    weight = 2.0

    def make(self, g, case):
        T, k = 5, case["row"]
        on = np.zeros((T, 3))
        on[k] = 1.0
        zero = np.zeros((T, 3))

        def world(tab):
            from .world import World

            return World(np.random.default_rng(seed), T=T, L=T, A=3, A0=0, M0=1, NT=1, N=60, nd=1, n_grid=3, educ_years=[0, 0, 0],
                         degenerate=False, scale=None, tables={"partner": [0.5, 0.4, 0.6], "births": tab if case["table"] == "births" else zero,
                                 "arrival": tab if case["table"] == "arrival" else zero,
                                 "separation": tab if case["table"] == "separation" else zero})

        seed = int(g.rng.integers(1, 10**6))
        g._log("seed", seed)
        return g.ns(on=world(on), off=world(zero))

    def call(self, fns, inp, case):
        out = []
        for w in (inp.on, inp.off):
            b = build(fns, w, case["biased"])
            V = np.asarray(b["solve"](b["mp"])[1])
            st = np.asarray(b["states"])
            out.append((V, st))
        df = fns(self.target)(inp.on.params, inp.on.spec, biased_exp=case["biased"]).reset_index()
        return out, df

    def post(self, o, inp, res, case):
        ((V1, st), (V0, _)), df = res
        k = case["row"]
        moved = np.abs(V1 - V0).max(axis=(1, 2)) > 1e-12
        t_sol = int(st[moved, 0].max()) if moved.any() else None
        col = "Age_Youngest_Child" if case["table"] == "births" else "Partner_Indicator"
        t_sim = set()
        for t in range(4):
            x = df[df["Period"] == t].set_index("Identifier")[col]
            y = df[df["Period"] == t + 1].set_index("Identifier")[col].loc[x.index]
            hit = (y == 0) if case["table"] == "births" else (y != x)
            if case["table"] == "births":
                hit &= x != 0  # a child of age zero cannot have aged
                hit |= (x == 0) & (y == 0)
            if hit.any():
                t_sim.add(t)
        sim = "never" if not t_sim else ",".join(f"row{k - t:+d}" for t in sorted(t_sim))
        sol = "never" if t_sol is None else f"row{k - t_sol:+d}"
        o.n += 1
        if sim != sol:
            from engine.conc import Violation

            raise Violation(f"{case['table']}: period t uses table {sol.replace('row', 't')} in the solution, {sim.replace('row', 't')} in the simulation", f"row {k} switched on")
