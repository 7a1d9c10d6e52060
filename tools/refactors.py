"""Behaviour-preserving edits: every check has to stay quiet on them.

  python3-vt tools/refactors.py [name ...]     (scratch copies under /tmp; /repo is not touched)
"""
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def ref(name, props, *edits):
    R[name] = (props, edits)


SA, SN, SPy = "simulate/simulate_auxiliary.py", "simulate/initial_states.py", "simulate/simulate_python.py"

ref("sim-partner-helper", "C17 C20", (SA, '''        new_partner = partner_indicator.copy()

        no_partner = partner_indicator == 0
        if no_partner.any():
            arr = np.random.binomial(
                size=no_partner.sum(),
                n=1,
                p=prob_partner[period, educ_level[no_partner], 0, 1],
            )
            new_partner[no_partner] = arr

        has_partner = partner_indicator == 1
        if has_partner.any():
            sep = np.random.binomial(
                size=has_partner.sum(),
                n=1,
                p=prob_partner[period, educ_level[has_partner], 1, 0],
            )
            new_partner[has_partner] = partner_indicator[has_partner] - sep
''', '''        new_partner = _next_partner(partner_indicator, educ_level, prob_partner[period])
'''), (SA, '''def _interp_exp_grid(values, stock, exp_grid):''', '''def _next_partner(partner, educ, probs):
    """Draw next period's partner status."""
    out = partner.copy()
    single = partner == 0
    if np.any(single):
        out[single] = np.random.binomial(1, probs[educ[single], 0, 1], size=np.sum(single))
    couple = ~single
    if np.any(couple):
        leaves = np.random.binomial(1, probs[educ[couple], 1, 0], size=np.sum(couple))
        out[couple] = 1 - leaves
    return out


def _interp_exp_grid(values, stock, exp_grid):'''))

ref("sim-names", "C16 C17 C19 C22", (SA, "re:current_states", "alive"), (SA, "re:\\bdata\\b(?!\\.astype|\\[|\\.loc)", "data"),
    (SA, "re:data_list", "tables"))

ref("sim-entry-mask", "C19 C22", (SA, '''        if period <= max_entry_year:
            entrants = initial_states.loc[initial_states.Period.eq(period), :]
            current_states = pd.concat([current_states, entrants], ignore_index=True)
''', '''        entrants = initial_states[initial_states["Period"] == period]
        current_states = pd.concat([current_states, entrants], ignore_index=True)
'''))

ref("sim-experience-columns", "C17", (SA, '''        current_states.iloc[:, state_col["Experience_Part_Time"]] = np.where(
            choice == 1,
            current_states.iloc[:, state_col["Experience_Part_Time"]] + 1,
            current_states.iloc[:, state_col["Experience_Part_Time"]],
        )
        current_states.iloc[:, state_col["Experience_Full_Time"]] = np.where(
            choice == 2,
            current_states.iloc[:, state_col["Experience_Full_Time"]] + 1,
            current_states.iloc[:, state_col["Experience_Full_Time"]],
        )

        current_states.iloc[:, state_col["Period"]] = (
            current_states.iloc[:, state_col["Period"]] + 1
        )
''', '''        current_states["Experience_Part_Time"] += (choice == 1).astype(int)
        current_states["Experience_Full_Time"] += (choice == 2).astype(int)
        current_states["Period"] = period + 1
'''))

ref("sim-child-reordered", "C17", (SA, '''        if period == model_spec.num_periods - 1:
            child_new_age = child_current_age
        elif period <= model_spec.last_child_bearing_period:
            kids_draw = np.random.binomial(
                size=len(current_states),
                n=1,
                p=prob_child[period + 1, educ_level],
            )
            child_new_age = np.where(kids_draw == 0, child_age_update_rule[idx], 0)
        else:
            child_new_age = child_age_update_rule[idx]
''', '''        last = period >= model_spec.num_periods - 1
        fertile = period < model_spec.last_child_bearing_period + 1
        if last:
            child_new_age = child_current_age
        else:
            child_new_age = child_age_update_rule[idx].copy()
            if fertile:
                births = np.random.binomial(1, prob_child[period + 1][educ_level])
                child_new_age[births == 1] = 0
'''))

ref("sim-values-order", "C16 C18 C22", (SA, '''        flow_utilities = (
            (consumption_resources / equiv_scale[:, None]) ** float(model_params.mu)
            / float(model_params.mu)
            * non_cons_util_agents
        )
''', '''        mu = float(model_params.mu)
        consumption = consumption_resources / equiv_scale[:, None]
        flow_utilities = non_cons_util_agents * (consumption**mu) / mu
'''), (SA, '''        value_functions = (
            flow_utilities + float(model_params.delta) * continuation_values
        )
''', '''        discounted = continuation_values * float(model_params.delta)
        value_functions = discounted + flow_utilities
'''))

ref("sim-interp-weights", "C16 C25", (SA, "    return take_lo + w * (take_hi - take_lo)\n", "    return (1.0 - w) * take_lo + w * take_hi\n"))

ref("sim-care-where", "C18 C24", (SA, '''    child_bins = child_bins.copy()
    child_bins[child_bins > 2] = 0

    child_costs = np.zeros((child_bins.shape[0], 2))
    for choice in range(2):
        for age_bin in range(1, 3):
            child_costs[child_bins == age_bin, choice] = child_care_costs[
                age_bin, choice
            ]
    return child_costs''', '''    costs = np.asarray(child_care_costs)
    small = np.where(child_bins > 2, 0, child_bins).astype(int)
    out = costs[small]
    out = np.where((small > 0)[:, None], out, 0.0)
    return out'''))

ref("assemble-wage-where", "C22 C20", (SA, '''    choice_arr = data["Choice"].to_numpy()
    data.loc[choice_arr == 0, "Wage_Observed"] = np.nan
''', '''    works = data["Choice"] != 0
    data["Wage_Observed"] = data["Wage_Observed"].where(works)
'''))

ref("entry-helper", "C21 C20 C22", (SPy, '''        df = pyth_simulate(
            model_params=model_params_inner,
            model_spec=model_spec_inner,''', '''        kwargs = dict(biased_exp=False, data_sparse=data_sparse)
        df = pyth_simulate(
            model_params=model_params_inner,
            model_spec=model_spec_inner,'''), (SPy, '''            prob_partner=prob_partner,
            biased_exp=False,
            data_sparse=data_sparse,
        ).set_index(["Identifier", "Period"])

        return df

    return simulate_func''', '''            prob_partner=prob_partner,
            **kwargs,
        )

        return df.set_index(["Identifier", "Period"])

    return simulate_func'''))

ref("initial-draw-helper", "C19 C20", (SN, '''    for educ_level in range(model_spec.num_educ_levels):
        mask = initial_educ_level == educ_level
''', '''    years = list(range(0, model_spec.init_exp_max + 1))
    for educ_level in range(model_spec.num_educ_levels):
        mask = initial_educ_level == educ_level
'''), (SN, '''            list(range(0, model_spec.init_exp_max + 1)),
            mask.sum(),
            p=prob_exp_pt[educ_level],''', '''            years,
            size=int(mask.sum()),
            p=prob_exp_pt[educ_level],'''), (SN, '''    lagged_choice = np.zeros_like(initial_exp_years, dtype=int)
    lagged_choice[initial_exp_years > 1] = 2
    # Check if initial years is a float if so, assign 1 part-time
    int_exp = initial_exp_years.astype(int)
    is_float = np.abs(initial_exp_years - int_exp) > 1e-8
    lagged_choice[is_float] = 1
    return lagged_choice''', '''    fraction = np.abs(initial_exp_years - initial_exp_years.astype(int))
    full = np.where(initial_exp_years > 1, 2, 0)
    return np.where(fraction > 1e-8, 1, full)'''))

ref("emax-unrolled", "C13 C15 C24", ("solve/emaxs.py", '''    for j in range(1, 3):
        female_wage = hours[j] * jnp.exp(log_wage_systematic + draw)
''', '''    wage = jnp.exp(log_wage_systematic + draw)
    for j in (1, 2):
        female_wage = wage * hours[j]
'''), ("solve/emaxs.py", "    return current_max_value_function * draw_weight\n", "    return draw_weight * current_max_value_function\n"),
    ("solve/emaxs.py", "        return weighted.sum(axis=0)\n", "        return jnp.sum(weighted)\n"))

ref("emax-stack", "C13 C15 C24", ("solve/emaxs.py", '''    current_max_value_function = (consumption_0**mu / mu) * non_consumption_utilities[
        0
    ] + delta * continuation_values[0]
''', '''    values = [(consumption_0**mu / mu) * non_consumption_utilities[0] + delta * continuation_values[0]]
'''), ("solve/emaxs.py", '''        current_max_value_function = jnp.maximum(
            current_max_value_function, value_function_choice
        )

    return current_max_value_function * draw_weight
''', '''        values.append(value_function_choice)

    return jnp.max(jnp.stack(values)) * draw_weight
'''))

ref("validation-if", "C13 C15 C24", ("solve/validation_solve.py", '''        eg = calc_erziehungsgeld(
            male_wage,
            female_wage,
            male_wage > 0,
            baby_child,
            erziehungsgeld_inc_single,
            erziehungsgeld_inc_married,
            erziehungsgeld,
        )
        net_income = net_income + jnp.where(j == 1, eg, 0.0)
''', '''        if j == 1:
            threshold = jnp.where(
                male_wage > 0, erziehungsgeld_inc_married, erziehungsgeld_inc_single
            )
            entitled = jnp.logical_and(baby_child, male_wage + female_wage <= threshold)
            net_income = net_income + jnp.where(entitled, erziehungsgeld, 0.0)
'''))

ref("solve-local-names", "C13 C14 C15 C24", ("solve/solve_python.py", '''        prob_child_period_states = prob_child_period[edu_state]
        prob_partner_period_states = prob_partner_period[edu_state, partner_state]
''', '''        prob_partner_period_states = prob_partner_period[edu_state, partner_state, :]
        prob_child_period_states = jnp.take(prob_child_period, edu_state)
'''), ("solve/solve_python.py", '''    emaxs = jnp.flip(emaxs_rev, axis=0).reshape(
        -1, emaxs_rev.shape[2], emaxs_rev.shape[-1]
    )
''', '''    emaxs = emaxs_rev[::-1]
    emaxs = emaxs.reshape(
        -1, emaxs_rev.shape[2], NUM_CHOICES + 1
    )
'''))

ref("solve-grid-loop", "C13 C15", ("solve/solve_python.py", '''        log_wage_systematic_period = jax.vmap(log_wage_one_exp_grid)(exp_grid).T
''', '''        log_wage_systematic_period = jnp.stack(
            [log_wage_one_exp_grid(exp_grid[i]) for i in range(exp_grid_size)], axis=1
        )
'''))

ref("continuation-einsum-free", "C14", ("solve/continuous_continuation.py", '''        prob_no_child = 1.0 - prob_child
        prob_single, prob_partner = prob_partner[0], prob_partner[1]

        return prob_no_child * (
            prob_single * val_no_child_single + prob_partner * val_no_child_partner
        ) + prob_child * (
            prob_single * val_child_single + prob_partner * val_child_partner
        )
''', '''        single = (1.0 - prob_child) * val_no_child_single + prob_child * val_child_single
        partner = (1.0 - prob_child) * val_no_child_partner + prob_child * val_child_partner
        return prob_partner[0] * single + prob_partner[1] * partner
'''))

ref("states-loops", "C08 C09 C10", ("solve/create_state_space.py", '''                        lagged = np.arange(NUM_CHOICES, dtype=np.int32)
                        n = lagged.size
''', '''                        n = NUM_CHOICES
                        lagged = np.arange(n, dtype=np.int32)
'''), ("solve/create_state_space.py", '''    for choice in range(NUM_CHOICES):
        child_indexes[parent_idx, choice, 0, 0] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            update_rule,
            0,
        ]
        child_indexes[parent_idx, choice, 0, 1] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            update_rule,
            1,
        ]

        child_indexes[parent_idx, choice, 1, 0] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            0,
            0,
        ]
        child_indexes[parent_idx, choice, 1, 1] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            0,
            1,
        ]
''', '''    educ_parent, type_parent = educ[parent_idx], type_[parent_idx]
    for choice in range(NUM_CHOICES):
        for birth, age in enumerate((update_rule, 0)):
            for partner_next in range(2):
                child_indexes[parent_idx, choice, birth, partner_next] = indexer[
                    next_period, educ_parent, choice, type_parent, age, partner_next
                ]
'''))

ref("age-rule-where", "C10 C09", ("exogenous_processes/children.py", '''    child_age_update_rule = np.full(states.shape[0], -1, dtype=np.int32)

    has_kid = states[:, AGE_YOUNGEST_CHILD] != -1
    child_age_update_rule[has_kid] = states[has_kid][:, AGE_YOUNGEST_CHILD] + 1

    child_age_update_rule[child_age_update_rule > model_spec.child_age_max] = -1
    return child_age_update_rule
''', '''    age = states[:, AGE_YOUNGEST_CHILD]
    older = np.where(age == -1, -1, age + 1)
    return np.where(older > model_spec.child_age_max, -1, older).astype(np.int32)
'''))

ref("births-loop", "C11", ("exogenous_processes/children.py", '''    prob_child = np.full((model_spec.num_periods, 3), 0.00)
    prob_child[
        0 : min(model_spec.last_child_bearing_period + 1, model_spec.num_periods)
    ] += prob_child_values[
        0 : min(model_spec.last_child_bearing_period + 1, model_spec.num_periods)
    ]
''', '''    fertile = np.arange(model_spec.num_periods) <= model_spec.last_child_bearing_period
    prob_child = np.where(fertile[:, None], prob_child_values, 0.0)
'''))

ref("covariates-digitize", "C10", ("solve/covariates.py", '''    equivalence_scale = np.where(no_child & ~married, 1.0, np.nan)
    equivalence_scale = np.where(no_child & married, 1.5, equivalence_scale)
    equivalence_scale = np.where(~no_child & married, 1.8, equivalence_scale)
    equivalence_scale = np.where(~no_child & ~married, 1.3, equivalence_scale)
''', '''    single = np.where(no_child, 1.0, 1.3)
    equivalence_scale = np.where(married, np.where(no_child, 1.5, 1.8), single)
'''))

ref("tax-horner", "C01 C02", ("shared/tax_and_transfers.py", '''        difference_to_calc = taxable_income - tax_params[0, interval_num]
        tax_rate = (
            tax_params[2, interval_num] * difference_to_calc
            + tax_params[3, interval_num] * difference_to_calc**2
        )
        tax_rate += tax_params[1, interval_num]
''', '''        excess = taxable_income - thresholds[interval_num]
        intercept, linear, quadratic = tax_params[1:, interval_num]
        tax_rate = intercept + excess * (linear + quadratic * excess)
'''), ("shared/tax_and_transfers.py", "    capped_income = min(gross_labor_income, deductions_spec[1])\n\n    ssc_contrib = deductions_spec[0] * capped_income\n\n    return ssc_contrib\n",
        "    rate, cap = deductions_spec\n    if gross_labor_income > cap:\n        return rate * cap\n    return rate * gross_labor_income\n"))

ref("tax-params-loop", "C01 C03", ("pre_processing/tax_and_transfers_params.py", '''    interecepts = np.zeros(rates_linear.shape)
    for i in range(1, 4):
        interecepts[i] = (
            interecepts[i - 1]
            + (thresholds[i] - thresholds[i - 1]) * rates_linear[i - 1]
            + (thresholds[i] - thresholds[i - 1]) ** 2 * rates_quadratic[i - 1]
        )
    return interecepts
''', '''    width = np.diff(thresholds)
    steps = width * rates_linear[:3] + width**2 * rates_quadratic[:3]
    return np.concatenate([np.zeros(1), np.cumsum(steps)])
'''))

ref("benefits-where", "C04 C18 C24", ("shared/non_employment.py", '''    relevant_income = male_wage + female_income
    inc_threshold = erziehungsgeld_inc_married * married + erziehungsgeld_inc_single * (
        1 - married
    )
    erz_geld_claim = (relevant_income <= inc_threshold) & baby_child
    return erz_geld_claim * erziehungsgeld
''', '''    limit = jnp.where(married, erziehungsgeld_inc_married, erziehungsgeld_inc_single)
    return jnp.where(baby_child & (male_wage + female_income <= limit), erziehungsgeld, 0.0)
'''), ("shared/non_employment.py", '''    alg2_claim = no_child * alg2_single + (1 - no_child) * alg_2_alleinerziehend
    return alg2_claim * (1 - married)
''', '''    claim = jnp.where(no_child, alg2_single, alg_2_alleinerziehend)
    return jnp.where(married, 0.0, claim)
'''), ("shared/non_employment.py", '''        last_working_non_employment_benefits = (
            1 - newborn_child
        ) * alg1 + newborn_child * elterngeld
        non_employment_benefits = last_working_non_employment_benefits.clip(min=alg2)
''', '''        last_working = jnp.where(newborn_child, elterngeld, alg1)
        non_employment_benefits = jnp.maximum(last_working, alg2)
'''))

ref("experience-algebra", "C05 C14 C17 C19", ("shared/experience_stock.py", "    return init_exp_max + jnp.maximum(period, period * pt_increment)\n",
    "    per_year = jnp.maximum(1.0, pt_increment)\n    return period * per_year + init_exp_max\n"),
    ("shared/experience_stock.py", '''    inc_pt = (choice == 1) * pt_increment
    inc_ft = (choice == 2) * 1.0
    return exp_years + inc_pt + inc_ft
''', '''    gain = jnp.where(choice == 2, 1.0, jnp.where(choice == 1, pt_increment, 0.0))
    return gain + exp_years
'''), ("shared/experience_stock.py", '''    base = model_params.gamma_p[educ_level]
    little_child = (child_age >= 0) & (child_age <= 2)

    return base + little_child * model_params.gamma_p_mom
''', '''    mother = (child_age > -1) & (child_age < 3)
    return model_params.gamma_p[educ_level] + jnp.where(mother, model_params.gamma_p_mom, 0.0)
'''))

ref("utility-helper", "C07 C13", ("shared/non_consumption_utility.py", '''    util_ft += (
        b0 * no_kids_f
        + b1 * (yes_kids_f + model_params.child_0_2_f)
        + b2 * (yes_kids_f + model_params.child_3_5_f)
        + b3 * (yes_kids_f + model_params.child_6_10_f)
        + b4 * yes_kids_f
    )
''', '''    extra = b1 * model_params.child_0_2_f + b2 * model_params.child_3_5_f + b3 * model_params.child_6_10_f
    util_ft = util_ft + jnp.where(b0, no_kids_f, yes_kids_f) + extra
'''))

ref("quadrature-scale", "C12", ("shared/numerical_integration.py", '''        draws_emax = standard_draws * np.sqrt(2)
        draw_weights_emax *= 1 / np.sqrt(np.pi)
''', '''        draws_emax = np.sqrt(2) * standard_draws
        draw_weights_emax = draw_weights_emax / np.sqrt(np.pi)
'''), ("shared/numerical_integration.py", '''        draw_weights_emax = (
            np.ones(model_spec.num_draws_emax) / model_spec.num_draws_emax
        )
''', '''        draw_weights_emax = np.full(model_spec.num_draws_emax, 1.0 / model_spec.num_draws_emax)
'''), ("shared/numerical_integration.py", '''    np.random.seed(seed)

    mean = 0

    # Create draws from the standard normal distribution
    draws = np.random.normal(mean, 1, (num_periods, num_draws))

    return draws''', '''    np.random.seed(seed)
    return np.random.normal(loc=0.0, scale=1.0, size=(num_periods, num_draws))'''))

ref("spec-update", "C03 C23 C20", ("pre_processing/model_processing.py", '''        keys_ = list(model_spec_dict[group].keys())
        values_ = list(model_spec_dict[group].values())

        for k_, key_ in enumerate(keys_):
            model_spec_dict_flat[key_] = values_[k_]
''', '''        for key, value in model_spec_dict[group].items():
            model_spec_dict_flat[key] = value
'''), ("pre_processing/model_processing.py", '''    if "elasticity_scale" not in model_spec_init_dict["SIMULATION"].keys():
        model_spec_init_dict["SIMULATION"]["elasticity_scale"] = 1
''', '''    model_spec_init_dict["SIMULATION"].setdefault("elasticity_scale", 1)
'''))

ref("params-loop", "C23", ("pre_processing/model_processing.py", '''    for i in ["no", "yes"]:
        for j in ["f", "p"]:

            model_params_dict_flat[i + "_kids_" + j] = np.array(
                [
                    model_params_dict_expanded["disutil_work"][
                        i + "_kids_" + j + "_educ_low"
                    ],
                    model_params_dict_expanded["disutil_work"][
                        i + "_kids_" + j + "_educ_middle"
                    ],
                    model_params_dict_expanded["disutil_work"][
                        i + "_kids_" + j + "_educ_high"
                    ],
                ],
                dtype=float,
            )
''', '''    disutil = model_params_dict_expanded["disutil_work"]
    for i in ["no", "yes"]:
        for j in ["f", "p"]:
            stem = f"{i}_kids_{j}"
            model_params_dict_flat[stem] = np.array(
                [disutil[f"{stem}_educ_{e}"] for e in ("low", "middle", "high")], dtype=float
            )
'''))

ref("interp-weights", "C25 C14", ("shared/interpolation.py", '''    denom = x_hi - x_lo
    zero = jnp.zeros_like(x)
    weight = jnp.where(denom > 0, (x - x_lo) / denom, zero)

    return v_lo + weight * (v_hi - v_lo)
''', '''    slope = (v_hi - v_lo) / (x_hi - x_lo)
    return v_lo + slope * (x - x_lo)
'''))

ref("partner-loop", "C11", ("exogenous_processes/partner.py", '''    prob_mat[:, :, 0, 0] = 1 - prob_mat[:, :, 0, 1]
''', '''    for period in range(model_spec.num_periods):
        prob_mat[period, :, 0, 0] = 1 - prob_mat[period, :, 0, 1]
'''))

ref("shares-query", "C11 C19", ("exogenous_processes/experience.py", '''        exp_shares_list = exp_shares[
            exp_shares.index.get_level_values("educ_level") == educ_level
        ]["exper_shares"].to_list()
        exp_shares_list[0] = 1 - sum(exp_shares_list[1:])
        init_exp.append(exp_shares_list)
''', '''        rows = exp_shares.index.get_level_values("educ_level") == educ_level
        shares = exp_shares.loc[rows, "exper_shares"].to_list()
        init_exp.append([1 - sum(shares[1:]), *shares[1:]])
'''))


NE, EX, CC = "shared/non_employment.py", "solve/emaxs.py", "solve/continuous_continuation.py"
SO, WA, MP, PA = "solve/solve_python.py", "shared/wages.py", "pre_processing/model_processing.py", "exogenous_processes/partner.py"

ref("sim-budget-helper", "C18 C16 C24", (SA, '''        employment_resources = employment_resources + child_benefits[:, None]

        child_care_costs = get_child_care_cost_for_choice(
            covariates[idx][:, 0].astype(float), model_spec.child_care_costs
        )
        employment_resources = employment_resources - child_care_costs
''', '''        employment_resources = _add_child_items(
            employment_resources, covariates[idx], model_spec.child_care_costs
        )
'''), (SA, '''def _interp_exp_grid(values, stock, exp_grid):''', '''def _add_child_items(resources, household, care_costs):
    "Child benefit and child care costs of working women."
    bins = household[:, 0].astype(float)
    costs = get_child_care_cost_for_choice(bins, care_costs)
    return resources + (household[:, 3][:, None] - costs)


def _interp_exp_grid(values, stock, exp_grid):'''))

ref("sim-covariates-once", "C18 C16", (SA, '''        male_wage = covariates[idx][:, 1]
        child_benefits = covariates[idx][:, 3]
        equiv_scale = covariates[idx][:, 2]
''', '''        covariates_agents = covariates[idx]
        male_wage = covariates_agents[:, 1]
        equiv_scale = covariates_agents[:, 2]
        child_benefits = covariates_agents[:, 3]
'''), (SA, "            covariates[idx][:, 0].astype(float), model", "            covariates_agents[:, 0].astype(float), model"))

ref("sim-lookup-helper", "C16 C17", (SA, '''        idx = indexer[
            current_states.iloc[:, state_col["Period"]].to_numpy(),
            educ_level,
            current_states.iloc[:, state_col["Lagged_Choice"]].to_numpy(),
            current_states.iloc[:, state_col["Type"]].to_numpy(),
            age_idx,
            partner_indicator,
        ]
''', '''        idx = _state_numbers(indexer, current_states)
'''), (SA, '''        age_idx = np.where(
            age_child == -1,
            indexer.shape[4] - 1,
            age_child,
        )

''', ""), (SA, '''def _interp_exp_grid(values, stock, exp_grid):''', '''def _state_numbers(indexer, agents):
    "Numbers of the agents' discrete states."
    age = agents["Age_Youngest_Child"].to_numpy()
    return indexer[
        agents["Period"].to_numpy(),
        agents["Education_Level"].to_numpy(),
        agents["Lagged_Choice"].to_numpy(),
        agents["Type"].to_numpy(),
        np.where(age < 0, indexer.shape[4] - 1, age),
        agents["Partner_Indicator"].to_numpy(),
    ]


def _interp_exp_grid(values, stock, exp_grid):'''))

ref("sim-child-helper", "C17 C20", (SA, '''        child_current_age = age_child

        if period == model_spec.num_periods - 1:
            child_new_age = child_current_age
        elif period <= model_spec.last_child_bearing_period:
            kids_draw = np.random.binomial(
                size=len(current_states),
                n=1,
                p=prob_child[period + 1, educ_level],
            )
            child_new_age = np.where(kids_draw == 0, child_age_update_rule[idx], 0)
        else:
            child_new_age = child_age_update_rule[idx]
''', '''        child_new_age = age_child
        if period < model_spec.num_periods - 1:
            child_new_age = child_age_update_rule[idx]
            if period <= model_spec.last_child_bearing_period:
                birth = np.random.binomial(1, prob_child[period + 1, educ_level])
                child_new_age = np.where(birth == 1, 0, child_new_age)
'''))

ref("sim-np-clip", "C18 C16 C22", (SA, '''        consumption_resources = np.hstack(
            (non_emp_resources_agents[:, None], employment_resources)
        )
        consumption_resources = consumption_resources.clip(min=np.finfo(float).eps)
''', '''        consumption_resources = np.maximum(
            np.column_stack([non_emp_resources_agents, employment_resources]),
            np.finfo(float).eps,
        )
'''), (SA, "        choice = np.argmax(value_functions, axis=1)", "        choice = value_functions.argmax(axis=1)"))

ref("sim-erz-inline", "C18 C24", (SA, '''            married = partner_indicator == 1
            baby_child = (age_child == 0) | (age_child == 1)

            erz = calc_erziehungsgeld(
                male_wage=male_wage,
                female_income=female_income[:, 0],
                married=married,
                baby_child=baby_child,
''', '''            erz = calc_erziehungsgeld(
                male_wage=male_wage,
                female_income=wages * HOURS[1],
                married=partner_indicator > 0,
                baby_child=np.isin(age_child, [0, 1]),
'''), (SA, "            employment_resources[:, 0] = employment_resources[:, 0] + erz", "            employment_resources[:, 0] += np.asarray(erz)"))

ref("sim-table-assign", "C22 C16 C18", (SA, '''        if data_sparse:
            this_period_df = current_states.copy()
            this_period_df["Choice"] = choice
            this_period_df["Wage_Observed"] = wages
        else:
            this_period_df = current_states.copy()
            this_period_df["Choice"] = choice
            this_period_df["Wage_Observed"] = wages
            this_period_df["Male_Wages"] = male_wage
            for i, append in enumerate(["N", "P", "F"]):
''', '''        this_period_df = current_states.copy()
        this_period_df["Choice"] = choice
        this_period_df["Wage_Observed"] = wages
        if not data_sparse:
            this_period_df["Male_Wages"] = male_wage
            for i, append in enumerate("NPF"):
'''))

ref("sim-wage-scale", "C18 C22", (SA, '''        wages = np.exp(log_wage_agents + draws_sim[period, : len(current_states)])
        wages = wages * float(model_spec.elasticity_scale)

        female_income = wages[:, None] * HOURS[None, 1:]
''', '''        n_agents = current_states.shape[0]
        shocks = draws_sim[period][:n_agents]
        wages = float(model_spec.elasticity_scale) * np.exp(log_wage_agents) * np.exp(shocks)

        female_income = np.stack([wages * HOURS[1], wages * HOURS[2]], axis=1)
'''))

ref("initial-frame", "C19 C20", (SN, '''    initial_child_age = np.full(model_spec.num_agents_sim, np.nan)
    initial_partner = np.full(model_spec.num_agents_sim, np.nan)
    initial_exp_pt = np.full(model_spec.num_agents_sim, np.nan)
    initial_exp_ft = np.full(model_spec.num_agents_sim, np.nan)
''', '''    initial_child_age, initial_partner, initial_exp_pt, initial_exp_ft = (
        np.zeros(model_spec.num_agents_sim) for _ in range(4)
    )
'''), (SN, '''            list(range(-1, model_spec.child_age_init_max + 1)),
''', '''            np.arange(-1, model_spec.child_age_init_max + 1),
'''), (SN, '''    lagged_choice = np.zeros_like(initial_exp_years, dtype=int)
    lagged_choice[initial_exp_years > 1] = 2
    # Check if initial years is a float if so, assign 1 part-time
    int_exp = initial_exp_years.astype(int)
    is_float = np.abs(initial_exp_years - int_exp) > 1e-8
    lagged_choice[is_float] = 1
    return lagged_choice
''', '''    whole = initial_exp_years.astype(int)
    fractional = np.abs(initial_exp_years - whole) > 1e-8
    return np.where(fractional, 1, np.where(initial_exp_years > 1, 2, 0))
'''))

ref("solve-scan-reverse", "C13 C14 C24", (SO, '''    period_specific_objects_rev = jax.tree_util.tree_map(
        lambda a: a[::-1], period_specific_objects
    )

''', ""), (SO, '''    _, (emaxs_rev, non_consumption_utilities_rev) = jax.lax.scan(
        scan_step, emaxs_next_init, period_specific_objects_rev
    )

    emaxs = jnp.flip(emaxs_rev, axis=0).reshape(
        -1, emaxs_rev.shape[2], emaxs_rev.shape[-1]
    )
    non_consumption_utilities = jnp.flip(non_consumption_utilities_rev, axis=0).reshape(
        -1,
        non_consumption_utilities_rev.shape[2],
    )
''', '''    _, (emaxs_pp, utilities_pp) = jax.lax.scan(
        scan_step, emaxs_next_init, period_specific_objects, reverse=True
    )

    emaxs = emaxs_pp.reshape(-1, emaxs_pp.shape[2], emaxs_pp.shape[-1])
    non_consumption_utilities = utilities_pp.reshape(-1, utilities_pp.shape[2])
'''))

ref("solve-flip-tuple", "C13 C14", (SO, '''    period_specific_objects_rev = jax.tree_util.tree_map(
        lambda a: a[::-1], period_specific_objects
    )
''', '''    period_specific_objects_rev = {
        key: jnp.flip(jnp.asarray(value), axis=0)
        for key, value in period_specific_objects.items()
    }
'''), (SO, '''            v_next_grid=emaxs_next[:, :, 3],''', '''            v_next_grid=emaxs_next[:, :, NUM_CHOICES],'''))

ref("solve-baby-outside", "C13 C15 C24", (SO, '''                baby_child_period = (states_period[:, 4] == 0) | (
                    states_period[:, 4] == 1
                )
''', '''                age_child = states_period[:, AGE_YOUNGEST_CHILD]
                baby_child_period = (age_child >= 0) & (age_child <= 1)
'''))

ref("continuation-loops", "C14 C13", (CC, '''        idx_no_child_single = idx_choice[0, 0]
        idx_no_child_partner = idx_choice[0, 1]
        idx_child_single = idx_choice[1, 0]
        idx_child_partner = idx_choice[1, 1]

        val_no_child_single = linear_interp_1d(
            exp_grid, values_next[idx_no_child_single], x_next
        )
        val_no_child_partner = linear_interp_1d(
            exp_grid, values_next[idx_no_child_partner], x_next
        )
        val_child_single = linear_interp_1d(
            exp_grid, values_next[idx_child_single], x_next
        )
        val_child_partner = linear_interp_1d(
            exp_grid, values_next[idx_child_partner], x_next
        )

        prob_no_child = 1.0 - prob_child
        prob_single, prob_partner = prob_partner[0], prob_partner[1]

        return prob_no_child * (
            prob_single * val_no_child_single + prob_partner * val_no_child_partner
        ) + prob_child * (
            prob_single * val_child_single + prob_partner * val_child_partner
        )
''', '''        total = 0.0
        for birth, weight_birth in enumerate([1.0 - prob_child, prob_child]):
            for partner in range(2):
                value = linear_interp_1d(
                    exp_grid, values_next[idx_choice[birth, partner]], x_next
                )
                total = total + weight_birth * prob_partner[partner] * value
        return total
'''))

ref("continuation-vmap-axes", "C14 C13", (CC, '''    n_states = child_state_indexes_local.shape[0]
    state_ids = jnp.arange(n_states)

    return jax.vmap(one_state)(
        state_ids,
''', '''    return jax.vmap(one_state)(
        child_state_indexes_local,
'''), (CC, '''    def one_state(idx_state, pt_increment, prob_child, prob_partner):
        idx_choices = child_state_indexes_local[idx_state]
''', '''    def one_state(idx_choices, pt_increment, prob_child, prob_partner):
'''))

ref("emax-sum-of-products", "C15 C13", (EX, "    return current_max_value_function * draw_weight\n", "    return draw_weight * current_max_value_function\n"),
    (EX, "        return weighted.sum(axis=0)\n", "        return jnp.sum(weighted)\n"),
    (EX, "        child_care_bin = jnp.where(covariate[0] > 2, 0, covariate[0]).astype(int)\n", "        has_care_bin = covariate[0] <= 2\n        child_care_bin = (has_care_bin * covariate[0]).astype(int)\n"))

ref("emax-utility-helper", "C15 C13", (EX, '''        consumption_utility = consumption**mu / mu
''', '''        consumption_utility = _crra(consumption, mu)
'''), (EX, '''def construct_emax(
''', '''def _crra(consumption, mu):
    return jnp.power(consumption, mu) / mu


def construct_emax(
'''))

ref("alg1-select", "C04 C18", (NE, '''    child_benefits = (1 - no_child) * child_benefit_if_child
    replacement_rate = alg1_replacement_no_child * no_child + alg1_replacement_child * (
        1 - no_child
    )

    hours_worked = hours[2] * working_ft_last_period + hours[1] * working_pt_last_period
    alg_1 = working_ft_last_period | working_pt_last_period
    return alg_1 * (
        replacement_rate * prox_net_wage_systematic * hours_worked + child_benefits
    )
''', '''    child_benefits = jnp.where(no_child, 0.0, child_benefit_if_child)
    replacement_rate = jnp.where(
        no_child, alg1_replacement_no_child, alg1_replacement_child
    )
    hours_worked = jnp.where(
        working_ft_last_period,
        hours[2],
        jnp.where(working_pt_last_period, hours[1], 0.0),
    )
    claim = replacement_rate * prox_net_wage_systematic * hours_worked + child_benefits
    return jnp.where(working_ft_last_period | working_pt_last_period, claim, 0.0)
'''))

ref("elterngeld-clip", "C04", (NE, '''        jnp.minimum(
            jnp.maximum(
                elterngeld_replacement * prox_net_wage_systematic * hours_worked,
                elterngeld_min,
            ),
            elterngeld_max,
        )
        + child_benefit
''', '''        jnp.clip(
            elterngeld_replacement * prox_net_wage_systematic * hours_worked,
            elterngeld_min,
            elterngeld_max,
        )
        + child_benefit
'''), (NE, '''        non_employment_benefits = last_working_non_employment_benefits.clip(min=alg2)
''', '''        non_employment_benefits = jnp.maximum(last_working_non_employment_benefits, alg2)
'''))

ref("wage-log1p", "C06", (WA, '''    log_exp = jnp.log(exp_years + 1)
''', '''    log_exp = jnp.log1p(exp_years)
'''))

ref("partner-stack", "C11", (PA, '''    prob_mat = np.zeros((model_spec.num_periods, model_spec.num_educ_levels, 2, 2))
    prob_mat[:, :, 0, 1] = exog_partner_arrival_info_df.values.reshape(
        model_spec.num_periods, model_spec.num_educ_levels
    )
    prob_mat[:, :, 0, 0] = 1 - prob_mat[:, :, 0, 1]
    prob_mat[:, :, 1, 0] = exog_partner_separation_info_df.values.reshape(
        model_spec.num_periods, model_spec.num_educ_levels
    )
    prob_mat[:, :, 1, 1] = 1 - prob_mat[:, :, 1, 0]
''', '''    shape = (model_spec.num_periods, model_spec.num_educ_levels)
    arrival = exog_partner_arrival_info_df.to_numpy().reshape(shape)
    separation = exog_partner_separation_info_df.to_numpy().reshape(shape)

    prob_mat = np.empty(shape + (2, 2))
    for partner, (single_next, couple_next) in enumerate(
        [(1 - arrival, arrival), (separation, 1 - separation)]
    ):
        prob_mat[:, :, partner, 0] = single_next
        prob_mat[:, :, partner, 1] = couple_next
'''))

ref("states-product", "C08 C09", ("solve/create_state_space.py", '''                        lagged = np.arange(NUM_CHOICES, dtype=np.int32)
                        n = lagged.size
''', '''                        n = NUM_CHOICES
                        lagged = np.arange(n, dtype=np.int32)
'''), ("solve/create_state_space.py", '''        child_indexes[parent_idx, choice, 0, 0] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            update_rule,
            0,
        ]
        child_indexes[parent_idx, choice, 0, 1] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            update_rule,
            1,
        ]

        child_indexes[parent_idx, choice, 1, 0] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            0,
            0,
        ]
        child_indexes[parent_idx, choice, 1, 1] = indexer[
            next_period,
            educ[parent_idx],
            choice,
            type_[parent_idx],
            0,
            1,
        ]
''', '''        for birth, age in enumerate([update_rule, 0]):
            for partner_next in range(2):
                child_indexes[parent_idx, choice, birth, partner_next] = indexer[
                    next_period,
                    educ[parent_idx],
                    choice,
                    type_[parent_idx],
                    age,
                    partner_next,
                ]
'''))

ref("params-comprehension", "C23", (MP, '''        model_params_dict_flat[param] = np.zeros(
            len(model_params_dict_expanded[category])
        )
        for educ_ind, educ_type in enumerate(["low", "middle", "high"]):
            model_params_dict_flat[param][educ_ind] = np.array(
                model_params_dict_expanded[category][f"{param}_{educ_type}"],
                dtype=float,
            )
''', '''        values = model_params_dict_expanded[category]
        model_params_dict_flat[param] = np.array(
            [values[f"{param}_{level}"] for level in ("low", "middle", "high")],
            dtype=float,
        )
'''))

ref("spec-helpers", "C03 C23", (MP, '''    if "elasticity_scale" not in model_spec_init_dict["SIMULATION"].keys():
        model_spec_init_dict["SIMULATION"]["elasticity_scale"] = 1
''', '''    model_spec_init_dict["SIMULATION"].setdefault("elasticity_scale", 1)
'''), (MP, '''    model_spec_init_dict = process_tax_system(model_spec_init_dict)
    model_spec_init_dict = create_child_care_costs(model_spec_init_dict)
    model_spec_init_dict = process_ssc(model_spec_init_dict)
    model_spec_init_dict = process_elterngeld(model_spec_init_dict)
    model_spec_init_dict = process_erziehungsgeld(model_spec_init_dict)
''', '''    for step in (
        process_tax_system,
        create_child_care_costs,
        process_ssc,
        process_elterngeld,
        process_erziehungsgeld,
    ):
        model_spec_init_dict = step(model_spec_init_dict)
'''))

ref("covariates-select", "C10", ("solve/covariates.py", '''    equivalence_scale = np.where(no_child & ~married, 1.0, np.nan)
    equivalence_scale = np.where(no_child & married, 1.5, equivalence_scale)
    equivalence_scale = np.where(~no_child & married, 1.8, equivalence_scale)
    equivalence_scale = np.where(~no_child & ~married, 1.3, equivalence_scale)

    assert not np.isnan(equivalence_scale).any()
    return equivalence_scale
''', '''    return np.where(
        no_child, np.where(married, 1.5, 1.0), np.where(married, 1.8, 1.3)
    )
'''))

ref("partial-keywords", "C21 C20", (SPy, '''    df = pyth_simulate(
        model_params,
        model_spec,
        states,
        indexer,
        emaxs,
        covariates,
        non_consumption_utilities,
        child_age_update_rule,
        prob_educ_level,
        prob_child_age,
        prob_partner_present=''', '''    df = pyth_simulate(
        model_params=model_params,
        model_spec=model_spec,
        states=states,
        indexer=indexer,
        emaxs=emaxs,
        covariates=covariates,
        non_consumption_utilities=non_consumption_utilities,
        child_age_update_rule=child_age_update_rule,
        prob_educ_level=prob_educ_level,
        prob_child_age=prob_child_age,
        prob_partner_present='''))

ref("tax-mask-where", "C01 C02", ("shared/tax_and_transfers_jax.py", '''    tax_rate = (
        in_interval_0 * calc_interval_tax(0)
        + in_interval_1 * calc_interval_tax(1)
        + in_interval_2 * calc_interval_tax(2)
        + in_interval_3 * calc_interval_tax(3)
    )

    # Apply zero tax if below first threshold
    above_threshold = taxable_income >= thresholds[0]
    tax_rate = above_threshold * tax_rate

    return tax_rate
''', '''    tax_rate = jnp.zeros_like(taxable_income)
    for i, inside in enumerate(
        [in_interval_0, in_interval_1, in_interval_2, in_interval_3]
    ):
        tax_rate = jnp.where(inside, calc_interval_tax(i), tax_rate)
    return tax_rate
'''))

ref("years-helper", "C05 C06 C17", ("shared/experience_stock.py", '''    inc_pt = (choice == 1) * pt_increment
    inc_ft = (choice == 2) * 1.0
    return exp_years + inc_pt + inc_ft
''', '''    gained = jnp.where(choice == 2, 1.0, jnp.where(choice == 1, pt_increment, 0.0))
    return exp_years + gained
'''))


def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, "soepy", f)
        s = open(p).read()
        if old.startswith("re:"):
            t = re.sub(old[3:], new, s)
        else:
            assert s.count(old) == 1, (f, s.count(old), old[:60])
            t = s.replace(old, new)
        open(p, "w").write(t)


def main():
    names = sys.argv[1:] or list(R)
    bad = 0
    for n in names:
        props, edits = R[n]
        root = f"/tmp/refactor-{os.getpid()}"
        shutil.copytree("/repo", root, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        try:
            apply(root, edits)
            for c in props.split():
                env = dict(os.environ, SOEPY_REPO=root, VERIF_SEED="1", VERIF_TIER="quick")
                r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--property", c, "--tier", "quick"], cwd=HERE, env=env,
                                   capture_output=True, text=True)
                lines = [l for l in r.stdout.splitlines() if not l.startswith("KNOWN")]
                bad += r.returncode != 0
                print(n, c, r.returncode, lines[-1] if lines else r.stderr[-300:], flush=True)
        finally:
            shutil.rmtree(root)
    print("alarms:", bad)


if __name__ == "__main__":
    main()
