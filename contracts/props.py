"""Property -> units under contract."""
PROPS = {
    "C01": dict(units=["tax.schedule_jax", "tax.schedule_scalar", "tax.inc_tax_jax", "tax.inc_tax_scalar", "tax.params"]),
    "C02": dict(units=["tax.net_jax", "tax.net_scalar"]),
    "C03": dict(units=["spec.read", "spec.reject", "tax.params"], note="Scalars, tables and thresholds symbolic; the set of keys is the documented one plus unknown extras; the yaml parser is trusted."),
    "C23": dict(units=["spec.params", "spec.read"], note="Values symbolic; row orders and numbers of types enumerated (1 to 23 types), so bounded in those two dimensions."),
    "C04": dict(units=["nonemp.resources", "nonemp.unknown_regime", "nonemp.erziehungsgeld"]),
    "C05": dict(units=["exp.pt_increment", "exp.max_years", "exp.stock_to_years", "exp.years_to_stock", "exp.next_years", "exp.next_stock", "exp.next_stock_vector"]),
    "C06": dict(units=["wages.log_wage"]),
    "C07": dict(units=["utility.leisure"]),
    "C10": dict(units=["states.covariates", "states.age_rule", "pipe.states"]),
    "C11": dict(units=["exog.births", "exog.partners", "exog.initial_ages", "exog.initial_exp", "exog.initial_years", "exog.initial_partner", "exog.initial_educ", "pipe.panel_shares"]),
    "C12": dict(units=["integ.quadrature", "integ.monte_carlo", "integ.unknown", "integ.draws"]),
    "C08": dict(units=["states.enumeration", "states.objects", "pipe.states"]),
    "C09": dict(units=["states.successors", "states.objects", "states.enumeration", "states.age_rule", "pipe.states"]),
    "C13": dict(units=["solve.bellman", "solve.emax", "solve.emax_validation", "pipe.solution", "pipe.solution_corners"]),
    "C14": dict(units=["solve.continuation", "pipe.solution", "pipe.solution_corners"]),
    "C15": dict(units=["solve.emax", "solve.emax_validation", "pipe.solution", "pipe.solution_corners"]),
    "C16": dict(units=["sim.values", "sim.interp", "pipe.supplied_values", "pipe.panel_values"]),
    "C17": dict(units=["sim.motion", "pipe.supplied_motion", "pipe.panel_motion", "pipe.panel_shares"]),
    "C18": dict(units=["sim.values", "match.flow", "pipe.supplied_values", "pipe.panel_values"]),
    "C19": dict(units=["sim.initial", "sim.entry", "pipe.supplied_entry", "pipe.panel_entry", "pipe.panel_shares"]),
    "C20": dict(units=["sim.assemble", "spec.read", "pipe.reproducible", "pipe.reuse"]),
    "C21": dict(units=["sim.entry_points", "sim.assemble", "pipe.entry_points", "pipe.reuse"]),
    "C22": dict(units=["sim.entry", "sim.values", "sim.assemble", "sim.entry_points", "pipe.supplied_motion", "pipe.panel_motion", "pipe.entry_points"]),
    "C24": dict(units=["solve.bellman", "sim.values", "sim.motion", "match.flow", "pipe.timing", "pipe.solution", "pipe.panel_values"]),
    "C25": dict(units=["interp.linear", "sim.interp"]),
}
