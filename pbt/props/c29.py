"""C29: every route from the inputs to a panel gives the same panel."""
import copy
from functools import partial

import numpy as np

from pbt import gen
from pbt.common import check, helper, maybe
from pbt.frames import rows, same
from pbt.sut import Model

RULE = (
    "One model: the documented entry point (also under the name exported by the package), the prepared function, the function to be completed with functools.partial, and the solution followed by the simulation step by step; both belief settings and both output formats. "
    "Non-trivial: at least two periods and both workers and non-workers occur."
)


def routes(case, ctx):
    import soepy

    m = Model(case, ctx.dir())
    sparse = bool(case["spec"]["SIMULATION"]["seed_sim"] % 2)
    biased = case["biased"]
    want = m.simulate(sparse=sparse)
    n = 0

    def agree(df, route):
        nonlocal n
        if not {"Identifier", "Period"} <= set(df.index.names):
            df = df.set_index(["Identifier", "Period"])
        n += same(df, want, f"{route} against simulate", rtol=1e-9, atol=1e-12)

    if hasattr(soepy, "simulate"):
        # the attribute is the function unless the subpackage of the same name has replaced it
        f = soepy.simulate if callable(soepy.simulate) else soepy.simulate.simulate_python.simulate
        agree(f(m.frames[0].copy(), copy.deepcopy(m.spec), biased, sparse), "positional arguments")
    prepared = m.prepared(sparse=sparse)
    agree(prepared(m.frames[0].copy(), copy.deepcopy(m.spec)), "the prepared function")

    from soepy.exogenous_processes.children import gen_prob_child_init_age_vector, gen_prob_child_vector
    from soepy.exogenous_processes.education import gen_prob_educ_level_vector
    from soepy.exogenous_processes.partner import gen_prob_partner, gen_prob_partner_present_vector
    from soepy.solve.solve_python import pyth_solve

    components = helper("exogenous_processes.experience", "gen_prob_init_exp_component_vector")
    years = helper("exogenous_processes.experience", "gen_prob_init_exp_years_vector")
    states, indexer, covariates, rule, children = m.space()
    ms = m.model_spec
    common = dict(
        states=states,
        indexer=indexer,
        covariates=covariates,
        child_age_update_rule=rule,
        prob_educ_level=gen_prob_educ_level_vector(ms),
        prob_child_age=gen_prob_child_init_age_vector(ms),
        prob_partner_present=gen_prob_partner_present_vector(ms),
        prob_exp_pt=components(ms, ms.pt_exp_shares_file_name),
        prob_exp_ft=components(ms, ms.ft_exp_shares_file_name),
        prob_child=gen_prob_child_vector(ms),
        prob_partner=gen_prob_partner(ms),
        data_sparse=sparse,
    )
    solve = partial(
        pyth_solve,
        states,
        covariates,
        children,
        model_spec=ms,
        prob_child=common["prob_child"],
        prob_partner=common["prob_partner"],
        biased_exp=biased,
    )
    factors, emaxs = solve(model_params=m.model_params[0])
    step = maybe(
        helper("simulate.simulate_auxiliary", "pyth_simulate"),
        model_params=m.model_params[0], model_spec=ms, emaxs=emaxs, non_consumption_utilities=factors, biased_exp=False, **common,
    )
    if step is not None:
        agree(step, "solution and simulation one after the other")
        ctx.label("step by step")
    p = maybe(years, ms)
    part = maybe(
        helper("simulate.simulate_python", "partiable_simulate"),
        solve_func=lambda params: solve(model_params=params),
        prob_exp_years=p,
        model_params_init_file_name=m.frames[0].copy(),
        model_spec_init_file_name=copy.deepcopy(m.spec),
        **common,
    )
    if part is not None:
        agree(part, "the partial function")
        ctx.label("partial function")
    ctx.unit(n)
    choice = rows(want)["Choice"].to_numpy().astype(float)
    ctx.non_trivial(case["spec"]["GENERAL"]["num_periods"] > 1 and bool((choice == 0).any() and (choice > 0).any()))
    ctx.label("reduced format" if sparse else "full format", "biased" if biased else "unbiased")


def tasks(tier):
    from pbt.core import Task

    return [Task("routes", gen.model(agents=(5, 16, 60), max_types=3), routes, (5, 100))]
