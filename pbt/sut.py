"""Materialise a case and call the code under test through its public functions."""
import copy
import os

import numpy as np
import pandas as pd

FILES = {
    "educ_shares": ("INITIAL_CONDITIONS", "educ_shares_file_name"),
    "child_age_shares": ("INITIAL_CONDITIONS", "child_age_shares_file_name"),
    "partner_shares": ("INITIAL_CONDITIONS", "partner_shares_file_name"),
    "ft_shares": ("INITIAL_CONDITIONS", "ft_exp_shares_file_name"),
    "pt_shares": ("INITIAL_CONDITIONS", "pt_exp_shares_file_name"),
    "child": ("EXOG_PROC", "child_info_file_name"),
    "arrival": ("EXOG_PROC", "partner_arrival_info_file_name"),
    "separation": ("EXOG_PROC", "partner_separation_info_file_name"),
}


def params_frame(p):
    rows = [(cat, name, v) for cat, d in p.items() for name, v in d.items()]
    df = pd.DataFrame(rows, columns=["category", "name", "value"])
    return df.set_index(["category", "name"])


def _by_level(values, level, start):
    idx = pd.MultiIndex.from_tuples(
        [(e, start + k) for e, row in enumerate(values) for k in range(len(row))], names=["educ_level", level]
    )
    return idx, [float(v) for row in values for v in row]


def frames(tables):
    out = {}
    idx = lambda k: pd.Index(range(len(tables[k])), name="educ_level")  # noqa: E731
    out["educ_shares"] = pd.DataFrame({"educ_shares": tables["educ_shares"]}, index=idx("educ_shares"))
    out["partner_shares"] = pd.DataFrame({"partner_shares": tables["partner_shares"]}, index=idx("partner_shares"))
    i, v = _by_level(tables["child_age_shares"], "child_age", -1)
    out["child_age_shares"] = pd.DataFrame({"child_age_shares": v}, index=i)
    for k in ("pt", "ft"):
        i, v = _by_level(tables[f"{k}_shares"], f"{k}_exp", 0)
        out[f"{k}_shares"] = pd.DataFrame({"exper_shares": v}, index=i)
    for key, col in (("child", "prob_child_values"), ("arrival", "prob_partner_values"), ("separation", "prob_partner_values")):
        rows = tables[key]
        i = pd.MultiIndex.from_product([range(len(rows)), range(len(rows[0]))], names=["period", "educ_level"])
        out[key] = pd.DataFrame({col: [float(x) for r in rows for x in r]}, index=i)
    return out


def write_tables(tables, folder):
    paths = {}
    for key, df in frames(tables).items():
        paths[key] = os.path.join(folder, f"{key}.pkl")
        df.to_pickle(paths[key])
    return paths


def spec_with_files(spec, paths):
    s = copy.deepcopy(spec)
    for key, (group, name) in FILES.items():
        s[group][name] = paths[key]
    return s


class Model:
    """One materialised case."""

    def __init__(self, case, folder):
        self.case, self.folder = case, folder
        self.biased = case["biased"]
        self.paths = write_tables(case["tables"], folder)
        self.spec = spec_with_files(case["spec"], self.paths)
        self.frames = [params_frame(p) for p in case["params"]]
        self._solver = None
        self._simfunc = {}

    # --- reading -----------------------------------------------------------------
    def read(self):
        from soepy.pre_processing.model_processing import read_model_params_init
        from soepy.pre_processing.model_processing import read_model_spec_init

        if not hasattr(self, "model_spec"):
            ps = [read_model_params_init(f)[1] for f in self.frames]
            cls = type(ps[0])
            # one pytree type, so that parameter vectors share one compilation
            self.model_params = [cls(**p._asdict()) for p in ps]
            self.model_spec = read_model_spec_init(copy.deepcopy(self.spec), self.frames[0])
        return self.model_spec

    def space(self):
        from soepy.solve.create_state_space import create_state_space_objects

        self.read()
        if not hasattr(self, "objects"):
            self.objects = create_state_space_objects(self.model_spec)
            self.states = np.array(self.objects[0], np.int64)  # the oracles compute in wide types
        return self.objects

    # --- solving -----------------------------------------------------------------
    def solve(self, k=0, biased=None):
        """(states, non-consumption utilities, emaxs)"""
        from soepy.exogenous_processes.children import gen_prob_child_vector
        from soepy.exogenous_processes.partner import gen_prob_partner
        states, indexer, covariates, _, children = self.space()
        biased = self.biased if biased is None else biased
        if self._solver is None or self._solver[0] != biased:
            inputs = dict(
                states=states,
                covariates=covariates,
                child_state_indexes=children,
                model_spec=self.model_spec,
                prob_child=gen_prob_child_vector(self.model_spec),
                prob_partner=gen_prob_partner(self.model_spec),
                biased_exp=biased,
            )
            from soepy.solve import solve_python

            if hasattr(solve_python, "get_solve_function"):
                f = solve_python.get_solve_function(**inputs)
            else:
                f = lambda params: solve_python.pyth_solve(model_params=params, **inputs)  # noqa: E731
            self._solver = (biased, f)
        ncu, emaxs = self._solver[1](self.model_params[k])
        return self.states, np.asarray(ncu, float), np.asarray(emaxs, float)

    def table(self, arr):
        """Per-state rows -> array indexed [period, educ, lagged, type, age + 1, partner, ...]."""
        s = self.states
        spec = self.case["spec"]
        shape = (
            spec["GENERAL"]["num_periods"],
            len(spec["EDUC"]["educ_years"]),
            3,
            n_types(self.case),
            spec["EXOG_PROC"]["child_age_max"] + 2,
            2,
        )
        arr = np.asarray(arr)
        out = np.full(shape + arr.shape[1:], np.nan)
        out[s[:, 0], s[:, 1], s[:, 2], s[:, 3], s[:, 4] + 1, s[:, 5]] = arr
        return out

    # --- simulating --------------------------------------------------------------
    def simulate(self, k=0, sparse=False, biased=None, spec=None):
        """A fresh simulation through the documented entry point."""
        from soepy.simulate.simulate_python import simulate

        return simulate(
            self.frames[k].copy(),
            copy.deepcopy(self.spec if spec is None else spec),
            biased_exp=self.biased if biased is None else biased,
            data_sparse=sparse,
        )

    def repeated(self, seeds):
        """Simulations with several seeds from one solution."""
        from soepy.exogenous_processes.children import gen_prob_child_init_age_vector, gen_prob_child_vector
        from soepy.exogenous_processes.education import gen_prob_educ_level_vector
        from soepy.exogenous_processes.experience import gen_prob_init_exp_component_vector
        from soepy.exogenous_processes.partner import gen_prob_partner, gen_prob_partner_present_vector

        from pbt.common import helper

        _, factors, emaxs = self.solve()
        states, indexer, covariates, rule, _ = self.space()
        ms = self.model_spec
        fixed = dict(
            model_params=self.model_params[0],
            states=states,
            indexer=indexer,
            emaxs=emaxs,
            covariates=covariates,
            non_consumption_utilities=factors,
            child_age_update_rule=rule,
            prob_educ_level=gen_prob_educ_level_vector(ms),
            prob_child_age=gen_prob_child_init_age_vector(ms),
            prob_partner_present=gen_prob_partner_present_vector(ms),
            prob_exp_pt=gen_prob_init_exp_component_vector(ms, ms.pt_exp_shares_file_name),
            prob_exp_ft=gen_prob_init_exp_component_vector(ms, ms.ft_exp_shares_file_name),
            prob_child=gen_prob_child_vector(ms),
            prob_partner=gen_prob_partner(ms),
            biased_exp=False,
        )
        simulate = helper("simulate.simulate_auxiliary", "pyth_simulate")
        for seed in seeds:
            yield simulate(model_spec=ms._replace(seed_sim=seed), **fixed)

    def prepared(self, k=0, sparse=False, biased=None):
        from soepy.simulate.simulate_python import get_simulate_func

        biased = self.biased if biased is None else biased
        key = (sparse, biased)
        if key not in self._simfunc:
            self._simfunc[key] = get_simulate_func(
                self.frames[k].copy(), copy.deepcopy(self.spec), biased_exp=biased, data_sparse=sparse
            )
        return self._simfunc[key]


def n_types(case):
    return 1 + len(case["params"][0].get("shares", {}))


def processed(tt, solution=None, spec=None):
    """The processed specification of a model with the given taxes and transfers."""
    from soepy.pre_processing.model_processing import read_model_spec_init

    base = {
        "GENERAL": {"num_periods": 2},
        "EDUC": {"educ_years": [0]},
        "SIMULATION": {"seed_sim": 1, "num_agents_sim": 2},
        "SOLUTION": {"seed_emax": 1, "num_draws_emax": 3, "integration_method": "quadrature"},
        "TAXES_TRANSFERS": tt,
        "INITIAL_CONDITIONS": {"child_age_init_max": 0, "init_exp_max": 1},
        "EXOG_PROC": {
            "child_age_max": 1, "last_child_bearing_period": 2,
            "partner_cf_const": 1.0, "partner_cf_age": 0.0, "partner_cf_age_sq": 0.0, "partner_cf_educ": 0.0,
        },
        "exp_grid": [0.0, 1.0],
    }
    base.update(spec or {})
    if solution:
        base["SOLUTION"] = solution
    params = params_frame({"sd_wage_shock": {"sigma": 0.5}, "risk": {"mu": 0.5}})
    return read_model_spec_init(copy.deepcopy(base), params)
