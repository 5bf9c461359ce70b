"""C15: form, order and labels of the inputs (metamorphic and differential)."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, close, helper
from pbt.frames import rows, same
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "One model passed in several forms (data frame or pickle, dictionary or YAML, rows and keys permuted) must give one data set and leave the inputs untouched; with 1-13 types and permuted rows every parameter is bound to the group its label names (differential against the reference solver), and a type with share one is everyone's type. "
    "Non-trivial: rows and keys are both permuted (forms), at least three types (labels)."
)


def shuffled(x, rng):
    if isinstance(x, dict):
        keys = list(x)
        rng.shuffle(keys)
        return {k: shuffled(x[k], rng) for k in keys}
    return copy.deepcopy(x)


@st.composite
def form_cases(draw):
    c = draw(gen.model(agents=(8,), max_periods=5, max_types=4, draws=(1, 3), max_grid=4))
    c["forms"] = [
        [draw(st.sampled_from(["frame", "rows", "pickle", "pickle rows"])), draw(st.sampled_from(["dict", "keys", "yaml", "yaml keys"])), draw(st.integers(0, 9999))]
        for _ in range(3)
    ]
    return c


def forms(case, ctx):
    import yaml
    from soepy.simulate.simulate_python import simulate

    d = ctx.dir()
    m = Model(case, d)
    base = m.simulate()
    for i, (pf, sf, seed) in enumerate(case["forms"]):
        rng = np.random.RandomState(seed)
        frame = m.frames[0].copy()
        if "rows" in pf:
            frame = frame.iloc[rng.permutation(len(frame))]
        spec = shuffled(m.spec, rng) if "keys" in sf else copy.deepcopy(m.spec)
        p, s = frame, spec
        if "pickle" in pf:
            p = os.path.join(d, f"p{i}.pkl")
            frame.to_pickle(p)
        if "yaml" in sf:
            s = os.path.join(d, f"s{i}.yml")
            with open(s, "w") as f:
                yaml.safe_dump(spec, f, sort_keys=False)
        frame_before, spec_before = frame.copy(deep=True), copy.deepcopy(spec)
        text = {q: open(q, "rb").read() for q in (p, s) if isinstance(q, str)}
        df = simulate(p, s, biased_exp=case["biased"], data_sparse=False)
        ctx.unit(same(df, base, f"parameters as {pf}, specification as {sf}, against a data frame and a dictionary"))
        check(frame.equals(frame_before) and list(frame.index) == list(frame_before.index), "the caller's parameter table was modified", form=pf)
        check(spec == spec_before, "the caller's specification was modified", form=sf)
        for q, t in text.items():
            check(open(q, "rb").read() == t, "an input file was modified")
        ctx.label(f"params:{pf}", f"spec:{sf}")
    ctx.non_trivial(any("rows" in f[0] for f in case["forms"]) and any("keys" in f[1] for f in case["forms"]))


@st.composite
def label_cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 9, 10, 11, 12, 13]))
    c = draw(gen.model(max_periods=3, num_types=n, n_params=(1, 2), kid_max=(0, 3, 6, 11), draws=(1, 2), max_grid=3))
    c["order"] = draw(st.integers(0, 9999))
    return c


def labels(case, ctx):
    m = Model(case, ctx.dir())
    rng = np.random.RandomState(case["order"])
    m.frames = [f.iloc[rng.permutation(len(f))] for f in m.frames]
    m.read()
    for k in range(len(case["params"])):
        ref = Ref(case, k)
        s = case["spec"]["SOLUTION"]
        draws = None
        if s["integration_method"] == "monte_carlo":
            get_integration_draws_and_weights = helper("shared.numerical_integration", "get_integration_draws_and_weights")

            a, w = get_integration_draws_and_weights(m.model_spec)
            draws = (np.asarray(a), np.asarray(w))
        cont, emax = ref.solve(case["biased"], draws)
        if ref.slack < 1e-6 or getattr(ref, "cliff", np.inf) < 1e-9:
            continue
        states, ncu, emaxs = m.solve(k)
        t, e, lag, ty, age, p = states.T
        close(ncu, ref.factor(e, ty, age), 1e-9, 0, f"non-pecuniary factors with {ref.types} types (parameter vector {k})")
        got = m.table(emaxs)
        close(got[..., 3], emax, 1e-8, 1e-11 * float(np.abs(emax).max()), f"expected maximum with {ref.types} types (parameter vector {k}; index period, educ, lagged, type, age+1, partner, grid)")
        ctx.unit(got.size)
        ctx.label(f"types={ref.types}")
    ctx.non_trivial(len(case["params"][0].get("shares", {})) >= 2)


@st.composite
def share_cases(draw):
    n = draw(st.sampled_from([2, 3, 4, 5, 10, 11, 12, 13]))
    c = draw(gen.model(max_periods=2, num_types=n, kid_max=(0,), agents=(8,), draws=(1,), entry="zero", max_grid=2))
    who = draw(st.integers(0, n - 1))
    for i in range(1, n):
        c["params"][0]["shares"][f"share_{i}"] = 1.0 if i == who else 0.0
    c["who"], c["order"] = who, draw(st.integers(0, 9999))
    return c


def shares(case, ctx):
    m = Model(case, ctx.dir())
    rng = np.random.RandomState(case["order"])
    m.frames = [f.iloc[rng.permutation(len(f))] for f in m.frames]
    d = rows(m.simulate())
    got = sorted(set(d["Type"].astype(int)))
    check(got == [case["who"]], f"everyone has type {case['who']} (share one), but the simulated types are {got}")
    ref = Ref(case)
    want = ref.factor(d["Education_Level"].to_numpy().astype(int), d["Type"].to_numpy().astype(int), d["Age_Youngest_Child"].to_numpy().astype(int))
    close(d[[f"Non_Consumption_Utility_{a}" for a in "NPF"]].to_numpy().astype(float), want, 1e-9, 0, "non-pecuniary factors in the data")
    ctx.unit(len(d))
    ctx.non_trivial(case["who"] > 0)
    ctx.label("more than ten types" if ref.types > 10 else "few types")


def tasks(tier):
    from pbt.core import Task

    return [
        Task("forms", form_cases(), forms, (3, 50)),
        Task("labels", label_cases(), labels, (7, 110)),
        Task("shares", share_cases(), shares, (5, 60)),
    ]
