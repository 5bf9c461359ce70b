"""C27: conversion of monetary inputs to weekly amounts."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, close, helper
from pbt.ref import MONTH, YEAR
from pbt.sut import processed

RULE = (
    "Random tax and transfer sections, each processed as given and with one amount scaled by a random factor; costs per child age and alternative are also read off the simulation's cost look-up. "
    "Non-trivial: all four child-care costs differ and both parental-benefit bounds are positive."
)

AMOUNTS = {
    "ssc_cap": YEAR,
    "elterngeld_min": MONTH,
    "elterngeld_max": MONTH,
    "erziehungsgeld": MONTH,
    "erziehungsgeld_income_threshold_single": YEAR,
    "erziehungsgeld_income_threshold_married": YEAR,
}
SAME = ["alg1_replacement_no_child", "alg1_replacement_child", "regelsatz_single", "housing_single", "housing_addtion", "regelsatz_child",
        "addition_child_single", "elterngeld_replacement", "child_benefits"]


@st.composite
def cases(draw):
    tt = draw(gen.policy())
    cc = draw(st.lists(st.integers(0, 900), min_size=4, max_size=4, unique=draw(st.booleans())))
    tt["child_care_costs"] = {"under_3": cc[:2], "3_to_6": cc[2:]}
    return {"tt": tt, "key": draw(st.sampled_from(sorted(AMOUNTS) + SAME + ["ssc_rate", "under_3", "3_to_6"])), "by": draw(st.sampled_from([2, 0.5, 3, 0.1, 1.7]))}


def weekly(spec):
    out = {k: float(getattr(spec, k)) for k in AMOUNTS if k != "ssc_cap"}
    out["ssc_rate"], out["ssc_cap"] = (float(v) for v in np.asarray(spec.ssc_deductions))
    out.update({k: float(getattr(spec, k)) for k in SAME})
    return out


def costs(spec):
    """Weekly cost by child-age group (none, 0-2, 3-5, 6-10, older) and alternative."""
    get_child_care_cost_for_choice = helper("simulate.simulate_auxiliary", "get_child_care_cost_for_choice")
    return np.asarray(get_child_care_cost_for_choice(np.arange(5.0), np.asarray(spec.child_care_costs)), float)


def convert(case, ctx):
    tt = case["tt"]
    spec = processed(tt)
    want = {k: tt[k] / f for k, f in AMOUNTS.items()}
    want.update({k: tt[k] for k in SAME + ["ssc_rate"]})
    got = weekly(spec)
    for k in want:
        close(got[k], want[k], 1e-12, 0, f"weekly value of {k}")
    tax = np.asarray(spec.tax_params, float)
    close(tax[0], np.array([7664, 12739, 52151, 250000]) / YEAR, 1e-12, 0, "weekly tax thresholds")
    cc = tt["child_care_costs"]
    table = np.array([[0, 0], cc["under_3"], cc["3_to_6"], [0, 0], [0, 0]], float) / MONTH
    close(costs(spec), table, 1e-12, 0, "weekly child-care costs by child-age group (rows: none, 0-2, 3-5, 6-10, older) and alternative (part-time, full-time)")
    # scale one input
    key, by = case["key"], case["by"]
    t2 = {**tt, "child_care_costs": dict(cc)}
    if key in cc:
        t2["child_care_costs"][key] = [v * by for v in cc[key]]
    else:
        t2[key] = tt[key] * by
    spec2 = processed(t2)
    got2 = weekly(spec2)
    for k in got:
        close(got2[k], got[k] * (by if k == key else 1), 1e-12, 0, f"weekly value of {k} after scaling {key} by {by}")
    row = {"under_3": 1, "3_to_6": 2}.get(key)
    table2 = table.copy()
    if row:
        table2[row] *= by
    close(costs(spec2), table2, 1e-12, 0, f"weekly child-care costs after scaling {key} by {by}")
    close(np.asarray(spec2.tax_params, float), tax, 0, 0, f"tax schedule after scaling {key}")
    check(bool(spec.tax_splitting) == bool(tt["tax_splitting"]), "filing rule")
    ctx.unit(2 * len(got) + 20)
    flat = cc["under_3"] + cc["3_to_6"]
    ctx.non_trivial(len(set(flat)) == 4 and tt["elterngeld_min"] > 0 and tt["elterngeld_max"] > 0)
    ctx.label(f"scaled:{key}")


def tasks(tier):
    from pbt.core import Task

    return [Task("convert", cases(), convert, (150, 5000))]
