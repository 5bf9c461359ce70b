"""C20: household characteristics and non-pecuniary factors as functions of the state."""
import numpy as np

from pbt import gen
from pbt.common import close, helper, maybe
from pbt.ref import Ref, age_group, equivalence
from pbt.sut import Model

RULE = (
    "State spaces of 1-12 periods with child ages up to 13, random partner-wage functions, benefits and preference parameters (1-7 types); every state is compared. "
    "Non-trivial: children of at least two age groups exist and there are at least two periods."
)


def characteristics(case, ctx):
    calculate_non_consumption_utility = helper("shared.non_consumption_utility", "calculate_non_consumption_utility")
    m = Model(case, ctx.dir())
    states, _, cov, _, _ = m.space()
    cov = np.asarray(cov, float)
    t, e, lag, ty, age, p = m.states.T
    ref = Ref(case)
    show = lambda k: dict(state=m.states[k].tolist())  # noqa: E731
    want = np.stack(
        [age_group(age), ref.male_wage(t, e, p), equivalence(age, p), np.where(age >= 0, case["spec"]["TAXES_TRANSFERS"]["child_benefits"], 0.0)], axis=1
    )
    close(cov, want, 1e-10, 0, "characteristics (row = state; columns: child-age group, partner's wage, equivalence scale, child benefit)")
    for k in range(len(case["params"])):
        r = Ref(case, k)
        got = maybe(calculate_non_consumption_utility, m.model_params[k], states[:, 1], states[:, 3], cov[:, 0])  # the code's own arrays
        if got is None:
            got = m.solve(k)[1]
        got = np.asarray(got, float)
        close(got, r.factor(e, ty, age), 1e-10, 0, f"non-pecuniary factors (parameter vector {k}; row = state, column = alternative)")
    ctx.unit(want.size + 3 * len(states) * len(case["params"]))
    groups = len(set(age_group(age).tolist()) - {0})
    ctx.non_trivial(groups >= 2 and t.max() > 0)
    ctx.label(f"groups={groups}", f"types={ref.types}")


def tasks(tier):
    from pbt.core import Task

    return [Task("characteristics", gen.model(max_periods=12, max_types=7, n_params=(1, 3), kid_max=(0, 1, 2, 3, 5, 6, 9, 10, 11, 12, 13)), characteristics, (40, 900))]
