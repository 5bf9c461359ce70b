"""C10: household net income (differential plus metamorphic relations)."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, close, helper, maybe
from pbt.props.c09 import POLICY, income
from pbt.ref import YEAR, net_income
from pbt.sut import processed

RULE = (
    "Households of two gross weekly incomes (zero, at the contribution cap, at the tax thresholds after contributions, random) under random contribution rates and caps. "
    "Non-trivial: some household has two earners and some income lies above the cap."
)

households = st.fixed_dictionaries(
    {
        "rate": gen.num(0.0, 0.4, 0.005),
        "cap": gen.num(8000, 120000, 1000),
        "f": st.lists(income(), min_size=8, max_size=8),
        "m": st.lists(st.one_of(st.just(0.0), income()), min_size=8, max_size=8),
        "cap_at": st.lists(st.integers(-1, 1), min_size=8, max_size=8),
        "bump": st.sampled_from([1e-3, 0.5, 10.0, 300.0]),
    }
)


def net(case, ctx):
    import jax.numpy as jnp
    from soepy.shared.tax_and_transfers import calculate_net_income as scalar
    from soepy.shared.tax_and_transfers_jax import calculate_net_income as vector
    employed = helper("simulate.income_sim", "calculate_employment_consumption_resources")

    f, m = np.array(case["f"], float), np.array(case["m"], float)
    cap = case["cap"] / YEAR
    for i, k in enumerate(case["cap_at"]):
        if k == 1:
            f[i] = cap
        if k == -1 and m[i] > 0:
            m[i] = cap
    # below any positive wage that can occur (and denormals are flushed to zero by XLA)
    f, m = (np.where((a > 0) & (a < 1e-6), 1e-6, a) for a in (f, m))
    out = {}
    for split in (True, False):
        spec = processed({**POLICY, "ssc_rate": case["rate"], "ssc_cap": case["cap"], "tax_splitting": split})
        tp, ssc = jnp.asarray(spec.tax_params), jnp.asarray(spec.ssc_deductions)
        call = lambda a, b: np.asarray(vector(tp, ssc, jnp.asarray(a), jnp.asarray(b), split))  # noqa: E731
        want = net_income(f, m, case["rate"], case["cap"], split)
        got = out[split] = call(f, m)
        info = dict(female=f.tolist(), male=m.tolist(), rate=case["rate"], cap=case["cap"], joint=split)
        close(got, want, 1e-10, 1e-8, "net income", info)
        one = np.array([float(scalar(np.asarray(spec.tax_params), np.asarray(spec.ssc_deductions), a, b, split)) for a, b in zip(f, m)])
        close(one, want, 1e-10, 1e-8, "net income (scalar implementation)", info)
        two = np.stack([f, f / 2], axis=1)
        emp = maybe(employed, spec, jnp.asarray(two), jnp.asarray(m), split)
        if emp is not None:
            close(emp, np.stack([want, net_income(f / 2, m, case["rate"], case["cap"], split)], axis=1), 1e-10, 1e-8, "net income of two work alternatives", info)
        up = case["bump"]
        tol = 1e-8 * np.maximum(1, np.abs(got))
        check((call(f + up, m) >= got - tol).all(), "net income falls when the woman earns more", **info, more=up)
        check((call(f, m + up) >= got - tol).all(), "net income falls when the partner earns more", **info, more=up)
        both = (f > 0) & (m > 0)
        close(call(m, f)[both], got[both], 1e-10, 1e-8, "net income after exchanging the spouses' incomes", info)
        check((got <= f + m + tol).all() and (got >= -tol).all(), "net income outside [0, gross]", **info)
        gross_gain = call(f + up, m) - got
        check((gross_gain <= up + tol).all(), "net income rises by more than gross income", **info)
        ctx.unit(8 * len(f))
    tol = 1e-8 * np.maximum(1, np.abs(out[True]))
    check((out[True] >= out[False] - tol).all(), "joint filing lowers net income", female=f.tolist(), male=m.tolist())
    check((out[True] == out[False])[m == 0].all(), "the filing rule matters for singles", female=f.tolist(), male=m.tolist())
    ctx.non_trivial(bool(((f > 0) & (m > 0)).any() and (np.maximum(f, m) > cap).any()))
    ctx.label("singles and couples" if (m == 0).any() and (m > 0).any() else "one kind of household")


def tasks(tier):
    from pbt.core import Task

    return [Task("net", households, net, (40, 1200))]
