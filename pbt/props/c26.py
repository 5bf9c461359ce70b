"""C26: realised discounted utility against the value expected at the time of choice."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import fail
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Models whose experience grid contains every reachable experience share, so that interpolation is exact. Certain: no wage shocks, certain family events; every agent-period is compared exactly. "
    "Average: random family events and wage shocks; the mean gap between expected and realised value per entry group must be within 6 standard errors. "
    "Non-trivial: at least two different alternatives are chosen over time and experience changes (certain), or at least 500 agents with realised values that vary (average)."
)


def reachable(case):
    """Grid: all shares of the feasible maximum reachable from full-time years 0..init_exp_max."""
    ref = Ref(case)
    incs = set()
    for e in range(ref.E):
        for age in (-1, 0):
            incs.add(float(ref.increment(e, age)))
    years = {float(k) for k in range(ref.x0 + 1)}
    out = {0.0, 1.0}
    for t in range(ref.T):
        top = ref.x0 + t
        if top > 0:
            out |= {round(y / top, 12) for y in years}
        years = {round(y + d, 9) for y in years for d in incs | {0.0, 1.0}}
    grid = sorted(g for g in out if 0 <= g <= 1)
    keep = [grid[0]]
    for g in grid[1:]:
        if g - keep[-1] > 1e-9:
            keep.append(g)
    return keep


@st.composite
def cases(draw, certain, sigma=0.0, agents=(16,), T=(3, 5), draws=(3,), long=False):
    quarter = st.sampled_from([0.5, 0.25, 0.0, 0.75, 1.0])
    c = draw(
        gen.model(
            min_periods=T[0], max_periods=T[1], max_types=1 if long else 2, max_educ=1 if long else 3, agents=agents, biased=False, draws=draws, exp_grid=[0.0, 1.0], init_exp=1,
            child_mode="certain" if certain else "interior", partner_mode="certain" if certain else "interior", entry="zero",
            kid_max=(0, 1) if long else (0, 1, 2, 3, 5, 10), stretch=False, pargs=dict(sigma=sigma, delta=None if certain else 0.95, mus=None if certain else [0.5, 0.3, 1.0, -0.3]),
        )
    )
    if not certain:
        c["spec"]["SOLUTION"]["integration_method"] = "quadrature"
    p = c["params"][0]
    p["exp_increase_p"] = {k: draw(quarter) for k in p["exp_increase_p"]}
    top = max(p["exp_increase_p"].values())
    p["exp_increase_p_mom"] = {"gamma_p_mom": draw(st.sampled_from([0.0, 0.25, 0.5, 1.0]).filter(lambda v: v + top <= 1.0) if top < 1 else st.just(0.0))}
    if long:  # few reachable shares
        p["exp_increase_p"] = dict.fromkeys(p["exp_increase_p"], draw(st.sampled_from([1.0, 0.5, 0.0])))
        p["exp_increase_p_mom"] = {"gamma_p_mom": 0.0}
    T_, x = c["spec"]["GENERAL"]["num_periods"], c["spec"]["EXOG_PROC"]
    # births: one row for all periods (the row used for a birth is C07's subject)
    row = c["tables"]["child"][0] if certain else [draw(st.integers(4, 40)) / 64 for _ in range(3)]
    c["tables"]["child"] = [list(row) for _ in c["tables"]["child"]]
    x["last_child_bearing_period"] = T_
    # entrants: full-time years only (a sum above init_exp_max is C05's subject)
    c["tables"]["pt_shares"] = [[1.0] + [0.0] * (len(r) - 1) for r in c["tables"]["pt_shares"]]
    if c["spec"]["INITIAL_CONDITIONS"]["init_exp_max"] == 0:
        E = len(c["spec"]["EDUC"]["educ_years"])
        c["spec"]["EDUC"]["educ_years"] = [draw(st.integers(0, T_ - 2)) for _ in range(E)]
    c["spec"]["exp_grid"] = reachable(c)
    return c


def realised(p, ref):
    """Value of the chosen alternative and the discounted sum of realised flow utilities, per row."""
    row = np.arange(p.n)
    value = p.cols("Value_Function")[row, p.choice]
    flow = p.cols("Flow_Utility")[row, p.choice]
    total = flow.copy()
    for k in range(len(p.now) - 1, -1, -1):
        total[p.now[k]] = flow[p.now[k]] + ref.delta * total[p.nxt[k]]
    return value, total


def certain(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    value, total = realised(p, ref)
    big = np.maximum(np.abs(total), 1e-12)
    bad = np.flatnonzero(np.abs(value - total) > 1e-7 * big)
    if len(bad):
        i = bad[np.argmax(p.t[bad])]
        fail(f"expected value {value[i]!r}, realised discounted utility {total[i]!r}", person=p.row(i), periods=ref.T, discount=ref.delta)
    ctx.unit(p.n)
    i, j = p.now, p.nxt
    ctx.non_trivial(bool(ref.delta > 0 and len(set(p.choice.tolist())) > 1 and (p.years[i] != p.years[j]).any()))
    ctx.label(f"T={ref.T}", "children" if (p.age >= 0).any() else "no children", "partners" if (p.partner[i] != p.partner[j]).any() else "constant partners")


def average(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    value, total = realised(p, ref)
    tests = 0
    first = p.first
    groups = {"all": np.ones(len(first), bool)}
    for name, v in (("education", p.educ), ("type", p.type), ("child", np.minimum(p.age, 1)), ("partner", p.partner), ("choice", p.choice)):
        for u in set(v[first].tolist()):
            groups[f"{name} {u}"] = v[first] == u
    gap = total[first] - value[first]
    for name, k in groups.items():
        n = int(k.sum())
        if n < 200:
            continue
        g = gap[k]
        # trimmed checks are impossible (the tails matter); skip groups ruled by single outliers
        sd = g.std()
        if sd == 0 or np.abs(g - g.mean()).max() > 0.25 * sd * np.sqrt(n):
            ctx.label("skipped: outliers dominate")
            continue
        z = g.mean() / sd * np.sqrt(n)
        slack = 1e-4 * np.abs(value[first][k]).mean() / sd * np.sqrt(n)  # quadrature error of the expected maximum
        tests += 1
        if abs(z) > 6.5 + slack:
            fail(f"entrants ({name}): realised discounted utility differs from the expected value on average by {g.mean()!r} (z = {z:.1f}, {n} agents, mean value {value[first][k].mean()!r})")
    ctx.unit(tests)
    ctx.non_trivial(tests > 0 and len(first) >= 500)
    ctx.label(f"sigma={ref.sigma}")


def tasks(tier):
    from pbt.core import Task

    return [
        Task("certain", cases(True, T=(2, 7)), certain, (9, 150)),
        Task("long", cases(True, T=(28, 60), long=True), certain, (1, 12)),
        Task("family", cases(False, 0.0, agents=(2000,), T=(3, 4), draws=(1,)), average, (2, 40)),
        Task("shocks", cases(False, 0.4, agents=(2000,), T=(3, 4), draws=(40,)), average, (2, 40)),
    ]
