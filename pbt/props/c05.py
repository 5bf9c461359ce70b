"""C05: experience and work history accumulate exactly as chosen."""
import collections

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, close, fail, helper, maybe
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Panels of simulated models: every pair of consecutive periods of every agent; and generated arguments of the stock functions (scalars and arrays). "
    "Non-trivial: a part-time year with an increment strictly between 0 and 1, or above 1, occurs in the panel; for the functions, a feasible maximum above zero and a choice of part-time."
)


def history(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    i, j = p.now, p.nxt
    ctx.unit(len(i))

    def pairs(ok, msg):
        bad = np.flatnonzero(~ok)
        if len(bad):
            k = bad[0]
            fail(msg, person=p.row(i[k]), next=p.row(j[k]), counters=(int(p.pt[i[k]]), int(p.ft[i[k]]), int(p.pt[j[k]]), int(p.ft[j[k]])))

    pairs(p.lag[j] == p.choice[i], "the lagged choice is not the previous choice")
    pairs(p.pt[j] == p.pt[i] + (p.choice[i] == 1), "the part-time counter does not follow the choice")
    pairs(p.ft[j] == p.ft[i] + (p.choice[i] == 2), "the full-time counter does not follow the choice")

    first = np.zeros(p.n, bool)
    first[p.first] = True
    # stocks are shares of the feasible maximum
    outside = (p.stock < -1e-12) | (p.stock > 1 + 1e-9)
    known_outside = outside & first & (p.stock > 1)
    if known_outside.any():
        total = p.pt * p.inc + p.ft
        known_outside &= total > ref.x0  # more initial years than the configured maximum
    if (outside & ~known_outside).any():
        k = int(np.flatnonzero(outside & ~known_outside)[0])
        fail(f"experience stock {p.stock[k]!r} outside [0, 1]", person=p.row(k))
    if known_outside.any():
        ctx.finding("initial-stock-above-one")

    gain = np.where(p.choice[i] == 1, p.inc[i], np.where(p.choice[i] == 2, 1.0, 0.0))
    law = np.abs(p.years[j] - (p.years[i] + gain)) <= 1e-7
    # the two recorded defects, with their exact mechanisms
    exact = np.abs(p.stock[j] - ref.next_stock(p.stock[i], p.t[i], p.inc[i], p.choice[i])) <= 1e-10
    started_high = np.isin(p.id[i], p.id[known_outside])
    top = ref.max_years(p.t[i] + 1, p.inc[i])
    clipped = (p.years[i] + gain > top + 1e-9) & (np.abs(p.stock[j] - 1) <= 1e-10)
    d4 = ~law & exact & started_high & clipped
    unit = np.maximum(1.0, p.inc[i]) != np.maximum(1.0, p.inc[j])
    d6 = ~law & exact & unit & ~d4
    pairs(law | d4 | d6, "experience in years does not follow the choice")
    if d4.any():
        ctx.finding("initial-stock-above-one")
    if d6.any():
        ctx.finding("unit-change-above-one")
    pt = p.choice[i] == 1
    ctx.non_trivial(bool((pt & (p.inc[i] > 0) & (p.inc[i] != 1)).any()))
    if (pt & (p.age[i] >= 0) & (p.age[i] <= 2) & (ref.mom != 0)).any():
        ctx.label("part-time year of a mother of a small child")
    if (pt & (p.inc[i] > 1)).any():
        ctx.label("increment above one")
    if (pt & law).any():
        ctx.label("part-time year")
    ctx.label("unbiased" if not case["biased"] else "biased")


Params = collections.namedtuple("Params", "gamma_p gamma_p_mom")


@st.composite
def stock_args(draw):
    n = draw(st.sampled_from([0, 1, 2, 5]))
    one = lambda s: draw(s) if n == 0 else [draw(s) for _ in range(n)]  # noqa: E731
    return {
        "n": n,
        "stock": one(gen.frac(64)),
        "choice": one(st.integers(0, 2)),
        "educ": one(st.integers(0, 2)),
        "age": one(st.integers(-1, 12)),
        "period": draw(st.integers(0, 60)),
        "x0": draw(st.integers(0, 10)),
        "gamma_p": [draw(gen.num(0.0, 1.5, 0.05)) for _ in range(3)],
        "mom": draw(gen.num(0.0, 1.0, 0.05)),
        "biased": draw(st.booleans()),
    }


def functions(case, ctx):
    from soepy.shared.experience_stock import exp_years_to_stock
    from soepy.shared.experience_stock import get_pt_increment
    from soepy.shared.experience_stock import max_exp_years
    from soepy.shared.experience_stock import next_stock
    from soepy.shared.experience_stock import stock_to_exp_years

    arr = lambda k, t: np.asarray(case[k], t) if case["n"] else t(case[k])  # noqa: E731
    stock, choice, educ, age = arr("stock", float), arr("choice", int), arr("educ", int), arr("age", int)
    t, x0 = case["period"], case["x0"]
    mp = Params(np.asarray(case["gamma_p"]), case["mom"])
    inc = np.asarray(get_pt_increment(model_params=mp, educ_level=educ, child_age=age, biased_exp=case["biased"]), float)
    want = np.asarray(case["gamma_p"])[educ] + np.where((np.asarray(age) >= 0) & (np.asarray(age) <= 2), case["mom"], 0.0)
    if case["biased"]:
        want = np.ones(np.shape(educ))
    close(inc, want, 1e-12, 1e-15, "part-time increment")
    inc = inc if case["n"] else float(inc)
    top_now = x0 + np.maximum(t, t * np.asarray(inc))
    top_next = x0 + np.maximum(t + 1, (t + 1) * np.asarray(inc))
    kw = dict(init_exp_max=x0, pt_increment=inc)
    close(np.asarray(max_exp_years(period=t, **kw)) + 0 * top_now, top_now, 1e-12, 0, "maximum feasible years")
    years = np.asarray(stock_to_exp_years(stock=stock, period=t, **kw))
    close(years, stock * top_now, 1e-12, 1e-15, "years of a stock")
    back = np.asarray(exp_years_to_stock(exp_years=years, period=t, **kw))
    close(back, np.where(top_now > 0, stock, 0.0), 1e-12, 1e-14, "stock -> years -> stock")
    gain = np.where(np.asarray(choice) == 1, inc, np.where(np.asarray(choice) == 2, 1.0, 0.0))
    more = maybe(helper("shared.experience_stock", "next_exp_years"), exp_years=years, choice=choice, pt_increment=inc)
    if more is not None:
        close(np.asarray(more), years + gain, 1e-12, 1e-15, "years after the choice")
    nxt = np.asarray(next_stock(stock=stock, period=t, choice=choice, **kw))
    check((nxt >= 0).all() and (nxt <= 1).all(), f"next stock outside [0, 1]: {nxt}")
    close(np.asarray(stock_to_exp_years(stock=nxt, period=t + 1, **kw)), np.minimum(stock * top_now + gain, top_next), 1e-12, 1e-12, "years after the transition")
    ctx.unit(max(1, case["n"]))
    ctx.non_trivial(bool(np.any((np.asarray(choice) == 1) & (top_now > 0))))


def tasks(tier):
    from pbt.core import Task

    return [
        Task("panel", gen.model(agents=(8, 16), min_periods=2, max_types=2, kid_max=(0, 1, 2, 3, 4, 6, 13), draws=(1, 3)), history, (13, 220)),
        Task("functions", stock_args(), functions, (120, 1500)),
    ]
