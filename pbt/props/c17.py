"""C17: completeness of the state space and correctness of its transitions."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, fail
from pbt.sut import Model

RULE = (
    "State spaces of 1-60 periods, 1-3 education levels, 1-11 types and child ages up to 25 (up to 330000 states); all states, choices and family outcomes are enumerated. "
    "Non-trivial: at least two periods and at least one child age above zero."
)


def space(case, ctx):
    m = Model(case, ctx.dir())
    _, indexer, _, _, succ = m.space()
    states, indexer, succ = m.states, np.array(indexer, np.int64), np.array(succ, np.int64)
    s = case["spec"]
    T, E, A = s["GENERAL"]["num_periods"], len(s["EDUC"]["educ_years"]), s["EXOG_PROC"]["child_age_max"]
    K = 1 + len(case["params"][0].get("shares", {}))
    shape = (T, E, 3, K, A + 2, 2)
    n = int(np.prod(shape))
    lo, hi = np.array([0, 0, 0, 0, -1, 0]), np.array([T, E, 3, K, A + 1, 2])
    bad = ((states < lo) | (states >= hi)).any(axis=1)
    check(not bad.any(), "a state outside the ranges of the state variables", state=states[bad][:1].tolist())
    number = np.ravel_multi_index((states - lo).T, shape)  # own numbering of the combinations
    count = np.bincount(number, minlength=n)
    combo = lambda k: (np.array(np.unravel_index(int(k), shape)) + lo).tolist()  # noqa: E731
    if not (len(states) == n and (count == 1).all()):
        fail("the states are not the combinations of the state variables, each once",
             missing=[combo(k) for k in np.flatnonzero(count == 0)[:3]], surplus=[combo(k) for k in np.flatnonzero(count > 1)[:3]], states=len(states), expected=n)
    check(indexer.shape == shape, "shape of the look-up table", got=indexer.shape)
    t, e, lag, ty, age, p = states.T
    look = lambda t, e, lag, ty, age, p: indexer[t, e, lag, ty, np.where(age < 0, A + 1, age), p]  # noqa: E731
    found = look(t, e, lag, ty, age, p)
    bad = found != np.arange(n)
    if bad.any():
        k = int(np.argmax(bad))
        fail("the look-up table points elsewhere", state=states[k].tolist(), row=k, looked_up=int(found[k]))
    check((np.sort(indexer.ravel()) == np.arange(n)).all(), "the look-up table is not a numbering of the states")
    check(succ.shape == (n, 3, 2, 2), "shape of the successor table", got=succ.shape)
    last = t == T - 1
    bad = (succ[last] >= 0) & (succ[last] < n)
    if bad.any():
        k = np.flatnonzero(last)[int(np.argwhere(bad)[0][0])]
        fail("a state of the last period has a successor", state=states[k].tolist())
    row = np.full(n, -1)
    row[number] = np.arange(n)
    older = np.where((age < 0) | (age + 1 > A), -1, age + 1)
    k = np.flatnonzero(~last)
    for c, b, p2 in itertools.product(range(3), range(2), range(2)):
        to = np.stack([t + 1, e, np.full(n, c), ty, np.zeros(n, int) if b else older, np.full(n, p2)])[:, k] - lo[:, None]
        want, got = row[np.ravel_multi_index(to, shape)], succ[k, c, b, p2]
        bad = want != got
        if bad.any():
            i = int(np.argmax(bad))
            g = int(got[i])
            fail("wrong successor", state=states[k[i]].tolist(), choice=c, birth=b, partner_next=p2,
                 got=states[g].tolist() if 0 <= g < n else g, expected=states[want[i]].tolist())
    ctx.unit(n * 13)
    ctx.non_trivial(T > 1 and A > 0)
    ctx.label(f"E={E}", f"types={K}", "long" if T > 8 else "short")
    if n > 32767:
        ctx.label("more than 32767 states")


@st.composite
def large(draw):
    """Many states, few numbers to draw: constant tables."""
    c = draw(gen.model(max_periods=2, min_periods=2, num_types=draw(st.integers(1, 11)), stretch=False, max_grid=2))
    T, A = draw(st.integers(10, 60)), draw(st.integers(0, 25))
    c["spec"]["GENERAL"]["num_periods"] = T
    c["spec"]["EXOG_PROC"]["child_age_max"] = A
    for key in ("child", "arrival", "separation"):
        c["tables"][key] = [c["tables"][key][0]] * T
    return c


def tasks(tier):
    from pbt.core import Task

    return [Task("space", gen.model(max_periods=12, max_types=7), space, (40, 900)), Task("large", large(), space, (6, 100))]
