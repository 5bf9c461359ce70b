"""C13: biased beliefs change expectations and nothing else (metamorphic)."""
import copy

import numpy as np

from pbt import gen
from pbt.common import check, close, fail
from pbt.frames import rows, same
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Solutions under biased beliefs against unbiased solutions of the model with unit part-time increments; panels under both belief settings against each other and the true law of motion. "
    "Non-trivial: the biased and the unbiased solution of the generated model differ (solution), part-time work with an increment other than one occurs (histories)."
)


def unit(p):
    q = copy.deepcopy(p)
    q["exp_increase_p"] = {k: 1.0 for k in q["exp_increase_p"]}
    q["exp_increase_p_mom"] = {"gamma_p_mom": 0.0}
    return q


def solution(case, ctx):
    n = len(case["params"])
    wide = {**case, "params": case["params"] + [unit(p) for p in case["params"]]}
    m = Model(wide, ctx.dir())
    m.read()
    plain = [m.solve(k, False)[2] for k in range(2 * n)]
    for k in range(n):
        _, ncu, got = m.solve(k, True)
        want = plain[n + k]
        big = float(np.abs(want).max())
        close(m.table(got), m.table(want), 1e-9, 1e-12 * big,
              f"solution under biased beliefs (parameter vector {k}; index period, educ, lagged, type, age+1, partner, grid, alternative or expected maximum)")
        ctx.unit(got.size)
        differs = not np.allclose(plain[k], want, rtol=1e-9)
        ctx.non_trivial(differs)
        ctx.label("beliefs matter" if differs else "beliefs do not matter")


EXOGENOUS = ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator", "Male_Wages"]
ENTRY = ["Experience_Stock", "Experience_Part_Time", "Experience_Full_Time", "Lagged_Choice"]


def entry(df):
    d = rows(df)
    return d.loc[d.groupby("Identifier")["Period"].idxmin()]


def true_motion(p, ref, what):
    i, j = p.now, p.nxt
    want = np.zeros(len(i))
    for t in set(p.t[i].tolist()):
        k = p.t[i] == t
        want[k] = ref.next_stock(p.stock[i][k], t, p.inc[i][k], p.choice[i][k])
    bad = np.flatnonzero(np.abs(p.stock[j] - want) > 1e-9)
    if len(bad):
        k = bad[0]
        fail(f"{what}: experience does not follow the true part-time increment {p.inc[i][k]}: expected stock {want[k]!r}", person=p.row(i[k]), next=p.row(j[k]))


def histories(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    a, b = m.simulate(biased=True), m.simulate(biased=False)
    n = same(a, b, "exogenous history under biased and unbiased beliefs", columns=EXOGENOUS)
    ea, eb = entry(a).reset_index(drop=True), entry(b).reset_index(drop=True)
    n += same(ea, eb, "initial conditions under biased and unbiased beliefs", columns=ENTRY) if len(ea) else 0
    pa, pb = Panel(a, ref), Panel(b, ref)
    true_motion(pa, ref, "biased beliefs")
    true_motion(pb, ref, "unbiased beliefs")
    for p, what in ((pa, "biased"), (pb, "unbiased")):
        work = p.choice > 0
        res = np.log(p.wage_obs[work]) - np.log(ref.scale) - p.lw[work]
        check((np.abs(res) <= 8 * ref.sigma + 1e-9).all(), f"{what} beliefs: wages do not follow the true experience", worst=float(np.abs(res).max()) if len(res) else 0)
    both = (pa.choice > 0) & (pb.choice > 0)
    za, zb = (np.log(p.wage_obs[both]) - p.lw[both] for p in (pa, pb))
    close(za, zb, 0, 1e-9, "wage shocks under biased and unbiased beliefs")
    ctx.unit(n + 2 * pa.n)
    pt = (pa.choice == 1) & (np.abs(pa.inc - 1) > 1e-9)
    ctx.non_trivial(bool(pt.any()))
    if (pa.choice != pb.choice).any():
        ctx.label("choices differ between belief settings")


def no_bias(case, ctx):
    m = Model(case, ctx.dir())
    a, b = m.simulate(biased=True), m.simulate(biased=False)
    ctx.unit(same(a, b, "data under biased and unbiased beliefs with unit increments", rtol=1e-9))
    ctx.non_trivial(bool((rows(a)["Choice"] == 1).any()))


def tasks(tier):
    from pbt.core import Task

    small = dict(min_periods=2, max_types=2, agents=(16,), draws=(1, 3, 5), max_grid=5)
    return [
        Task("solution", gen.model(min_periods=2, n_params=(1, 2), max_types=2), solution, (5, 80)),
        Task("histories", gen.model(**small), histories, (6, 100)),
        Task("no_bias", gen.model(**small, pargs=dict(increments="one")), no_bias, (2, 40)),
    ]
