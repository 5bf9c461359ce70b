"""C21: isolation of groups, types and past periods in the solution (metamorphic)."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import close
from pbt.sut import Model

RULE = (
    "Pairs of models that differ in one education group's parameters or tables, one type's preferences, the type shares, or the family tables up to one period; the solved values outside the changed group are compared. "
    "Non-trivial: the change does alter the solved values inside the changed group."
)


@st.composite
def cases(draw):
    c = draw(gen.model(min_periods=2, max_periods=6, max_types=3, max_grid=5, draws=(1, 3, 5)))
    E, K, T = len(c["spec"]["EDUC"]["educ_years"]), 1 + len(c["params"][0].get("shares", {})), c["spec"]["GENERAL"]["num_periods"]
    c["alt"] = draw(gen.params(K))
    c["e"], c["k"], c["t"] = draw(st.integers(0, E - 1)), draw(st.integers(0, K - 1)), draw(st.integers(0, T - 2))
    rows = len(c["tables"]["child"])
    c["tab"] = {"child": draw(gen.table(rows, 3, "interior")), "arrival": draw(gen.table(rows, E, "interior")), "separation": draw(gen.table(rows, E, "interior"))}
    c["year"] = draw(st.integers(0, T))
    return c


def education_params(p, alt, e):
    q = copy.deepcopy(p)
    n = gen.EDUC_NAMES[e]
    for cat in ("const_wage_eq", "exp_return", "exp_increase_p"):
        for name in q[cat]:
            if name.endswith("_" + n):
                q[cat][name] = alt[cat][name]
    q["exp_increase_p"][f"gamma_p_{n}"] = max(q["exp_increase_p"][f"gamma_p_{n}"], -q["exp_increase_p_mom"]["gamma_p_mom"])
    for name in q["disutil_work"]:
        if name.endswith("educ_" + n):
            q["disutil_work"][name] = alt["disutil_work"][name]
    return q


def type_params(p, alt, k):
    q = copy.deepcopy(p)
    for c in "pf":
        q["hetrg_unobs"][f"theta_{c}{k}"] = alt["hetrg_unobs"][f"theta_{c}{k}"] + 0.05
    return q


def share_params(p, alt):
    q = copy.deepcopy(p)
    q["shares"] = dict(alt["shares"])
    return q


AXES = "index period, educ, lagged, type, age+1, partner, grid, alternative or expected maximum"


def same(a, b, what, ctx):
    close(a, b, 1e-10, 1e-12 * float(np.nanmax(np.abs(b))) if b.size else 0, f"{what} ({AXES})")
    ctx.unit(a.size)


def params_only(case, ctx):
    p, alt = case["params"][0], case["alt"]
    K = 1 + len(p.get("shares", {}))
    ps = [p] + [education_params(p, alt, e) for e in range(len(case["spec"]["EDUC"]["educ_years"]))]
    nE = len(ps) - 1
    if K > 1:
        ps += [type_params(p, alt, k) for k in range(1, K)] + [share_params(p, alt)]
    m = Model({**case, "params": ps}, ctx.dir())
    sol = lambda k: m.table(m.solve(k)[2])  # noqa: E731
    ncu = lambda k: m.table(m.solve(k)[1])  # noqa: E731
    base, base_n = sol(0), ncu(0)
    E = base.shape[1]
    moved = False
    for e in range(E):
        v = sol(1 + e)
        keep = [g for g in range(E) if g != e]
        same(v[:, keep], base[:, keep], f"values of other education groups after changing parameters of group {e}", ctx)
        same(ncu(1 + e)[:, keep], base_n[:, keep], f"non-pecuniary factors of other education groups after changing parameters of group {e}", ctx)
        moved |= not np.allclose(v[:, e], base[:, e], rtol=1e-9)
    for i, k in enumerate(range(1, K)):
        v = sol(1 + nE + i)
        keep = [g for g in range(K) if g != k]
        same(v[:, :, :, keep], base[:, :, :, keep], f"values of other types after changing preferences of type {k}", ctx)
        moved |= not np.allclose(v[:, :, :, k], base[:, :, :, k], rtol=1e-9)
    if K > 1:
        same(sol(len(ps) - 1), base, "values after changing the type shares", ctx)
    ctx.non_trivial(moved)
    ctx.label(f"E={E}", f"types={K}")


def tables(case, ctx):
    m = Model(case, ctx.dir())
    base = m.table(m.solve()[2])
    e, t = case["e"], case["t"]
    E = base.shape[1]
    # one education group's columns, and its entry year
    c1 = copy.deepcopy(case)
    for key in ("child", "arrival", "separation"):
        for r in range(len(c1["tables"][key])):
            c1["tables"][key][r][e] = case["tab"][key][r][e]
    c1["spec"]["EDUC"]["educ_years"][e] = case["year"]
    m1 = Model(c1, ctx.dir())
    v = m1.table(m1.solve()[2])
    keep = [g for g in range(E) if g != e]
    same(v[:, keep], base[:, keep], f"values of other education groups after changing the tables and entry year of group {e}", ctx)
    moved = not np.allclose(v[:, e], base[:, e], rtol=1e-9)
    # all tables up to and including period t
    c2 = copy.deepcopy(case)
    for key in ("child", "arrival", "separation"):
        for r in range(t + 1):
            c2["tables"][key][r] = case["tab"][key][r]
    m2 = Model(c2, ctx.dir())
    v = m2.table(m2.solve()[2])
    same(v[t + 1:], base[t + 1:], f"values after period {t} after changing the family tables up to that period", ctx)
    moved |= not np.allclose(v[: t + 1], base[: t + 1], rtol=1e-9)
    ctx.non_trivial(moved)
    ctx.label("tables")


def tasks(tier):
    from pbt.core import Task

    return [Task("params", cases(), params_only, (6, 100)), Task("tables", cases(), tables, (4, 60))]
