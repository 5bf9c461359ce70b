"""C12: observed wages and the distribution of wage shocks."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, fail, repeats
from pbt.panel import Panel
from pbt.props.c18 import ztests
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Panels without shocks (wages must be exact), small panels with shocks (one draw per person-period), and large panels whose recovered draws are tested for mean, spread, higher moments, normality and independence across agents, periods and characteristics. "
    "Non-trivial: at least one working person-period with positive experience (exact), or at least 3000 recovered draws (distribution)."
)


def exact(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    work = p.choice > 0
    nan = np.isnan(p.wage_obs)
    bad = np.flatnonzero(nan == work)
    if len(bad):
        fail("a wage is observed exactly for those who work, but here it is " + ("missing" if nan[bad[0]] else "present"), person=p.row(bad[0]))
    res = np.log(p.wage_obs[work]) - np.log(ref.scale) - p.lw[work]
    if ref.sigma == 0:
        k = np.flatnonzero(np.abs(res) > 1e-9)
        if len(k):
            i = np.flatnonzero(work)[k[0]]
            fail(f"wage {p.wage_obs[i]!r}, expected {ref.scale * np.exp(p.lw[i])!r}", person=p.row(i), years=p.years[i], scale=ref.scale)
    else:
        z = res / ref.sigma
        check((np.abs(z) < 8).all(), "a wage shock above eight standard deviations", worst=float(np.abs(z).max()) if len(z) else 0)
        check(len(set(np.round(z, 9).tolist())) == len(z), "two working person-periods share one wage shock")
    ctx.unit(p.n)
    ctx.non_trivial(bool((work & (p.years > 0)).any()))
    ctx.label("with shocks" if ref.sigma else "without shocks", f"scale={ref.scale}")


def distribution(case, ctx):
    case["tables"]["child"] = [[0.0] * 3 for _ in case["tables"]["child"]]
    case["tables"]["child_age_shares"] = [[1.0] + [0.0] * (len(r) - 1) for r in case["tables"]["child_age_shares"]]
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    z = p.shocks() / ref.sigma
    known = np.isfinite(z)
    if known.mean() < 0.99:
        ctx.label("skipped: draws not recoverable")
        return
    ztests(z[known], "wage shocks divided by sigma")
    dup = len(z[known]) - len(set(np.round(np.abs(z[known]), 7).tolist()))
    check(dup <= 3 + known.sum() ** 2 * 2e-7, f"{dup} repeated or mirrored wage shocks")
    tests = {}

    def corr(a, b, name):
        ok = np.isfinite(a) & np.isfinite(b)
        a, b = a[ok], b[ok]
        if len(a) > 100 and a.std() > 0 and b.std() > 0:
            tests[name] = np.corrcoef(a, b)[0, 1] * np.sqrt(len(a))

    for t in range(ref.T):
        k = known & (p.t == t)
        if k.sum() > 100:
            tests[f"mean in period {t}"] = z[k].mean() * np.sqrt(k.sum())
            tests[f"variance in period {t}"] = ((z[k] ** 2).mean() - 1) * np.sqrt(k.sum() / 2)
    mat = np.full((p.id.max() + 1, ref.T), np.nan)
    mat[p.id, p.t] = z
    for a in range(ref.T):
        for b in range(a):
            corr(mat[:, a], mat[:, b], f"periods {b} and {a}")
            corr(mat[:, a] ** 2, mat[:, b] ** 2, f"squares of periods {b} and {a}")
            for lag in (1, 2):
                corr(mat[lag:, a], mat[:-lag, b], f"period {a} with period {b} of the agent {lag} before")
        for lag in (1, 2, 10):
            corr(mat[lag:, a], mat[:-lag, a], f"agents {lag} apart in period {a}")
    repeats({f"the shock in period {t}": np.nan_to_num(mat[:, t]) for t in range(min(ref.T, 6))}, "wage shocks", level=9.0)
    for name, v in (("education", p.educ), ("type", p.type), ("partner", p.partner), ("experience", p.stock), ("previous choice", p.lag)):
        corr(z, v.astype(float), name)
        corr(z**2, v.astype(float), name + " (square)")
    for name, v in tests.items():
        check(abs(v) < 7, f"wage shocks: {name}: z = {v:.1f}")
    ctx.unit(len(tests))
    ctx.non_trivial(known.sum() >= 3000)


FINDING = "shocks-share-the-stream-of-the-initial-draws"


def across_seeds(case, ctx):
    """A very small sample simulated with many seeds: every agent's shock is standard normal and independent of all else."""
    m = Model(case, ctx.dir())
    ref = Ref(case)
    T, N = ref.T, case["spec"]["SIMULATION"]["num_agents_sim"]
    seeds = [case["first"] + k * case["step"] for k in range(case["runs"])]
    Z, X, Y, repeats = [], [], [], True
    for seed, d in zip(seeds, m.repeated(seeds)):
        p = Panel(d, ref)
        z = (p.shocks() / ref.sigma).reshape(N, T)
        Z.append(z.T.ravel())
        first = p.first
        X.append(np.concatenate([a[first] for a in (p.educ, p.type, p.age, p.partner, p.stock)]).astype(float))
        Y.append(np.concatenate([a.reshape(N, T)[:, 1:].ravel() for a in (p.age, p.partner)]).astype(float))
        # the shocks are the first normals after seeding, that is, made from the uniforms that decide the initial draws
        repeats &= bool(np.allclose(z.T, np.random.RandomState(seed).normal(0, 1, (T, N)), atol=1e-6, equal_nan=True))
    Z, X, Y = np.array(Z), np.array(X), np.array(Y)
    if not np.isfinite(Z).all():
        ctx.label("skipped: draws not recoverable")
        return
    n = len(Z)
    check(len(np.unique(np.round(Z[:, 0], 9))) == n, "two seeds give the same first wage shock")

    def corr(a, b):
        a, b = a - a.mean(0), b - b.mean(0)
        with np.errstate(all="ignore"):
            r = (a.T @ b) / np.sqrt(np.outer((a**2).sum(0), (b**2).sum(0)))
        r[~np.isfinite(r)] = 0
        return r * np.sqrt(n)

    names = [f"agent {i} in period {t}" for t in range(T) for i in range(N)]
    for j, name in enumerate(names):
        check(abs(Z[:, j].mean()) * np.sqrt(n) < 7, f"the mean wage shock of {name} over {n} seeds is {Z[:, j].mean():.3f}")
        check(abs((Z[:, j] ** 2).mean() - 1) * np.sqrt(n / 2) < 12, f"the variance of the wage shock of {name} over {n} seeds is {(Z[:, j] ** 2).mean():.3f}")
    c = np.abs(corr(Z, Z)) - 1e9 * np.eye(len(names))
    if (c > 7).any():
        a, b = np.argwhere(c > 7)[0]
        fail(f"over {n} seeds the wage shocks of {names[a]} and {names[b]} are correlated: {c[a, b] / np.sqrt(n):.2f}")
    spread = np.concatenate([X, Y], axis=1)
    often = np.array([min((col == v).sum() for v in np.unique(col)) >= 0.1 * n for col in spread.T])
    dep = np.abs(corr(Z, spread)) * often
    if (dep > 7).any():
        a, b = np.argwhere(dep > 7)[0]
        if not repeats:
            fail(f"over {n} seeds the wage shock of {names[a]} depends on characteristic {b} of the sample: correlation {dep[a, b] / np.sqrt(n):.2f}")
        ctx.finding(FINDING)
    ctx.unit(Z.size)
    ctx.non_trivial(n >= 100 and T > 1)


@st.composite
def seeds(draw):
    mild = dict(sigma=draw(gen.num(0.2, 1.0, 0.1)), mus=[-0.5, 0.5, 0.3])
    c = draw(gen.model(agents=(1, 1, 2), min_periods=2, max_periods=3, max_types=2, draws=(1,), entry="zero", max_grid=3, kid_max=(2, 3), regime="elterngeld",
                       partner_wages="low", child_mode="interior", partner_mode="interior", stretch=False, pargs=mild))
    c["first"], c["step"], c["runs"] = draw(st.integers(0, 10**6)), draw(st.sampled_from([1, 1, 7, 1000])), 240
    c["spec"]["TAXES_TRANSFERS"]["child_care_costs"] = {"under_3": [0, 0], "3_to_6": [0, 0]}
    c["spec"]["TAXES_TRANSFERS"]["ssc_rate"] = 0.2
    return flat_partners(c)


def flat_partners(c):
    c["spec"]["EXOG_PROC"]["partner_cf_age"] = c["spec"]["EXOG_PROC"]["partner_cf_age_sq"] = 0.0
    return c


def tasks(tier):
    from pbt.core import Task

    def pargs(**k):
        return dict(pargs=k)

    def big(n, lo, hi):
        return lambda s: gen.model(agents=(n,), min_periods=lo, max_periods=hi, stretch=n > 1000, max_types=2, draws=(2,), entry="zero", max_grid=3, kid_max=(0,), regime="elterngeld", partner_wages="low", **pargs(sigma=s, wages="any"))

    sigma = gen.num(0.2, 1.0, 0.1)
    small = dict(agents=(16,), min_periods=2, max_types=2, draws=(1, 3), max_grid=4)
    return [
        Task("no_shocks", gen.model(**small, **pargs(sigma=0.0, wages="any")), exact, (6, 110)),
        Task("shocks", gen.model(**small, **pargs(wages="any")), exact, (4, 80)),
        Task("distribution", sigma.flatmap(big(1500, 3, 5)), distribution, (3, 50)),
        Task("across_seeds", seeds(), across_seeds, (1, 12), workers=4),
        Task("long", sigma.flatmap(big(250, 13, 45)).map(flat_partners), distribution, (2, 30)),
    ]
