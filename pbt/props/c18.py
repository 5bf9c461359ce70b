"""C18: integration nodes and weights, and simulated draws."""
from math import factorial

import numpy as np
from hypothesis import strategies as st

from pbt.common import check, close, fail, helper
from pbt.props.c09 import POLICY
from pbt.sut import processed

RULE = (
    "Draw counts 1-150 (quadrature) and 1-5000 (simulated) with random seeds and random states of the global generator; random polynomials up to degree 2n-1. "
    "Non-trivial: at least three nodes (quadrature) or at least 200 draws (simulated), or an unsupported method."
)

quad = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 60), st.integers(61, 150)), "coefs": st.lists(st.integers(-9, 9), min_size=1, max_size=30), "global": st.integers(0, 999)})
carlo = st.fixed_dictionaries({"n": st.one_of(st.integers(1, 60), st.integers(200, 5000), st.integers(200, 30000)), "seed": st.integers(0, 2**31 - 1), "other": st.integers(0, 2**31 - 1), "global": st.integers(0, 999), "periods": st.one_of(st.integers(1, 12), st.integers(13, 80))})
methods = st.fixed_dictionaries({"method": st.one_of(st.sampled_from(["", "Quadrature", "QUADRATURE", "monte carlo", "montecarlo", "gauss", "sobol", "halton", "quad", None]), st.text(max_size=12)), "n": st.integers(1, 9)})


def rule(method, n, seed=1):
    get_integration_draws_and_weights = helper("shared.numerical_integration", "get_integration_draws_and_weights")

    spec = processed(POLICY, {"seed_emax": seed, "num_draws_emax": n, "integration_method": method})
    d, w = get_integration_draws_and_weights(spec)
    d, w = np.asarray(d, float), np.asarray(w, float)
    check(d.shape == (n,) and w.shape == (n,), "number of nodes and weights", nodes=d.shape, weights=w.shape, requested=n)
    check((w >= 0).all(), "negative weight", n=n, method=method)
    check(abs(w.sum() - 1) < 1e-10, f"weights sum to {w.sum()!r}", n=n, method=method)
    return d, w


def moment(k):
    return 0.0 if k % 2 else float(np.prod(np.arange(1, k, 2, dtype=float)))


def quadrature(case, ctx):
    n = case["n"]
    np.random.seed(case["global"])
    d, w = rule("quadrature", n)
    for k in range(0, 2 * n):
        if k > 60:
            break
        terms = w * d**k
        err = abs(terms.sum() - moment(k))
        scale = max(np.abs(terms).sum(), moment(k), 1.0)
        if err > 1e-8 * scale:
            fail(f"E[x^{k}] is {terms.sum()!r}, expected {moment(k)!r}", draws=n)
    c = case["coefs"][: 2 * n]
    poly = sum(a * d**k for k, a in enumerate(c))
    exact = sum(a * moment(k) for k, a in enumerate(c))
    scale = sum(abs(a) * (w @ np.abs(d) ** k) for k, a in enumerate(c)) + 1
    check(abs(w @ poly - exact) < 1e-8 * scale, f"a polynomial of degree {len(c) - 1} integrates to {w @ poly!r}, expected {exact!r}", draws=n)
    np.random.seed(case["global"] + 1)
    d2, w2 = rule("quadrature", n)
    check((d == d2).all() and (w == w2).all(), "repeating the call changes the rule", draws=n)
    ctx.unit(2 * n + 1)
    ctx.non_trivial(n >= 3)


def ztests(x, what):
    n = len(x)
    zs = {
        "mean": x.mean() * np.sqrt(n),
        "variance": ((x**2).mean() - 1) * np.sqrt(n / 2),
        "third moment": (x**3).mean() * np.sqrt(n / 15),
        "fourth moment": ((x**4).mean() - 3) * np.sqrt(n / 96),
    }
    for k, z in zs.items():
        lim = 7 if k in ("mean", "variance") else 12
        check(abs(z) < lim, f"{what}: the {k} is off (z = {z:.1f}, {n} draws)")
    if n >= 200:
        from scipy.special import ndtr

        cdf = ndtr(np.sort(x))
        ks = max(np.abs(cdf - np.arange(n) / n).max(), np.abs(cdf - np.arange(1, n + 1) / n).max()) * np.sqrt(n)
        check(ks < 3.2, f"{what}: not standard normal (Kolmogorov-Smirnov {ks:.2f}, {n} draws)")


def monte_carlo(case, ctx):
    draw_zero_one_distributed_shocks = helper("shared.numerical_integration", "draw_zero_one_distributed_shocks")

    n = case["n"]
    np.random.seed(case["global"])
    d, w = rule("monte_carlo", n, case["seed"])
    close(w, np.full(n, 1 / n), 1e-12, 0, "weights of simulated draws")
    if n >= 200:
        ztests(d, f"draws with seed {case['seed']}")
        check(len(set(np.abs(d).tolist())) == n, "repeated or mirrored draws", seed=case["seed"])
        c = np.corrcoef(d[1:], d[:-1])[0, 1] * np.sqrt(n)
        check(abs(c) < 7, "successive draws are correlated", z=c)
    else:
        few = [rule("monte_carlo", n, (case["seed"] + i) % 2**32)[0] for i in range(1000 // n + 1)]
        ztests(np.concatenate(few), f"samples of {n} draws with {len(few)} successive seeds")
        if n > 1:
            means = np.array([x.mean() for x in few]) * np.sqrt(n)
            check(abs((means**2).mean() - 1) * np.sqrt(len(few) / 2) < 9, f"the mean of {n} draws does not vary over seeds as it should", n=n, spread=(means**2).mean())
    np.random.seed(case["global"] + 1)
    np.random.normal(size=3)
    d2, _ = rule("monte_carlo", n, case["seed"])
    check((d == d2).all(), "the draws are not determined by their seed", seed=case["seed"], n=n)
    if case["other"] != case["seed"]:
        d3, _ = rule("monte_carlo", n, case["other"])
        check(not (d == d3).any() if n < 50 else (d == d3).mean() < 0.5, "two seeds give the same draws", seeds=(case["seed"], case["other"]), n=n)
    for by in [1 << k for k in range(31)] + [10**k for k in range(10)]:
        d4, _ = rule("monte_carlo", min(n, 60), (case["seed"] + by) % 2**32)
        same = (d4 == d[: len(d4)]) if n <= 60 else (d4 == rule("monte_carlo", 60, case["seed"])[0])
        check(not same.any(), f"seeds that differ by {by} give the same draws", seed=case["seed"], n=min(n, 60))
    T, m = case["periods"], min(n, 400)
    s = np.asarray(draw_zero_one_distributed_shocks(case["seed"], T, m))
    check(s.shape == (T, m), "shape of the draws", got=s.shape)
    np.random.seed(case["global"] + 2)
    check((np.asarray(draw_zero_one_distributed_shocks(case["seed"], T, m)) == s).all(), "the draws are not determined by their seed", seed=case["seed"])
    check(len(set(np.abs(s).ravel().tolist())) == T * m, "repeated or mirrored draws within or across periods", seed=case["seed"], periods=T)
    if T * m >= 200:
        ztests(s.ravel(), f"draws of {T} periods with seed {case['seed']}")
    ctx.unit(n + T * m)
    ctx.non_trivial(n >= 200)


def unknown(case, ctx):
    if case["method"] in ("quadrature", "monte_carlo"):
        return
    try:
        rule(case["method"], case["n"])
    except ValueError:
        ctx.non_trivial()
        ctx.unit()
        return
    fail(f"integration method {case['method']!r} is accepted")


def tasks(tier):
    from pbt.core import Task

    return [
        Task("quadrature", quad, quadrature, (60, 1500)),
        Task("monte_carlo", carlo, monte_carlo, (60, 1500)),
        Task("unknown", methods, unknown, (30, 300)),
    ]
