"""C19: linear interpolation."""
import numpy as np
from hypothesis import strategies as st

from pbt.common import check, close

RULE = (
    "Grids of 2, 3, 4, 6, 11 or 20 increasing points (even, random, with gaps down to 1e-9, wide ranges), values of any sign and size, query points on the grid, next to it and inside intervals. "
    "Non-trivial: an uneven grid with non-linear values."
)


@st.composite
def cases(draw):
    n = draw(st.sampled_from([2, 3, 4, 6, 11, 20]))
    kind = draw(st.integers(0, 3))
    if kind == 0:
        g = [k / (n - 1) for k in range(n)]
    elif kind == 1:
        g = sorted(draw(st.lists(st.integers(0, 4096), min_size=n, max_size=n, unique=True)))
        g = [v / 4096 for v in g]
    elif kind == 2:
        g, x = [], draw(st.integers(-50, 50)) / 1.0
        for _ in range(n):
            g.append(x)
            x += draw(st.sampled_from([1e-9, 1e-6, 1e-3, 0.1, 1.0, 7.0, 100.0]))
    else:
        x = draw(st.floats(-100, 100, width=32))
        g = [float(x)]
        for _ in range(n - 1):
            g.append(g[-1] + draw(st.integers(1, 1000)) / 100)
    scale = draw(st.sampled_from([1.0, 1e-3, 1e6]))
    v = [scale * k / 8 for k in draw(st.lists(st.integers(-800, 800), min_size=n, max_size=n))]
    u = [scale * k / 8 for k in draw(st.lists(st.integers(-800, 800), min_size=n, max_size=n))]
    q = draw(st.lists(st.tuples(st.integers(0, n - 2), st.integers(0, 64)), min_size=12, max_size=12))
    return {"grid": g, "values": v, "more": u, "q": [list(p) for p in q], "a": draw(st.integers(-20, 20)) / 4, "b": draw(st.integers(-20, 20)) / 4}


def interpolate(case, ctx):
    import jax
    import jax.numpy as jnp
    from soepy.shared.interpolation import linear_interp_1d

    g = np.array(case["grid"], float)
    if (np.diff(g) <= 0).any():
        return
    v, u = np.array(case["values"]), np.array(case["more"])
    i = np.array([p[0] for p in case["q"]])
    fr = np.array([p[1] / 64 for p in case["q"]])
    x = np.clip(g[i] * (1 - fr) + g[i + 1] * fr, g[i], g[i + 1])
    x = np.concatenate([x, g])
    i = np.concatenate([i, np.minimum(np.arange(len(g)), len(g) - 2)])
    f = lambda vals, pts: np.asarray(linear_interp_1d(jnp.asarray(g), jnp.asarray(vals), jnp.asarray(pts)))  # noqa: E731
    got = f(v, x)
    check(got.shape == x.shape, "shape of the result", got=got.shape)
    big = max(np.abs(v).max(), np.abs(u).max(), 1e-300)
    lo, hi = np.minimum(v[i], v[i + 1]), np.maximum(v[i], v[i + 1])
    info = dict(grid=g.tolist(), values=v.tolist())
    for k in range(len(x)):
        check(lo[k] - 1e-11 * big <= got[k] <= hi[k] + 1e-11 * big, f"at {x[k]!r} the result {got[k]!r} is outside the neighbouring values {lo[k]!r} and {hi[k]!r}", **info)
    w = (x - g[i]) / (g[i + 1] - g[i])
    want = v[i] * (1 - w) + v[i + 1] * w
    close(got, want, 0, 1e-11 * big, "interpolated values at " + repr(x.tolist()), info)
    close(f(v, g), v, 0, 1e-12 * big, "values at the grid points", info)
    # straight lines, linearity in the values, monotone data, batching
    span = max(abs(g[0]), abs(g[-1]), 1.0)
    line = case["a"] + case["b"] * g
    close(f(line, x), case["a"] + case["b"] * x, 0, 1e-10 * span * (1 + abs(case["a"]) + abs(case["b"])), "a straight line", info)
    mix = case["a"] * v + case["b"] * u
    close(f(mix, x), case["a"] * got + case["b"] * f(u, x), 0, 1e-10 * big * (1 + abs(case["a"]) + abs(case["b"])), "linearity in the values", info)
    rising = f(np.sort(v), np.sort(x))
    check((np.diff(rising) >= -1e-11 * big).all(), "rising values, falling interpolant", **info)
    one = np.array([float(linear_interp_1d(jnp.asarray(g), jnp.asarray(v), p)) for p in x[:4]])
    close(one, got[:4], 0, 1e-12 * big, "a single query point", info)
    batch = jax.vmap(linear_interp_1d, in_axes=(None, 0, None))(jnp.asarray(g), jnp.stack([jnp.asarray(v), jnp.asarray(u)]), jnp.asarray(x))
    close(np.asarray(batch), np.stack([got, f(u, x)]), 0, 1e-12 * big, "batched over values", info)
    batch = jax.vmap(lambda p: linear_interp_1d(jnp.asarray(g), jnp.asarray(v), p))(jnp.asarray(np.stack([x, x[::-1]])))
    close(np.asarray(batch), np.stack([got, got[::-1]]), 0, 1e-12 * big, "batched over query points", info)
    ctx.unit(7 * len(x))
    d = np.diff(g)
    uneven = d.max() > 1.001 * d.min()
    ctx.non_trivial(uneven and len(g) > 2 and len(set(v.tolist())) > 2)
    ctx.label("uneven" if uneven else "even", "close points" if d.min() < 1e-5 else "spread points")


def tasks(tier):
    from pbt.core import Task

    return [Task("interpolate", cases(), interpolate, (50, 2500))]
