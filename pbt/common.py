"""Shared assertions."""
import numpy as np

from pbt.core import Violation


class Unavailable(Exception):
    """An internal helper that no test or entry point relies on has another name or signature; nothing is claimed about it."""


def helper(module, name):
    """An internal function of soepy; calling it raises ``Unavailable`` if it is not there or is called otherwise."""
    import importlib

    try:
        f = getattr(importlib.import_module(f"soepy.{module}"), name)
    except (ImportError, AttributeError):
        f = None

    def call(*args, **kwargs):
        if f is None:
            raise Unavailable(name)
        try:
            return f(*args, **kwargs)
        except TypeError as exc:
            if exc.__traceback__.tb_next is None:
                raise Unavailable(name) from exc
            raise

    return call


def maybe(f, *args, **kwargs):
    """The helper's result, or None if it is not available."""
    try:
        return f(*args, **kwargs)
    except Unavailable:
        return None


def fail(msg, **ctx):
    raise Violation(msg + "".join(f"\n  {k} = {v}" for k, v in ctx.items()))


def check(ok, msg, **ctx):
    if not ok:
        fail(msg, **ctx)


def close(got, want, rtol=1e-8, atol=0.0, what="value", ctx=None):
    """All entries agree within rtol * |want| + atol; the first worst entry is reported."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        fail(f"{what}: shape {got.shape}, expected {want.shape}")
    with np.errstate(invalid="ignore"):
        err = np.abs(got - want)
        bad = ~((err <= rtol * np.abs(want) + atol) | (got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        i = np.unravel_index(np.argmax(np.where(bad, np.nan_to_num(err, nan=np.inf), -1)), err.shape)
        fail(f"{what}: got {got[i]!r}, expected {want[i]!r} at index {tuple(int(k) for k in i)}; {int(bad.sum())} of {bad.size} entries differ", **(ctx or {}))


def agree(got, want, rtol=1e-8, atol=0.0):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((np.abs(got - want) <= rtol * np.abs(want) + atol) | (got == want)))


def rare(hits, n, q, level=1e-10):
    """Exact binomial test: ``hits`` of ``n`` independent events of probability ``q`` are (almost) impossible."""
    from scipy.stats import binom

    if n == 0:
        return False
    return bool(min(binom.cdf(hits, n, q), binom.sf(hits - 1, n, q)) < level)


def repeats(series, what, level=8.0):
    """Independent events of different agents: no lag at which one series repeats itself or another one.

    ``series``: name -> standardised events (mean zero, variance one, bounded) of the agents in a fixed order.
    """
    names = sorted(series)
    n = len(series[names[0]]) if names else 0
    if n < 300:
        return 0
    size = 1 << (2 * n - 1).bit_length()
    f = {k: np.fft.rfft(v, size) for k, v in series.items()}
    tests = 0
    for a in names:
        for b in names:
            c = np.fft.irfft(f[a] * np.conj(f[b]), size)[: n - 299]  # sums of a[i + lag] * b[i]
            z = np.abs(c) / np.sqrt(n - np.arange(len(c)))
            if a >= b:
                z[0] = 0
            if z.max() > level:
                fail(f"{what}: {a} of an agent and {b} of the agent {int(z.argmax())} places before are not independent (z = {z.max():.1f})")
            tests += len(z)
    return tests
