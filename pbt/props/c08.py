"""C08: initial conditions follow the configured distributions."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, fail, rare, repeats
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "First rows of simulated panels: exact rules for lagged choice and experience, values of probability zero never drawn; large samples: shares overall and within groups formed by the other characteristics, by an exact binomial test at 1e-10. "
    "Non-trivial: some agent enters with positive experience (exact), at least one interior share is tested (large)."
)

FINDING = "late-entrants-experience-scaled-at-period-zero"


def remainder(row):
    return [1 - sum(row[1:])] + list(row[1:])


def drawn(p, ref):
    """(name, education or None, drawn values, probabilities by value) for every initial distribution."""
    t = ref.case["tables"]
    f = p.first
    yield "education", None, p.educ[f], dict(enumerate(t["educ_shares"]))
    yield "type", None, p.type[f], dict(enumerate(ref.type_shares))
    for e in range(ref.E):
        k = f[p.educ[f] == e]
        yield "child age", e, p.age[k], {a - 1: s for a, s in enumerate(remainder(t["child_age_shares"][e]))}
        yield "partner", e, p.partner[k], {1: t["partner_shares"][e], 0: 1 - t["partner_shares"][e]}
        yield "part-time years", e, p.pt[k], dict(enumerate(remainder(t["pt_shares"][e])))
        yield "full-time years", e, p.ft[k], dict(enumerate(remainder(t["ft_shares"][e])))


def exact(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    for name, e, values, probs in drawn(p, ref):
        for v in set(values.tolist()):
            check(v in probs and probs[v] > 0, f"{name} {v} drawn at entry (education {e}) although its share is {probs.get(v, 'not tabulated')}", shares=probs)
    f = p.first
    total = p.pt[f] * p.inc[f] + p.ft[f]
    whole = np.abs(total - np.round(total))
    clear = (whole < 1e-10) | (whole > 1e-6)  # whole years up to rounding, or clearly fractional
    lag = np.where(whole > 1e-6, 1, np.where(np.round(total) > 1, 2, 0))
    bad = clear & (p.lag[f] != lag)
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        fail(f"initial lagged choice {p.lag[f][k]}, total initial experience {total[k]!r} implies {lag[k]}", person=p.row(f[k]), part_time=int(p.pt[f][k]), full_time=int(p.ft[f][k]))
    right = np.abs(p.years[f] - total) <= 1e-9 * (1 + total)
    # recorded defect: the stock of late entrants is computed with period zero's maximum
    stock0 = total / (ref.x0 if ref.x0 > 0 else 1.0)
    known = ~right & (p.t[f] > 0) & (np.abs(p.stock[f] - stock0) <= 1e-9 * (1 + stock0))
    bad = ~right & ~known
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        fail(f"initial experience is {p.years[f][k]!r} years, part-time years x increment + full-time years is {total[k]!r}", person=p.row(f[k]), increment=float(p.inc[f][k]), counters=(int(p.pt[f][k]), int(p.ft[f][k])))
    if known.any():
        ctx.finding(FINDING)
    ctx.unit(len(f))
    ctx.non_trivial(bool((total > 0).any()))
    if (p.t[f] > 0).any():
        ctx.label("late entrants")
    if (whole > 1e-6).any():
        ctx.label("fractional experience")
    if ((p.age[f] >= 0) & (p.age[f] <= 2) & (p.pt[f] > 0)).any() and ref.mom:
        ctx.label("mother's supplement at entry")


def frequencies(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    f = p.first
    n_tests = 0
    series, done = {}, None

    def groups(name, k):
        """Subsets of the agents ``k`` formed by the other, independently drawn characteristics."""
        yield "everyone", np.ones(len(k), bool)
        yield "even identifiers", p.id[k] % 2 == 0
        yield "first half of the sample", p.id[k] < p.id.max() / 2
        if name == "education":
            return
        for other, flag in (("child age", p.age[k] >= 0), ("partner", p.partner[k] == 1), ("part-time years", p.pt[k] > 0), ("full-time years", p.ft[k] > 0)):
            if other != name:
                yield f"with {other}", flag
                yield f"without {other}", ~flag
        if name != "child age":
            for age in sorted(set(p.age[k].tolist())):
                yield f"with a child aged {age}", p.age[k] == age
            yield "with a child of eleven or more", p.age[k] >= 11
        if name != "type":
            yield "type 0", p.type[k] == 0
        else:
            for e in range(ref.E):
                yield f"education {e}", p.educ[k] == e

    for name, e, values, probs in drawn(p, ref):
        k = f if e is None else f[p.educ[f] == e]
        for v in set(values.tolist()):
            check(v in probs and probs[v] > 0, f"{name} {v} drawn at entry (education {e}) although its share is {probs.get(v, 'not tabulated')}")
        for v, q in probs.items():
            if not 0 < q < 1:
                continue
            same = values == v
            if 0.2 <= q <= 0.8 and len(k) >= 300 and done != (name, e):
                done = (name, e)  # values of one characteristic exclude each other
                series[f"{name} {v}" + ("" if e is None else f" with education {e}")] = np.bincount(p.id[k], (same - q) / np.sqrt(q * (1 - q)), p.id.max() + 1)
            prev = np.append(False, same[:-1])
            for group, flag in [*groups(name, k), ("agents after one with the same value", prev)]:
                n = int(flag.sum())
                if n < 50:
                    continue
                hits = int(same[flag].sum())
                n_tests += n * min(q, 1 - q) > 5
                if rare(hits, n, q):
                    fail(f"{name} {v} at entry (education {e}, {group}): {hits} of {n} agents, configured share {q}", shares=probs)
    if len(series) > 1:
        n_tests += repeats(series, "initial draws") > 0
    ctx.unit(n_tests)
    ctx.non_trivial(n_tests > 0)


@st.composite
def whole_years(draw):
    """Decimal increments that add up to whole years for mothers, not always exactly in binary arithmetic."""
    c = draw(gen.model(agents=(16,), max_periods=2, max_types=1, draws=(1,), max_grid=2, kid_max=(2,), init_exp=2, stretch=False, entry="zero"))
    n = draw(st.sampled_from([10, 5, 8]))
    c["spec"]["INITIAL_CONDITIONS"]["init_exp_max"] = n
    E = len(c["spec"]["EDUC"]["educ_years"])
    for k in ("pt", "ft"):
        c["tables"][f"{k}_shares"] = [draw(gen.shares(n + 1)) for _ in range(E)]
    c["spec"]["INITIAL_CONDITIONS"]["child_age_init_max"] = 2
    c["tables"]["child_age_shares"] = [[0.25] * 4 for _ in range(E)]
    for i in range(E):  # the increment of mothers is a multiple of 1 / n
        c["tables"]["pt_shares"][i] = [0.25] + [0.0] * (n - 1) + [0.75]
    total = draw(st.integers(1, n)) * 1000 // n
    own = draw(st.integers(1, total))
    c["params"][0]["exp_increase_p"] = {k: own / 1000 for k in c["params"][0]["exp_increase_p"]}
    c["params"][0]["exp_increase_p_mom"]["gamma_p_mom"] = (total - own) / 1000
    return c


def tasks(tier):
    from pbt.core import Task

    return [
        Task("exact", gen.model(agents=(8, 16), max_periods=4, max_types=3, draws=(1,), max_grid=3, kid_max=(0, 1, 2, 3, 5)), exact, (12, 200)),
        Task("whole_years", whole_years(), exact, (8, 120)),
        Task("frequencies", gen.model(agents=(3000,), max_periods=2, draws=(1,), entry="zero", max_grid=2, kid_max=(0, 1, 2, 4)), frequencies, (6, 90)),
        Task("grown_children", gen.model(agents=(3000,), max_periods=1, draws=(1,), entry="zero", max_grid=2, kid_max=(18,), stretch="grown", max_types=1), frequencies, (1, 15)),
        Task("late", gen.model(agents=(3000,), min_periods=2, max_periods=3, draws=(1,), entry="within", max_grid=2, kid_max=(0, 2), max_types=2), frequencies, (1, 15)),
    ]
