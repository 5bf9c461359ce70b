"""C06: simulated family histories follow the configured tables."""
import numpy as np

from pbt import gen
from pbt.common import fail, rare, repeats
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Panels under tables with certain and interior entries: every consecutive pair is a possible transition; large samples: frequencies of births, arrivals and separations by period, education and status, and within groups formed by anything known before (children, partner, choices, type, experience, wage, the same event of the preceding agent), by an exact binomial test at 1e-10. "
    "Non-trivial: births and partner changes both occur in the panel."
)


def transitions(p, ref):
    """Per consecutive pair: birth flag, birth probability, partner probability."""
    i, j = p.now, p.nxt
    older = ref.older(p.age[i])
    birth = p.age[j] == 0
    prob = np.zeros(len(i))
    for t in set(p.t[i].tolist()):
        k = p.t[i] == t
        prob[k] = ref.birth_row(t + 1, p.educ[i][k])
    to_p = np.zeros(len(i))
    for t in set(p.t[i].tolist()):
        k = p.t[i] == t
        to_p[k] = ref.partner_next(t, p.educ[i][k], p.partner[i][k])
    return older, birth, prob, to_p


def possible(p, ref):
    i, j = p.now, p.nxt
    older, birth, prob, to_p = transitions(p, ref)

    def pairs(ok, msg):
        bad = np.flatnonzero(~ok)
        if len(bad):
            k = bad[0]
            fail(msg, person=p.row(i[k]), next=p.row(j[k]), birth_probability=prob[k], partner_probability=to_p[k])

    pairs(birth | (p.age[j] == older), "the youngest child neither is newborn nor aged by one year")
    pairs(~birth | (prob > 0), "a birth of probability zero happened")
    pairs(birth | (prob < 1), "a certain birth did not happen")
    pairs((p.partner[j] == 0) | (to_p > 0), "a partner is present with probability zero")
    pairs((p.partner[j] == 1) | (to_p < 1), "no partner although one is present with certainty")
    return birth, prob, to_p


def exact(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    birth, prob, to_p = possible(p, ref)
    i, j = p.now, p.nxt
    ctx.unit(len(i))
    ctx.non_trivial(bool(birth.any() and (p.partner[i] != p.partner[j]).any()))
    last = ref.px["last_child_bearing_period"]
    if (p.t[j] > last).any():
        ctx.label("periods after the last child-bearing period")
    if (prob == 1).any():
        ctx.label("certain births")
    if ((p.age[i] == ref.A) & ~birth).any():
        ctx.label("child leaves")


def splits(p):
    """Groups of agents formed by what is known before the transition: none of them may matter for its probability."""
    i = p.now
    out = {"all": np.ones(len(i), bool), "mothers": p.age[i] >= 0, "childless": p.age[i] < 0, "newborn": p.age[i] == 0, "oldest child": p.age[i] == p.ref.A}
    for lo in range(0, p.ref.A + 1, 4):
        out[f"child of {lo} to {lo + 3}"] = (p.age[i] >= lo) & (p.age[i] <= lo + 3)
    out["with partner"], out["single"] = p.partner[i] == 1, p.partner[i] == 0
    for c in range(3):
        out[f"choice {c}"] = p.choice[i] == c
        out[f"previous choice {c}"] = p.lag[i] == c
    for c in range(p.ref.types):
        out[f"type {c}"] = p.type[i] == c
    out["even identifier"] = p.id[i] % 2 == 0
    out["first half"] = p.id[i] < p.id.max() / 2
    out["experienced"] = p.stock[i] > np.median(p.stock[i]) if len(i) else np.zeros(0, bool)
    out["high wage"] = p.wage_obs[i] > np.nanmedian(p.wage_obs) if np.isfinite(p.wage_obs).any() else np.zeros(len(i), bool)
    return out


def neighbours(flag, ident, t, k):
    """``flag`` of the agent with the preceding identifier in the same period (False where there is none)."""
    out = np.zeros(len(flag), bool)
    n = ident.max() + 2
    for s in set(t.tolist()):
        m = t == s
        by = np.zeros(n, bool)
        by[ident[m & k] + 1] = flag[m & k]
        out[m] = by[ident[m]]
    return out


def frequencies(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    birth, prob, to_p = possible(p, ref)
    i, j = p.now, p.nxt
    if not len(i):
        return
    groups = splits(p)
    everyone = np.ones(len(i), bool)
    partner = p.partner[j] == 1
    births = dict(groups)
    births["next partner"] = partner
    births["neighbour with a birth"] = neighbours(birth, p.id[i], p.t[i], everyone)
    arrivals = dict(groups)
    arrivals["next newborn"] = birth
    arrivals["neighbour with a partner"] = neighbours(partner, p.id[i], p.t[i], everyone)
    tests = 0

    def test(hits, q, what):
        n = len(hits)
        if n < 30 or not 0 < q < 1:
            return 0
        k = int(hits.sum())
        if rare(k, n, q):
            fail(f"{what}: {k} of {n}, tabulated probability {q}")
        return int(n * min(q, 1 - q) > 5)

    for t in range(ref.T - 1):
        for e in range(ref.E):
            base = (p.t[i] == t) & (p.educ[i] == e)
            if base.sum() < 30:
                continue
            for name, split in births.items():
                k = base & split
                tests += test(birth[k], prob[base][0], f"births from period {t} to {t + 1}, education {e}, {name}")
            for s in (0, 1):
                own = base & (p.partner[i] == s)
                if own.any():
                    for name, split in arrivals.items():
                        k = own & split
                        tests += test(partner[k], to_p[own][0], f"partner after period {t}, education {e}, status {s}, {name}")
    series = {}
    for name, event, q in (("the birth", birth, prob), ("the partner", partner, to_p)):
        inner = (q >= 0.2) & (q <= 0.8)
        r = np.where(inner, (event - q) / np.sqrt(np.where(inner, q * (1 - q), 1)), 0.0)
        for t in range(ref.T - 1):
            k = (p.t[i] == t) & inner
            if k.sum() >= 0.7 * (p.t[i] == t).sum() and k.sum() >= 500:
                series[f"{name} after period {t}"] = np.bincount(p.id[i][k], r[k], p.id.max() + 1)
    if series:
        tests += repeats(series, "family events") > 0
        ctx.label("independence across agents at every distance")
    ctx.unit(tests)
    ctx.label("frequency tests" if tests else "no frequency tests")
    ctx.non_trivial(tests > 0)


def tasks(tier):
    from pbt.core import Task

    return [
        Task("exact", gen.model(agents=(8, 16), min_periods=2, max_types=2, draws=(1,), child_mode="certain", max_grid=3), exact, (8, 110)),
        Task("mixed", gen.model(agents=(16,), min_periods=2, max_types=1, draws=(1,), child_mode="mixed", partner_mode="mixed", entry="zero", max_grid=3), exact, (6, 110)),
        Task("frequencies", gen.model(agents=(2000,), min_periods=3, max_periods=5, max_types=2, draws=(1,), child_mode="interior", partner_mode="interior", entry="zero", max_educ=3, kid_max=(0, 1, 3, 5), max_grid=3), frequencies, (4, 60)),
        Task("grown_children", gen.model(agents=(1500,), min_periods=2, max_periods=4, max_types=1, draws=(1,), child_mode="interior", partner_mode="interior", entry="zero", kid_max=(18,), max_grid=2, stretch="grown"), frequencies, (2, 25)),
    ]
