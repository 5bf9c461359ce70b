"""C07: agents' beliefs about births and partners match the simulated process."""
import numpy as np

from pbt import gen
from pbt.common import fail, rare
from pbt.panel import ALT, Panel
from pbt.props.c06 import transitions
from pbt.ref import Ref, interp_rows
from pbt.sut import Model

RULE = (
    "Certain tables: for every person-period before the last, the continuation value of the chosen alternative must be the solved value of the state actually reached. "
    "General tables: every continuation value of the solution must be the average of the next period's solved values under the probabilities of the simulated process. "
    "Large samples: joint frequencies of births and partner transitions are those of the product the solution uses. "
    "Non-trivial: some family transition (or interior probability) matters for the value."
)

FINDING = "birth-row-off-by-one"


def reached(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    _, _, emaxs = m.solve()
    emax = m.table(emaxs)[..., 3]
    cont = p.cols("Continuation_Value")
    i, j = p.now, p.nxt
    if not len(i):
        return
    c = p.choice[i]
    inc = ref.increment(p.educ[i], p.age[i], case["biased"])
    hit = False

    def value(age, partner):
        out = np.empty(len(i))
        for k in range(len(i)):
            t = p.t[i[k]]
            v = emax[t + 1, p.educ[i[k]], c[k], p.type[i[k]], age[k] + 1, partner[k]]
            on_grid = interp_rows(ref.next_stock(ref.grid, t, inc[k], c[k]), ref.grid, v)
            out[k] = interp_rows(np.array([p.stock[i[k]]]), ref.grid, on_grid)[0]
        return out

    got = cont[i, c]
    size = np.abs(emax).max()
    want = value(p.age[j], p.partner[j])
    ok = np.abs(got - want) <= 1e-9 * np.abs(want) + 1e-12 * size
    older = ref.older(p.age[i])
    # recorded defect: the solution uses the birth probability of the current row
    row_now = np.array([ref.birth_row(p.t[i[k]], p.educ[i[k]]) for k in range(len(i))])
    row_next = np.array([ref.birth_row(p.t[i[k]] + 1, p.educ[i[k]]) for k in range(len(i))])
    off = value(np.where(row_now == 1, 0, older), p.partner[j])
    known = ~ok & (row_now != row_next) & (np.abs(got - off) <= 1e-9 * np.abs(off) + 1e-12 * size)
    bad = ~ok & ~known
    if bad.any():
        k = int(np.flatnonzero(bad)[0])
        fail(
            f"continuation value of {ALT[c[k]]} is {got[k]!r}, the solved value of the state reached with certainty is {want[k]!r}",
            person=p.row(i[k]), next=p.row(j[k]), birth_rows=(row_now[k], row_next[k]),
        )
    if known.any():
        ctx.finding(FINDING)
    other = value(np.where(p.age[j] == 0, older, 0), p.partner[j])
    other_p = value(p.age[j], 1 - p.partner[j])
    hit = bool((np.abs(other - want) > 1e-6 * np.abs(want)).any() and (np.abs(other_p - want) > 1e-6 * np.abs(want)).any())
    ctx.unit(len(i))
    ctx.non_trivial(hit)
    if (row_now == row_next).any():
        ctx.label("birth rows equal")
    if (row_now != row_next).any():
        ctx.label("birth rows differ")


def weights(case, ctx):
    m = Model(case, ctx.dir())
    m.space()
    ref = Ref(case)
    _, _, emaxs = m.solve()
    tab = m.table(emaxs)
    emax, got = tab[..., 3], tab[..., :3]
    nt = False
    for t in range(ref.T - 1):
        size = np.abs(emax[t + 1]).max()
        tol = lambda w: 1e-9 * np.abs(w) + 1e-12 * size  # noqa: E731
        want = ref.continuation(t, emax[t + 1], case["biased"], lambda s, e: ref.birth_row(s + 1, e))
        ok = np.abs(got[t] - want) <= tol(want)
        e = np.indices(ok.shape)[0]
        now, nxt = ref.birth_row(t, e), ref.birth_row(t + 1, e)
        off = ref.continuation(t, emax[t + 1], case["biased"], ref.birth_row)
        known = ~ok & (now != nxt) & (np.abs(got[t] - off) <= tol(off))
        bad = ~ok & ~known
        if bad.any():
            x = tuple(int(v) for v in np.argwhere(bad)[0])
            fail(
                f"continuation value in period {t} at (educ, lagged, type, age+1, partner, grid, alternative) {x}: {got[t][x]!r}, "
                f"the simulated process implies {want[x]!r} (with the birth probability of the current row: {off[x]!r})",
                birth_rows=(float(now[x]), float(nxt[x])),
            )
        if known.any():
            ctx.finding(FINDING)
        ctx.unit(ok.size)
        flat = ref.continuation(t, emax[t + 1], case["biased"], lambda s, e: 0.0 * e)
        nt |= bool((np.abs(flat - want) > tol(want) * 100).any())
    ctx.non_trivial(nt)


def joint(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    i, j = p.now, p.nxt
    _, birth, prob, to_p = transitions(p, ref)
    tests = 0
    for t in range(ref.T - 1):
        for e in range(ref.E):
            for s in (0, 1):
                k = (p.t[i] == t) & (p.educ[i] == e) & (p.partner[i] == s)
                n = int(k.sum())
                if n < 100:
                    continue
                b, q = prob[k][0], to_p[k][0]
                for bb, pb in ((True, b), (False, 1 - b)):
                    for pp, pq in ((1, q), (0, 1 - q)):
                        w = pb * pq
                        if not 0 < w < 1:
                            continue
                        hits = (birth[k] == bb) & (p.partner[j][k] == pp)
                        tests += n * min(w, 1 - w) > 5
                        if rare(int(hits.sum()), n, w):
                            fail(f"period {t}, education {e}, partner {s}: {int(hits.sum())} of {n} transitions to (birth {bb}, partner {pp}), the solution's weight implies probability {w}")
    ctx.unit(tests)
    ctx.non_trivial(tests > 0)


def tasks(tier):
    from pbt.core import Task

    common = dict(min_periods=2, max_types=2, max_grid=5, draws=(1, 2))
    return [
        Task("reached", gen.model(agents=(8, 16), child_mode="certain", partner_mode="certain", **common), reached, (9, 120)),
        Task("weights", gen.model(agents=(4,), **common), weights, (14, 200)),
        Task("joint", gen.model(agents=(2000,), min_periods=2, max_periods=4, max_types=1, draws=(1,), child_mode="interior", partner_mode="interior", entry="zero", max_educ=2, kid_max=(0, 1), max_grid=2), joint, (3, 40)),
    ]
