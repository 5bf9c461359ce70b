"""C03: the simulation acts on the solved values at the agent's own experience."""
import numpy as np

from pbt import gen
from pbt.common import fail
from pbt.panel import ALT, Panel
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Simulated panels plus the solution of the same model; continuation values are compared with numpy.interp of the solution at the agent's state and stock. "
    "Non-trivial: the grid is uneven and some agent's stock lies strictly inside a cell with different end values before the last period."
)


def continuation(case, ctx):
    m = Model(case, ctx.dir())
    ref = Ref(case)
    p = Panel(m.simulate(), ref)
    if p.n == 0:
        return
    _, _, emaxs = m.solve()
    tab = m.table(emaxs)
    got = p.cols("Continuation_Value")
    grid = ref.grid
    inner = False
    for i in range(p.n):
        v = tab[p.t[i], p.educ[i], p.lag[i], p.type[i], p.age[i] + 1, p.partner[i]]
        for j in range(3):
            want = np.interp(p.stock[i], grid, v[:, j])
            size = np.abs(v[:, j]).max()
            if not abs(got[i, j] - want) <= 1e-9 * size:
                fail(f"continuation value of {ALT[j]}: got {got[i, j]!r}, solved values at stock {p.stock[i]!r} interpolate to {want!r} (grid {grid.tolist()}, solved {v[:, j].tolist()})", person=p.row(i))
            if p.t[i] == ref.T - 1 and got[i, j] != 0:
                fail(f"continuation value of {ALT[j]} in the last period is {got[i, j]!r}", person=p.row(i))
        k = np.searchsorted(grid, p.stock[i])
        if 0 < k < len(grid) and p.stock[i] not in grid and not np.isclose(v[k - 1, 2], v[k, 2], rtol=1e-7, atol=0):
            inner = True
    ctx.unit(3 * p.n)
    uneven = not np.allclose(np.diff(grid), grid[1])
    ctx.label("uneven" if uneven else "even")
    if (p.stock < grid[0]).any() or (p.stock > grid[-1]).any():
        ctx.label("stock outside the grid")
    if (p.stock > 1).any():
        ctx.label("stock above one")
    ctx.non_trivial(uneven and inner)


def tasks(tier):
    from pbt.core import Task

    return [
        Task("panel", gen.model(agents=(5, 8, 16), min_periods=2, max_grid=10), continuation, (8, 120)),
        Task("uneven", gen.model(agents=(16,), min_periods=2, max_periods=6, exp_grid=None, max_types=2, kid_max=(0, 1, 3), entry="zero", pargs={"increments": "any"}), continuation, (8, 120)),
        Task("inside", gen.model(agents=(8, 16), min_periods=2, max_periods=6, exp_grid=gen.inner_grid(), max_types=2, kid_max=(0, 1, 3), entry="zero", stretch=False), continuation, (4, 60)),
    ]
