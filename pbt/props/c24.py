"""C24: the reduced data format is a projection of the full format."""
import numpy as np

from pbt import gen
from pbt.common import check
from pbt.frames import rows, same
from pbt.sut import Model

RULE = (
    "One model simulated in both formats; small panels of general models, panels with several hundred or thousand agents, and horizons beyond 127 periods. "
    "Non-trivial: both workers and non-workers occur."
)
STATE = ["Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Experience_Stock", "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice", "Wage_Observed"]
FULL = STATE + ["Male_Wages"] + [f"{k}_{a}" for k in ("Non_Consumption_Utility", "Flow_Utility", "Continuation_Value", "Value_Function") for a in "NPF"]
SPARSE = ["Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Age_Youngest_Child", "Choice", "Wage_Observed", "Experience_Stock"]


def formats(case, ctx):
    m = Model(case, ctx.dir())
    full, sparse = m.simulate(sparse=False), m.simulate(sparse=True)
    for df, want, name in ((full, FULL, "full"), (sparse, SPARSE, "reduced")):
        check(list(df.index.names) == ["Identifier", "Period"], f"{name} format: index", got=list(df.index.names))
        missing = [c for c in want if c not in df.columns]
        check(not missing, f"{name} format: columns are missing", missing=missing)
    extra = [c for c in sparse.columns if c not in full.columns]
    check(not extra, "the reduced format has columns the full format lacks", columns=extra)
    ctx.unit(same(sparse, full, "reduced against full format", rtol=0, columns=list(sparse.columns)))
    d, s = rows(full), rows(sparse)
    for x, name in ((d, "full"), (s, "reduced")):
        nan = np.isnan(x["Wage_Observed"].to_numpy().astype(float))
        idle = x["Choice"].to_numpy().astype(int) == 0
        check((nan == idle).all(), f"{name} format: wages are not missing exactly for those who do not work")
    choice = d["Choice"].to_numpy().astype(int)
    ctx.non_trivial(bool((choice == 0).any() and (choice > 0).any()))
    ctx.label(f"agents={case['spec']['SIMULATION']['num_agents_sim']}", "long" if case["spec"]["GENERAL"]["num_periods"] > 120 else "short")


def tasks(tier):
    from pbt.core import Task

    return [
        Task("small", gen.model(agents=(3, 16), max_types=3, draws=(1, 3), max_grid=4), formats, (6, 110)),
        Task("agents", gen.model(agents=(300, 40000), min_periods=2, max_periods=3, max_types=2, draws=(1,), entry="zero", max_grid=2, kid_max=(1,)), formats, (2, 25)),
        Task("long", gen.model(agents=(3,), min_periods=129, max_periods=135, max_educ=1, num_types=1, draws=(1,), max_grid=2, kid_max=(0,), entry="zero"), formats, (1, 6)),
    ]
