"""C04: the simulated panel is complete, contiguous and correctly timed."""
import numpy as np

from pbt import gen
from pbt.common import check, fail
from pbt.sut import Model, n_types

RULE = (
    "Simulated panels of models from the general strategy (entry years anywhere, also beyond the horizon; empty groups; horizon one) and larger samples. "
    "Non-trivial: agents of at least two education groups with different entry periods are present, or some group never enters."
)

INT_COLS = {
    "Education_Level", "Lagged_Choice", "Experience_Part_Time", "Experience_Full_Time", "Type", "Age_Youngest_Child", "Partner_Indicator", "Choice",
}


def panel(case, ctx):
    s = case["spec"]
    T, entry = s["GENERAL"]["num_periods"], s["EDUC"]["educ_years"]
    N = s["SIMULATION"]["num_agents_sim"]
    m = Model(case, ctx.dir())
    df = m.simulate()
    check(list(df.index.names) == ["Identifier", "Period"], f"index names {df.index.names}")
    check(not df.index.has_duplicates, "duplicated person-periods", rows=df.index[df.index.duplicated()][:5].tolist())
    check(not df.columns.has_duplicates, "duplicated columns")
    d = df.reset_index()
    for c in sorted(INT_COLS | {"Identifier", "Period"}):
        check(c in d.columns, f"column {c} is missing")
        v = d[c].to_numpy().astype(float)
        check(np.isfinite(v).all() and (v == np.round(v)).all(), f"column {c} holds values that are not whole numbers", values=v[:20].tolist())
    bounds = {
        "Identifier": (0, N - 1), "Period": (0, T - 1), "Education_Level": (0, len(entry) - 1), "Lagged_Choice": (0, 2), "Choice": (0, 2),
        "Type": (0, n_types(case) - 1), "Age_Youngest_Child": (-1, s["EXOG_PROC"]["child_age_max"]), "Partner_Indicator": (0, 1),
        "Experience_Part_Time": (0, T + s["INITIAL_CONDITIONS"]["init_exp_max"]), "Experience_Full_Time": (0, T + s["INITIAL_CONDITIONS"]["init_exp_max"]),
    }
    for c, (lo, hi) in bounds.items():
        v = d[c].to_numpy().astype(float)
        if len(v):
            check(v.min() >= lo and v.max() <= hi, f"column {c} outside {lo}..{hi}", range=(v.min(), v.max()))
    ident = d["Identifier"].to_numpy().astype(int)
    per = d["Period"].to_numpy().astype(int)
    educ = d["Education_Level"].to_numpy().astype(int)
    typ = d["Type"].to_numpy().astype(int)
    seen = np.unique(ident)
    for i in seen:
        r = ident == i
        check(len(set(educ[r])) == 1, f"education of agent {i} changes", values=educ[r].tolist())
        check(len(set(typ[r])) == 1, f"type of agent {i} changes", values=typ[r].tolist())
        want = list(range(entry[educ[r][0]], T))
        got = sorted(per[r].tolist())
        if got != want:
            fail(f"agent {i} (education {educ[r][0]}, entry period {entry[educ[r][0]]}) has rows for periods {got}, expected {want}")
    shares = case["tables"]["educ_shares"]
    late = [e for e in range(len(entry)) if entry[e] >= T and shares[e] > 0]
    if not late:
        missing = sorted(set(range(N)) - set(seen.tolist()))
        check(not missing, f"agents {missing[:10]} are missing although every education group enters within the horizon")
    choice = d["Choice"].to_numpy().astype(int)
    wage_nan = np.isnan(d["Wage_Observed"].to_numpy().astype(float))
    check((wage_nan == (choice == 0)).all(), "wages are not missing exactly for non-workers")
    for c in d.columns:
        if c != "Wage_Observed":
            check(not d[c].isna().any(), f"column {c} has missing values")
    ctx.unit(len(d))
    groups = {(e, entry[e]) for e in set(educ.tolist())}
    ctx.non_trivial(len({y for _, y in groups}) > 1 or bool(late))
    if len(d) == 0:
        ctx.label("empty panel")
    if late:
        ctx.label("group beyond the horizon")
    if T == 1:
        ctx.label("one period")
    if len(d) and not (per == 0).any():
        ctx.label("nobody in period 0")
    if N > 128:
        ctx.label("more than 128 agents")


def tasks(tier):
    from pbt.core import Task

    return [
        Task("small", gen.model(agents=(1, 2, 3, 4, 8, 16), max_types=3, draws=(1, 3)), panel, (14, 220)),
        Task("large", gen.model(agents=(300,), max_periods=4, entry="zero", kid_max=(0, 1, 3), draws=(1, 2)), panel, (3, 40)),
    ]
