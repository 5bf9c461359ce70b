"""C25: table readers."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.common import check, close, helper, maybe
from pbt.ref import Ref
from pbt.sut import Model

RULE = (
    "Tables at or above the horizon's length (up to 8 rows longer) with zero, certain, dyadic and arbitrary entries; 1-3 education levels; every last child-bearing period. "
    "Non-trivial: the child-bearing period ends before the horizon or the tables are longer than the horizon, and not all shares are degenerate."
)


@st.composite
def cases(draw):
    c = draw(gen.model(max_periods=12, max_types=1, init_exp=6))
    T = c["spec"]["GENERAL"]["num_periods"]
    E = len(c["spec"]["EDUC"]["educ_years"])
    extra = draw(st.sampled_from([0, 1, 4, 8]))
    odd = draw(st.booleans())
    pr = gen.num(0.0, 1.0, 0.001) if odd else gen.prob("mixed")
    for key, cols in (("child", 3), ("arrival", E), ("separation", E)):
        c["tables"][key] = [[draw(pr) for _ in range(cols)] for _ in range(T + extra)]
    c["spec"]["EXOG_PROC"]["last_child_bearing_period"] = draw(st.integers(0, T + 2))
    if odd:
        for key in ("child_age_shares", "pt_shares", "ft_shares"):
            rows = []
            for row in c["tables"][key]:
                w = [draw(st.integers(0, 50)) for _ in row]
                w[0] += 1
                rows.append([x / sum(w) for x in w])
            c["tables"][key] = rows
    return c


def readers(case, ctx):
    from soepy.exogenous_processes import children, education, experience, partner

    m = Model(case, ctx.dir())
    spec = m.read()
    ref = Ref(case)
    tab = case["tables"]
    T, E = ref.T, ref.E
    got = np.asarray(children.gen_prob_child_vector(spec), float)
    want = np.array([[ref.birth_row(t, e) for e in range(3)] for t in range(T)], float).reshape(T, 3)
    close(got, want, 0, 1e-15, "birth probabilities (period, education)")
    mat = np.asarray(partner.gen_prob_partner(spec), float)
    check(mat.shape == (T, E, 2, 2), "shape of the partner transitions", got=mat.shape)
    close(mat.sum(axis=-1), np.ones((T, E, 2)), 0, 1e-12, "partner transition probabilities summed (period, education, status)")
    check((mat >= 0).all() and (mat <= 1).all(), "partner transition probability outside [0, 1]")
    close(mat[:, :, 0, 1], np.array(tab["arrival"], float)[:T], 0, 1e-12, "arrival rates (period, education)")
    close(mat[:, :, 1, 0], np.array(tab["separation"], float)[:T], 0, 1e-12, "separation rates (period, education)")
    close(np.asarray(education.gen_prob_educ_level_vector(spec), float), tab["educ_shares"], 0, 1e-15, "education shares")
    close(np.asarray(partner.gen_prob_partner_present_vector(spec), float).ravel(), tab["partner_shares"], 0, 1e-15, "partner shares")

    def dist(got, want, what):
        check(len(got) == E, f"{what}: number of education levels", got=len(got))
        for e in range(E):
            g = np.asarray(got[e], float)
            close(g, want[e], 0, 1e-12, f"{what} of education level {e}")
            check(abs(g.sum() - 1) < 1e-12, f"{what} of education level {e} sum to {g.sum()!r}")

    dist(children.gen_prob_child_init_age_vector(spec), tab["child_age_shares"], "initial child-age shares")
    for key in ("pt", "ft"):
        name = getattr(spec, f"{key}_exp_shares_file_name")
        dist(experience.gen_prob_init_exp_component_vector(spec, name), tab[f"{key}_shares"], f"initial {key} shares")
    both = maybe(helper("exogenous_processes.experience", "gen_prob_init_exp_years_vector"), spec)
    if both is not None:
        dist(both, [np.convolve(a, b) for a, b in zip(tab["ft_shares"], tab["pt_shares"])], "initial total years")
    ctx.unit(T * 3 + T * E * 4 + 10)
    last = case["spec"]["EXOG_PROC"]["last_child_bearing_period"]
    ctx.non_trivial((last < T - 1 or len(tab["child"]) > T) and any(0 < x < 1 for r in tab["child_age_shares"] for x in r))
    ctx.label("ends early" if last < T - 1 else "never ends", "long tables" if len(tab["child"]) > T else "exact tables", f"E={E}")


@st.composite
def remainders(draw):
    c = draw(cases())
    c["off"] = draw(st.sampled_from([0.0, 0.25, 0.5, 1.0, 0.013]))
    return c


def remainder(case, ctx):
    """The first share is the remainder whatever the table says there."""
    from soepy.exogenous_processes import children, experience

    right = {k: [list(r) for r in case["tables"][k]] for k in ("child_age_shares", "pt_shares", "ft_shares")}
    for k in right:
        for r in case["tables"][k]:
            r[0] = case["off"]
    m = Model(case, ctx.dir())
    spec = m.read()
    for got, want, what in (
        (children.gen_prob_child_init_age_vector(spec), right["child_age_shares"], "child-age"),
        (experience.gen_prob_init_exp_component_vector(spec, spec.pt_exp_shares_file_name), right["pt_shares"], "part-time"),
        (experience.gen_prob_init_exp_component_vector(spec, spec.ft_exp_shares_file_name), right["ft_shares"], "full-time"),
    ):
        for e in range(len(want)):
            close(np.asarray(got[e], float), want[e], 0, 1e-12, f"initial {what} shares of education level {e} (first share is the remainder)")
            ctx.unit(len(want[e]))
    ctx.non_trivial()


def tasks(tier):
    from pbt.core import Task

    return [Task("readers", cases(), readers, (60, 1500)), Task("remainder", remainders(), remainder, (25, 400))]
