"""C14: reproducibility and independence of call history (operation sequences)."""
import copy

import numpy as np
from hypothesis import strategies as st

from pbt import clean, gen
from pbt.common import close, fail
from pbt.frames import same
from pbt.panel import Panel
from pbt.ref import Ref
from pbt.sut import Model, spec_with_files, write_tables

RULE = (
    "Sequences of 4-10 operations (fresh simulation, preparing, calling prepared functions with other parameters, seeds and sample sizes, disturbing the global random generator, simulating with the other belief setting or output format), "
    "each result compared with every earlier result for the same inputs and with a fresh simulation at the end; the same inputs (parameter vectors that differ by little) in two orders, one of them in a new process; file names and objects reused with other contents; and pairs of panels under different parameters compared in everything exogenous. "
    "Non-trivial: some input is simulated at least twice by different routes with another operation in between."
)


@st.composite
def neighbour(draw, p):
    """A parameter vector that differs from ``p`` in one entry, by little, or by an exchange of two entries."""
    p = copy.deepcopy(p)
    cat = draw(st.sampled_from([k for k in sorted(p) if k != "shares"]))
    names = sorted(p[cat])
    a = draw(st.sampled_from(names))
    how = draw(st.sampled_from(["one", "tiny", "swap"]))
    if how == "swap" and len(names) > 1:
        b = draw(st.sampled_from([n for n in names if n != a]))
        p[cat][a], p[cat][b] = p[cat][b], p[cat][a]
    elif how == "one":
        p[cat][a] = p[cat][a] * 0.5 + 0.01
    else:
        p[cat][a] = p[cat][a] + draw(st.sampled_from([1e-4, 1e-6, 1e-8]))
    return p


@st.composite
def orders(draw):
    c = draw(gen.model(agents=(8,), max_periods=4, n_params=1, max_types=3, draws=(1, 3), max_grid=4))
    for _ in range(draw(st.integers(2, 5))):
        c["params"].append(draw(neighbour(draw(st.sampled_from(c["params"])))))
    n = len(c["params"])
    calls = [[k, 0, 0] for k in range(n)] + [[draw(st.integers(0, n - 1)), *more] for more in ([1, 0], [0, 1])]
    c["prepared"] = draw(st.integers(0, 3)) > 0
    if not c["prepared"]:
        calls = calls[:3]
    c["orders"] = [draw(st.permutations(calls)), draw(st.permutations(calls))]
    return c


def order(case, ctx):
    """The same inputs in two orders: once here, once in a process in which nothing was simulated before."""
    m = Model(case, ctx.dir())
    specs = variants(case, m)
    out = []
    for run, order in zip((clean.calls, clean.in_clean_process), case["orders"]):
        order = [tuple(c) for c in order]
        inputs = [(m.frames[k], specs[s, n]) for k, s, n in order]
        jobs = dict(options=dict(biased_exp=case["biased"], data_sparse=False), prepare=inputs[0] if case["prepared"] else None, calls=inputs)
        try:
            got = run(jobs)
        except RuntimeError as exc:
            if run is clean.calls:
                raise
            fail(f"valid inputs raise an error in another order: {exc}")
        if got is None:
            ctx.label("no answer from the clean process")
            return
        out.append((order, got))
    (a, da), (b, db) = out
    for i, key in enumerate(a):
        j = b.index(key)
        ctx.unit(same(da[i], db[j], f"parameters {key[0]}, seed variant {key[1]}, sample variant {key[2]}: after {i} other simulations against after {j} other simulations in a new process"))
    ctx.non_trivial(any(set(a[: a.index(k)]) != set(b[: b.index(k)]) for k in a))
    ctx.label("prepared function" if case["prepared"] else "fresh simulations")


@st.composite
def sequences(draw):
    c = draw(gen.model(agents=(8,), max_periods=5, n_params=(1, 2), max_types=3, draws=(1, 3), max_grid=4))
    for _ in range(draw(st.integers(1, 2))):
        c["params"].append(draw(neighbour(c["params"][0])))
    ops = []
    for _ in range(draw(st.integers(4, 10))):
        ops.append(
            [
                draw(st.sampled_from(["fresh", "prepared", "prepared", "prepared", "prepare", "rng", "other"])),
                draw(st.integers(0, len(c["params"]) - 1)),
                draw(st.integers(0, 2)),
                draw(st.integers(0, 1)),
            ]
        )
    c["ops"] = ops
    return c


def variants(case, m):
    specs = {}
    for s in range(3):
        for n in range(2):
            v = copy.deepcopy(m.spec)
            v["SIMULATION"]["seed_sim"] = case["spec"]["SIMULATION"]["seed_sim"] + 17 * s
            v["SIMULATION"]["num_agents_sim"] = (8, 5)[n]
            specs[s, n] = v
    return specs


def sequence(case, ctx):
    from soepy.simulate.simulate_python import get_simulate_func, simulate

    m = Model(case, ctx.dir())
    specs = variants(case, m)
    seen, routes = {}, {}
    prepared = {"f": None, "from": None}

    def prepare(k, s, n):
        prepared["f"] = get_simulate_func(m.frames[k], specs[s, n], biased_exp=case["biased"], data_sparse=False)
        prepared["from"] = (k, s, n)

    def observe(key, df, route, step):
        if key in seen:
            ctx.unit(same(df, seen[key], f"operation {step} ({route}): parameters {key[0]}, seed variant {key[1]}, sample variant {key[2]}; first obtained by {routes[key][0]}"))
        else:
            seen[key] = df.copy()
            routes[key] = []
        routes[key].append(route)

    mixed = False
    for step, (op, k, s, n) in enumerate(case["ops"]):
        if op == "fresh":
            observe((k, s, n), simulate(m.frames[k], specs[s, n], biased_exp=case["biased"], data_sparse=False), "a fresh simulation", step)
        elif op == "prepare":
            prepare(k, s, n)
        elif op == "prepared":
            if prepared["f"] is None:
                prepare(k, s, n)
            observe((k, s, n), prepared["f"](m.frames[k], specs[s, n]), f"a function prepared with {prepared['from']}", step)
        elif op == "rng":
            np.random.seed(k + 10 * s)
            np.random.random(1 + 7 * n)
        else:
            simulate(m.frames[k], specs[s, n], biased_exp=not case["biased"], data_sparse=bool(n))
        if len(seen) > 1:
            mixed = True
    # every prepared result against a fresh simulation with untouched copies of the inputs
    np.random.seed(99)
    for key in list(seen)[:2]:
        k, s, n = key
        ref = m.simulate(k, spec={**copy.deepcopy(m.spec), "SIMULATION": {**m.spec["SIMULATION"], "seed_sim": case["spec"]["SIMULATION"]["seed_sim"] + 17 * s, "num_agents_sim": (8, 5)[n]}})
        observe(key, ref, "the final fresh simulation", len(case["ops"]))
    ctx.non_trivial(mixed and any(len(set(r)) > 1 for r in routes.values()))
    ctx.label(f"distinct inputs={len(seen)}")


@st.composite
def reused(draw):
    """Two or three complete sets of inputs of the same shape, and the order in which they are used."""
    base = dict(agents=(8,), max_periods=4, max_types=3, draws=(1, 3), max_grid=4, stretch=False)
    a = draw(gen.model(**base))
    b = draw(gen.model(**base, num_types=1 + len(a["params"][0].get("shares", {}))))
    sets = [a]
    mode = draw(st.sampled_from(["tables", "specification", "parameters", "all", "all"]))
    for other in [b]:
        c = copy.deepcopy(a)
        if mode in ("parameters", "all"):
            c["params"] = other["params"]
        if mode in ("specification", "all"):
            c["spec"]["TAXES_TRANSFERS"] = other["spec"]["TAXES_TRANSFERS"]
            for k in ("partner_cf_const", "partner_cf_age", "partner_cf_educ"):
                c["spec"]["EXOG_PROC"][k] = other["spec"]["EXOG_PROC"][k]
            c["spec"]["SOLUTION"] = other["spec"]["SOLUTION"]
        if mode in ("tables", "all"):  # the same shape, other numbers
            t = c["tables"]
            for k in ("child", "arrival", "separation"):
                how = draw(st.sampled_from(["reversed", "complement", "kept"]))
                t[k] = t[k][::-1] if how == "reversed" else [[1 - x for x in r] for r in t[k]] if how == "complement" else t[k]
            for k in ("child_age_shares", "pt_shares", "ft_shares"):
                t[k] = [r[::-1] for r in t[k]]
            t["partner_shares"] = [1 - x for x in t["partner_shares"]]
            t["educ_shares"] = t["educ_shares"][::-1]
        sets.append(c)
    a["sets"] = sets[1:]
    a["route"] = draw(st.sampled_from(["files", "objects", "tables only"]))
    a["uses"] = [0, 1] + [draw(st.integers(0, 1)) for _ in range(draw(st.integers(0, 2)))]
    return a


def reuse(case, ctx):
    """File names and objects are used again with other contents: what counts is what they contain now."""
    import os
    import yaml
    from soepy.simulate.simulate_python import simulate

    sets = [case, *case["sets"]]
    folders = [ctx.dir() for _ in sets]
    models = [Model(c, d) for c, d in zip(sets, folders)]
    place = ctx.dir()
    frame = spec = None
    names = {key: os.path.join(place, f"{key}.pkl") for key in models[0].paths}
    got = []
    for use in case["uses"]:
        write_tables(sets[use]["tables"], place)
        f, s = models[use].frames[0], spec_with_files(sets[use]["spec"], names)
        if case["route"] == "files":
            p, q = os.path.join(place, "p.pkl"), os.path.join(place, "s.yml")
            f.to_pickle(p)
            with open(q, "w") as h:
                yaml.safe_dump(s, h, sort_keys=False)
        elif case["route"] == "objects":
            if frame is None:
                frame, spec = f.copy(), copy.deepcopy(s)
            frame["value"] = f["value"].to_numpy()
            for k in s:
                if isinstance(spec[k], dict):
                    spec[k].clear()
                    spec[k].update(copy.deepcopy(s[k]))
            p, q = frame, spec
        else:
            p, q = f.copy(), s
        got.append(simulate(p, q, biased_exp=case["biased"], data_sparse=False))
    apart = [simulate(m.frames[0].copy(), copy.deepcopy(m.spec), biased_exp=case["biased"], data_sparse=False) for m in models]
    for i, use in enumerate(case["uses"]):
        ctx.unit(same(got[i], apart[use], f"simulation {i} with reused {case['route']} against the same inputs under names of their own"))
    ctx.label(case["route"])
    ctx.non_trivial(not apart[0].equals(apart[1]))


FAMILY = ["Education_Level", "Type", "Age_Youngest_Child", "Partner_Indicator", "Male_Wages"]


def exogenous(case, ctx):
    if "shares" in case["params"][0]:
        case["params"][1]["shares"] = dict(case["params"][0]["shares"])
    m = Model(case, ctx.dir())
    a, b = m.simulate(0), m.simulate(1)
    n = same(a, b, "family history, education and type under two parameter vectors", columns=FAMILY)
    pa, pb = Panel(a, Ref(case, 0)), Panel(b, Ref(case, 1))
    for p, q, name in ((pa.pt, pb.pt, "part-time"), (pa.ft, pb.ft, "full-time")):
        close(p[pa.first], q[pb.first], 0, 0, f"initial {name} years under two parameter vectors")
    sa, sb = Ref(case, 0).sigma, Ref(case, 1).sigma
    ctx.unit(n)
    if sa > 0 and sb > 0:
        both = (pa.choice > 0) & (pb.choice > 0)
        za = (np.log(pa.wage_obs) - np.log(pa.ref.scale) - pa.lw)[both] / sa
        zb = (np.log(pb.wage_obs) - np.log(pb.ref.scale) - pb.lw)[both] / sb
        close(za, zb, 0, 1e-7, "standardised wage shocks under two parameter vectors")
        ctx.unit(int(both.sum()))
        ctx.label("shocks compared")
    ctx.non_trivial(bool((pa.choice != pb.choice).any()))


def tasks(tier):
    from pbt.core import Task

    return [
        Task("sequence", sequences(), sequence, (4, 60)),
        Task("reuse", reused(), reuse, (3, 40)),
        Task("order", orders(), order, (6, 90)),
        Task("exogenous", gen.model(agents=(16,), min_periods=2, n_params=2, max_types=3, draws=(1, 3), max_grid=4), exogenous, (5, 80)),
    ]
