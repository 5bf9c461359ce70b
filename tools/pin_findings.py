"""Find a small pinned case for each listed finding (run by hand; never by a check).

    /opt/venv/bin/python tools/pin_findings.py
"""
import json
import os
import pathlib
import shutil
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
from pbt import boot, core  # noqa: E402

FINDINGS = [
    ("C05", "panel", "initial-stock-above-one",
     "agents whose initial part-time plus full-time years exceed init_exp_max enter with an experience stock above one; the stock is clipped at the first transition, so years of experience are lost"),
    ("C05", "panel", "unit-change-above-one",
     "when the part-time increment exceeds one and changes between periods (mother's supplement starts or ends), the feasible maximum that scales the stock changes and experience in years jumps without work"),
    ("C07", "reached", "birth-row-off-by-one",
     "the solution weights births from period t to t+1 with row t of the table, the simulation draws them with row t+1"),
    ("C12", "across_seeds", "shocks-share-the-stream-of-the-initial-draws",
     "the generator is seeded again with seed_sim before the wage shocks are drawn, so the shocks are made from the same random numbers as the initial draws: with one or two agents, shocks and initial characteristics are correlated over seeds"),
    ("C08", "exact", "late-entrants-experience-scaled-at-period-zero",
     "the initial stock of agents who enter after period 0 is computed with period 0's maximum, so their initial experience in years is inflated by (init_exp_max + entry period) / init_exp_max"),
]


def main():
    scratch = tempfile.mkdtemp(prefix="vpbt_")
    boot.setup(scratch)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings

    old = json.loads((ROOT / "known_findings.json").read_text())
    have = {f["id"]: f for f in old["findings"]}
    out = []
    for prop, tname, fid, what in FINDINGS:
        if fid in have and "--again" not in sys.argv:
            out.append({**have[fid], "what": what})
            continue
        task = next(t for t in core.load(prop).tasks("quick") if t.name == tname)
        best = {}

        def pred(case):
            ctx = core.Ctx(tempfile.mkdtemp(dir=scratch))
            core.guarded(task, case, ctx)
            hit = ctx.findings.get(fid, 0) > 0
            if hit:
                best["case"] = case
            return hit

        from hypothesis.internal.conjecture import engine

        engine.MAX_SHRINKING_SECONDS = 90
        hypothesis.find(task.strategy, pred, settings=settings(max_examples=400, database=None, deadline=None, suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink)))
        print(fid, len(json.dumps(best["case"])))
        out.append({"property": prop, "id": fid, "task": tname, "what": what, "case": best["case"]})
    (ROOT / "known_findings.json").write_text(json.dumps({"findings": out, "fixed": old["fixed"]}, indent=1) + "\n")
    shutil.rmtree(scratch)


if __name__ == "__main__":
    main()
