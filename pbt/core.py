"""Runner: workers, seeds, shrinking, replay files, known findings, evidence."""
import collections
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from pbt import boot

ROOT = boot.ROOT
N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
WALL = {"quick": 330.0, "thorough": 800.0}
SHRINK_SECONDS = {"quick": 45, "thorough": 90}
if "VERIF_SHRINK" in os.environ:  # for experiments on the checks' sensitivity
    SHRINK_SECONDS = dict.fromkeys(SHRINK_SECONDS, float(os.environ["VERIF_SHRINK"]))


class Violation(AssertionError):
    """The code under test breaks the property."""


class Task:
    """One generated-input search.

    ``examples``: (quick, thorough) cases per worker. ``fn(case, ctx)`` raises Violation.
    """

    def __init__(self, name, strategy, fn, examples, workers=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.examples, self.workers = examples, workers


class Ctx:
    """Collects what a run covered."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.evaluations = 0
        self.units = 0
        self.skipped_time = 0
        self.labels = collections.Counter()
        self.nontrivial = set()
        self.samples = []
        self.findings = collections.Counter()
        self._n = 0
        self._case = None
        self.task = None

    def begin(self, task, case):
        self.task, self._case = task, case
        self.evaluations += 1

    def label(self, *names):
        for n in names:
            self.labels[f"{self.task}:{n}"] += 1

    def unit(self, n=1):
        """Count elementary comparisons inside a case (person-periods, points)."""
        self.units += int(n)

    def non_trivial(self, yes=True):
        if not yes:
            return
        h = hashlib.sha1((self.task + json.dumps(self._case, sort_keys=True, default=str)).encode()).hexdigest()
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < 2:
                s = json.dumps(self._case, default=str)
                self.samples.append({"task": self.task, "case": s if len(s) < 2500 else s[:2500] + "..."})

    def finding(self, name):
        """A listed known finding was met (recorded, not an alarm)."""
        self.findings[name] += 1

    def dir(self):
        self._n += 1
        d = os.path.join(self.scratch, f"c{self._n}")
        os.makedirs(d)
        return d


def from_soepy(exc):
    """The exception was raised inside (or through) the code under test."""
    tb = exc.__traceback__
    pkg = os.path.join(os.path.realpath(boot.REPO), "soepy") + os.sep
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def guarded(task, case, ctx):
    """Run one case; code-under-test exceptions on valid inputs are violations."""
    ctx.begin(task.name, case)
    before = ctx._n
    try:
        task.fn(case, ctx)
    except Violation:
        raise
    except Exception as exc:
        if type(exc).__module__.startswith("hypothesis"):
            raise
        if type(exc).__name__ == "Unavailable":
            ctx.label(f"internal helper {exc} not available")
            return
        if from_soepy(exc):
            raise Violation(
                f"valid input, but the code raised {type(exc).__name__}: {str(exc)[:400]}"
            ) from exc
        raise
    finally:
        for i in range(before + 1, ctx._n + 1):
            shutil.rmtree(os.path.join(ctx.scratch, f"c{i}"), ignore_errors=True)


def load(prop):
    return importlib.import_module(f"pbt.props.{prop.lower()}")


def worker_main(prop, tier, seed, index, scratch, out):
    t0 = time.time()
    boot.setup(scratch)
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.internal.conjecture import engine

    engine.MAX_SHRINKING_SECONDS = SHRINK_SECONDS[tier]
    mine = os.path.join(scratch, f"w{index}")
    os.makedirs(mine)
    ctx = Ctx(mine)
    res = {"violation": None, "error": None}
    mod = load(prop)
    try:
        for k, task in enumerate(mod.tasks(tier)):
            if task.workers is not None and index >= task.workers:
                continue
            n = task.examples[0 if tier == "quick" else 1]
            last, begun = {}, set()
            if not n:
                continue

            def test(case):
                if index and not begun:
                    # every run begins with the simplest case: one worker is enough for it
                    begun.add(1)
                    return
                if time.time() - t0 > WALL[tier] and not last:
                    ctx.skipped_time += 1
                    return
                try:
                    guarded(task, case, ctx)
                except Violation as v:
                    last["case"], last["msg"] = case, str(v)
                    if "first" not in last:
                        last["first"] = case
                        with open(out + ".early", "w") as f:
                            json.dump({"task": task.name, "case": case, "message": str(v)}, f, default=str)
                    raise

            run = settings(
                max_examples=n + (index > 0),
                database=None,
                deadline=None,
                derandomize=False,
                report_multiple_bugs=False,
                suppress_health_check=list(HealthCheck),
                phases=(Phase.generate, Phase.shrink),
                print_blob=False,
            )(hypothesis.seed(1000 * seed + index + 100_000 * k)(hypothesis.given(task.strategy)(test)))
            try:
                run()
            except BaseException as exc:
                if last:
                    res["violation"] = {"task": task.name, "case": last["case"], "message": last["msg"]}
                    break
                if isinstance(exc, KeyboardInterrupt):
                    raise
                res["error"] = f"task {task.name}: " + "".join(traceback.format_exception(exc))[-6000:]
                break
    except Exception as exc:
        res["error"] = "".join(traceback.format_exception(exc))[-6000:]
    res.update(
        evaluations=ctx.evaluations,
        units=ctx.units,
        skipped_time=ctx.skipped_time,
        labels=dict(ctx.labels),
        nontrivial=sorted(ctx.nontrivial),
        samples=ctx.samples,
        findings=dict(ctx.findings),
        wall=time.time() - t0,
    )
    with open(out + ".tmp", "w") as f:
        json.dump(res, f, default=str)
    os.replace(out + ".tmp", out)


def findings_main(prop, scratch, out):
    """Replay the pinned case of every listed finding of this property."""
    boot.setup(scratch)
    mod = load(prop)
    res = {"violation": None, "error": None, "lines": []}
    mine = os.path.join(scratch, "wf")
    os.makedirs(mine)
    for f in known(prop):
        ctx = Ctx(mine)
        task = next(t for t in mod.tasks("quick") if t.name == f["task"])
        try:
            guarded(task, f["case"], ctx)
        except Violation as v:
            res["violation"] = {"task": task.name, "case": f["case"], "message": str(v)}
            break
        except Exception as exc:
            res["error"] = "".join(traceback.format_exception(exc))[-6000:]
            break
        if ctx.findings.get(f["id"]):
            res["lines"].append(f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}")
        else:
            res["lines"].append(f"note: listed finding {f['id']} no longer occurs")
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def known(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        data = json.load(f)
    return [x for x in data["findings"] if x["property"] == prop]


def write_replay(prop, seed, v):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, **v}, f, indent=1, default=str)
    return path


def replay(prop, path):
    scratch = tempfile.mkdtemp(prefix="vpbt_")
    try:
        boot.setup(scratch)
        with open(path) as f:
            r = json.load(f)
        mod = load(prop)
        task = next(t for t in mod.tasks("thorough") if t.name == r["task"])
        try:
            guarded(task, r["case"], Ctx(scratch))
        except Violation as v:
            print(str(v))
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        print("replay: property holds on this case")
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(prop, tier, seed):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vpbt_")
    env = boot.child_env(scratch)
    run_py = os.path.join(ROOT, "run.py")
    procs = {}
    outs = {}
    try:
        for i in range(N_WORKERS):
            outs[i] = os.path.join(scratch, f"out{i}.json")
            procs[i] = subprocess.Popen(
                [sys.executable, run_py, prop, "--tier", tier, "--worker", str(i), "--scratch", scratch, "--out", outs[i], "--seed", str(seed)],
                env=env, cwd=ROOT, stdout=subprocess.DEVNULL, stderr=open(outs[i] + ".err", "w"),
            )
        if known(prop):
            outs["f"] = os.path.join(scratch, "outf.json")
            procs["f"] = subprocess.Popen(
                [sys.executable, run_py, prop, "--findings", "--scratch", scratch, "--out", outs["f"]],
                env=env, cwd=ROOT, stdout=subprocess.DEVNULL, stderr=open(outs["f"] + ".err", "w"),
            )
        hard = t0 + WALL[tier] + SHRINK_SECONDS[tier] + (120 if tier == "quick" else 0)
        hit = None
        while any(p.poll() is None for p in procs.values()):
            time.sleep(0.2)
            if hit is None:
                for k, p in procs.items():
                    if p.poll() is not None and os.path.exists(outs[k]):
                        with open(outs[k]) as f:
                            if json.load(f).get("violation"):
                                hit = time.time()
            if (hit is not None and time.time() - hit > 1) or time.time() > hard:
                for p in procs.values():
                    if p.poll() is None:
                        p.kill()
                for p in procs.values():
                    p.wait()
        results = {}
        violation = error = None
        for k, out in outs.items():
            if os.path.exists(out):
                with open(out) as f:
                    results[k] = json.load(f)
                violation = violation or results[k]["violation"]
                error = error or results[k]["error"]
            elif os.path.exists(out + ".early"):
                with open(out + ".early") as f:
                    early = json.load(f)
                if hit is None:
                    violation = violation or early
            elif hit is None:
                with open(out + ".err") as f:
                    tail = f.read()[-3000:]
                code = procs[k].returncode
                if time.time() <= hard or code != -9:
                    error = error or f"worker {k} ended with {code} and no result\n{tail}"
        workers = [r for k, r in results.items() if k != "f"]
        nontrivial = set().union(*[set(r["nontrivial"]) for r in workers]) if workers else set()
        labels = collections.Counter()
        findings = collections.Counter()
        for r in workers:
            labels.update(r["labels"])
            findings.update(r["findings"])
        mod_rule = _rule(prop)
        samples = [s for r in workers for s in r["samples"]][:6]
        if violation and not samples:
            samples = [{"task": violation["task"], "case": violation["case"]}]
        evidence = {
            "property": prop,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": sum(r["evaluations"] for r in workers),
                "distinct_nontrivial": len(nontrivial),
                "rule": mod_rule,
                "samples": samples,
                "comparisons": sum(r["units"] for r in workers),
                "skipped_on_wall_limit": sum(r["skipped_time"] for r in workers),
                "labels": dict(sorted(labels.items())),
                "known_findings_met": dict(findings),
                "workers_finished": len(workers),
            },
            "assumptions": [
                "JAX on CPU with 64-bit floats",
                "cases come from the strategies in pbt/gen.py and pbt/props; absence of a violation is not a proof",
            ],
            "wall_s": round(time.time() - t0, 1),
            "violations": 1 if violation else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
            json.dump(evidence, f, indent=1)
        print(
            f"{prop} {tier} seed={seed}: {evidence['coverage']['evaluations']} cases, "
            f"{len(nontrivial)} non-trivial, {evidence['coverage']['comparisons']} comparisons, {evidence['wall_s']} s"
        )
        for line in results.get("f", {}).get("lines", []):
            print(line)
        if violation:
            path = write_replay(prop, seed, violation)
            print(violation["message"][:3000])
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        if error:
            print("HARNESS ERROR\n" + error)
            return 2
        return 0
    finally:
        for p in procs.values():
            if p.poll() is None:
                p.kill()
        shutil.rmtree(scratch, ignore_errors=True)


def _rule(prop):
    """Read RULE from the module source (the parent does not import JAX)."""
    import ast

    with open(os.path.join(ROOT, "pbt", "props", prop.lower() + ".py")) as f:
        tree = ast.parse(f.read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "RULE":
            return ast.literal_eval(node.value)
    raise RuntimeError("no RULE")
