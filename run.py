#!/usr/bin/env python3
"""Entry point of the checks; see DESIGN.md."""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from pbt import boot  # noqa: E402
from pbt import core  # noqa: E402


def selftest():
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="vpbt_")
    try:
        boot.setup(d)
        import hypothesis  # noqa: F401
        import jax  # noqa: F401
        import soepy  # noqa: F401
        from pbt import ref, sut  # noqa: F401

        print("selftest ok:", hypothesis.__version__, jax.__version__, soepy.__file__)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    a.add_argument("--selftest", action="store_true")
    a.add_argument("--worker", type=int)
    a.add_argument("--findings", action="store_true")
    a.add_argument("--scratch")
    a.add_argument("--out")
    o = a.parse_args()
    if o.selftest:
        return selftest()
    if o.worker is not None:
        core.worker_main(o.prop, o.tier, o.seed, o.worker, o.scratch, o.out)
        return 0
    if o.findings:
        core.findings_main(o.prop, o.scratch, o.out)
        return 0
    if o.replay:
        return core.replay(o.prop, o.replay)
    return core.main(o.prop, o.tier, o.seed)


if __name__ == "__main__":
    sys.exit(main())
