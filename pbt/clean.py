"""Run simulations in a process in which the code under test has not run before.

A fork server imports the libraries once (nothing is computed there); every call of ``in_clean_process``
forks a child from it.
"""
import os
import sys

if os.environ.get("VERIF_SCRATCH") and "multiprocessing.forkserver" in sys.modules:  # preloaded by the fork server
    from pbt import boot

    boot.setup(os.environ["VERIF_SCRATCH"])
    import soepy.simulate.simulate_python  # noqa: F401

_CTX = None


def _child(conn, jobs):
    try:
        from pbt import boot

        boot.setup(os.environ["VERIF_SCRATCH"])
        conn.send(("ok", calls(jobs)))
    except Exception as exc:  # reported by the parent
        import traceback

        conn.send(("error", f"{type(exc).__name__}: {exc}\n" + traceback.format_exc()[-3000:]))
    finally:
        conn.close()


def calls(jobs):
    """``jobs``: [prepare-args or None, [(params, spec), ...]]; returns the data frames."""
    from soepy.simulate.simulate_python import get_simulate_func, simulate

    options, first, rest = jobs["options"], jobs["prepare"], jobs["calls"]
    f = None if first is None else get_simulate_func(*first, **options)
    return [simulate(p, s, **options) if f is None else f(p, s) for p, s in rest]


def in_clean_process(jobs, timeout=240):
    """The data frames, or raises RuntimeError with the child's traceback; None if the child gave no answer."""
    global _CTX
    import multiprocessing

    if _CTX is None:
        _CTX = multiprocessing.get_context("forkserver")
        _CTX.set_forkserver_preload(["pbt.clean"])
    here, there = _CTX.Pipe()
    p = _CTX.Process(target=_child, args=(there, jobs))
    p.start()
    there.close()
    try:
        if not here.poll(timeout):
            return None
        kind, value = here.recv()
    except EOFError:
        return None
    finally:
        p.join(1)
        if p.is_alive():
            p.kill()
            p.join()
        here.close()
    if kind == "error":
        raise RuntimeError(value)
    return value
