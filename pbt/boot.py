"""Process set-up: must be imported before NumPy, JAX or soepy."""
import os
import sys
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

_ENV = {
    "JAX_PLATFORMS": "cpu",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "PYTHONDONTWRITEBYTECODE": "1",
}


def child_env(scratch):
    env = dict(os.environ)
    env.update(_ENV)
    env["PYTHONHASHSEED"] = "0"
    env["VERIF_SCRATCH"] = scratch
    env.pop("PYTHONPATH", None)
    return env


def setup(scratch):
    os.environ.update(_ENV)
    os.environ["VERIF_SCRATCH"] = scratch
    sys.dont_write_bytecode = True
    for p in (os.path.join(ROOT, "vendor"), REPO):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    warnings.simplefilter("ignore")
    import jax

    jax.config.update("jax_enable_x64", True)
    jax.config.update("jax_compilation_cache_dir", os.path.join(scratch, "jaxcache"))
    jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
    jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    import logging

    logging.getLogger("jax").setLevel(logging.ERROR)
    import soepy

    where = os.path.realpath(soepy.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"soepy imported from {where}, not from {REPO}")
