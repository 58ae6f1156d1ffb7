"""Process set-up shared by workers and replays: where the code comes from, and a scratch directory."""
import atexit
import importlib
import os
import shutil
import sys
import tempfile

REPO = os.environ.get("SOEPYSIM_REPO", "/repo")
_state = {}


def setup(cache_dir=None):
    """Import jax once, point sys.path at the working tree, switch on 64 bit."""
    if _state:
        return
    sys.dont_write_bytecode = True
    # Byte code of the code under test is never read from or written to its tree.
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import jax

    jax.config.update("jax_enable_x64", True)
    if cache_dir:
        jax.config.update("jax_compilation_cache_dir", cache_dir)
        jax.config.update("jax_persistent_cache_min_compile_time_secs", 0.0)
        jax.config.update("jax_persistent_cache_min_entry_size_bytes", 0)
        jax.config.update("jax_persistent_cache_enable_xla_caches", "none")
    import pandas  # noqa: F401
    import scipy.special  # noqa: F401
    import yaml  # noqa: F401

    from . import rng

    rng.install()
    _state["jax"] = jax


def bits(n):
    """JAX as a host leaves it by default (32) or switches it (64)."""
    if _state["jax"].config.jax_enable_x64 != (n == 64):
        _state["jax"].config.update("jax_enable_x64", n == 64)


def scratch():
    if "scratch" not in _state_dirs:
        d = tempfile.mkdtemp(prefix="soepysim-")
        _state_dirs["scratch"] = d
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)

        atexit.register(clean)
    return _state_dirs["scratch"]


_state_dirs = {}


class Code:
    """A freshly imported copy of the package: no state of an earlier run survives."""

    def __init__(self):
        for name in [m for m in sys.modules if m == "soepy" or m.startswith("soepy.")]:
            del sys.modules[name]
        importlib.invalidate_caches()
        from importlib.machinery import SourceFileLoader

        from . import sched

        codes, real = [], SourceFileLoader.get_code

        def get_code(loader, fullname):
            c = real(loader, fullname)
            if fullname == "soepy" or fullname.startswith("soepy."):
                codes.append(c)
            return c

        SourceFileLoader.get_code = get_code
        sched.install_locks()
        try:
            self._load()
        finally:
            SourceFileLoader.get_code = real
        self.codes = sched.collect(codes)

    def _load(self):
        self.root = importlib.import_module("soepy")
        self.sim = importlib.import_module("soepy.simulate.simulate_python")
        self.simulate = self.sim.simulate
        self.get_simulate_func = self.sim.get_simulate_func
        where = os.path.realpath(self.root.__file__)
        if not where.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError(f"soepy imported from {where}")


def trim_memory(limit_mb=2200):
    try:
        with open("/proc/self/statm") as fh:
            rss = int(fh.read().split()[1]) * 4096 / 2**20
        if rss > limit_mb:
            _state["jax"].clear_caches()
            import gc

            gc.collect()
    except OSError:
        pass
