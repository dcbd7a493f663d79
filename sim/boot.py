"""
Process set-up for the simulator.

`reexec()` restarts the interpreter of the project (``/opt/venv``) with an
environment in which nothing is left to the machine (hash seed, thread counts,
time zone, byte-code and numba caches).  `load()` installs the seams (file
system, directory listing, joblib) and only then imports oups from /repo.
"""
import os
import shutil
import sys
import tempfile

# 'OUPS_SIM_REPO' is only for tools/plant.py, to try planted bugs in a scratch copy.
REPO = os.environ.get("OUPS_SIM_REPO", "/repo")
PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N_CPU_SEEN = 8


def scratch_root():
    return os.environ["OUPS_SIM_SCRATCH"]


def reexec(hashseed="0"):
    """Restart under the project's interpreter in a controlled environment."""
    if os.environ.get("OUPS_SIM_BOOTED") == "1":
        return
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    try:
        st = os.statvfs(base)
        if st.f_bavail * st.f_frsize < 2 << 30:
            base = tempfile.gettempdir()
    except OSError:
        base = tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="oupssim-", dir=base)
    env = dict(os.environ)
    env.update(
        OUPS_SIM_BOOTED="1",
        OUPS_SIM_SCRATCH=scratch,
        HOME="/root",
        TZ="UTC",
        LC_ALL="C.UTF-8",
        PYTHONHASHSEED=os.environ.get("OUPS_SIM_HASHSEED", hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
        PYTHONWARNINGS="ignore",
        NUMBA_CACHE_DIR=os.path.join(scratch, "numba"),
        NUMBA_NUM_THREADS="1",
        NUMBA_THREADING_LAYER="workqueue",
        VAEX_NUM_THREADS="1",
        VAEX_NUM_THREADS_IO="1",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        ARROW_DEFAULT_MEMORY_POOL="system",
        OUPS_SIM_VAEX_HOME=os.path.join(scratch, "vaex"),
        VAEX_HOME=os.path.join(scratch, "vaex"),
        VAEX_CACHE_PATH=os.path.join(scratch, "vaex", "cache"),
        VAEX_FS_PATH=os.path.join(scratch, "vaex", "fs"),
    )
    pid = os.fork()
    if pid == 0:
        os.execve(PY, [PY, "-X", "faulthandler"] + sys.argv, env)
    # The parent only waits, hands the exit code on and removes the scratch.
    import signal

    def forward(sig, _frame):
        try:
            os.kill(pid, sig)
        except OSError:
            pass

    for sig in (signal.SIGTERM, signal.SIGINT):
        signal.signal(sig, forward)
    while True:
        try:
            _, status = os.waitpid(pid, 0)
            break
        except InterruptedError:
            continue
    shutil.rmtree(scratch, ignore_errors=True)
    os._exit(os.waitstatus_to_exitcode(status) & 0xFF)


_loaded = False


def load():
    """Install the seams and import oups from /repo."""
    global _loaded
    if _loaded:
        return
    sys.setswitchinterval(0.05)
    import multiprocessing
    import warnings

    warnings.filterwarnings("ignore")
    # 'KEY_MAX_P_JOBS' is derived from the number of cpus when importing oups.
    multiprocessing.cpu_count = lambda: N_CPU_SEEN
    from sim import fsim

    fsim.install()
    from sim import sched

    sched.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import logging

    logging.disable(logging.CRITICAL)
    import oups

    if os.path.realpath(oups.__file__) != os.path.join(REPO, "oups", "__init__.py"):
        raise RuntimeError(f"oups imported from {oups.__file__}, not from {REPO}")
    _remember_globals()
    _loaded = True


# --- process memory of the code under test -------------------------------- #
_globals = []
_caches = []  # Functions with a cache of results.


def _remember_globals():
    """Remember module-level mutable containers of oups, to reset at a reboot."""
    import copy

    seen = set()
    for name in sorted(sys.modules):
        if name == "oups" or name.startswith("oups."):
            mod = sys.modules[name]
            for attr in sorted(vars(mod)):
                obj = vars(mod)[attr]
                held = [(attr, obj)]
                if isinstance(obj, type) and obj.__module__.split(".")[0] == "oups":
                    held += list(vars(obj).items())
                for a, o in held:
                    o = getattr(o, "__func__", o)
                    if id(o) in seen or a.startswith("__"):
                        continue
                    if type(o) in (dict, list, set):
                        seen.add(id(o))
                        _globals.append((o, copy.copy(o)))
                    elif callable(getattr(o, "cache_clear", None)) and str(getattr(o, "__module__", "")).split(".")[0] == "oups":
                        seen.add(id(o))
                        _caches.append(o)


def reboot():
    """Forget all process memory of oups: what a new process would start from."""
    for f in _caches:
        f.cache_clear()
    for obj, init in _globals:
        if obj == init:
            continue
        obj.clear()
        if isinstance(obj, list):
            obj.extend(init)
        else:
            obj.update(init)


class isolated:
    """Run a block with its own process memory of oups (a second process)."""

    def __enter__(self):
        import copy

        self.saved = [(obj, copy.copy(obj)) for obj, _ in _globals]
        reboot()

    def __exit__(self, *a):
        for obj, val in self.saved:
            obj.clear()
            if isinstance(obj, list):
                obj.extend(val)
            else:
                obj.update(val)
