"""Process environment of every check: where the code under test comes from, scratch space, silence."""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
import time
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)
THOROUGH = TIER == "thorough"

START = time.time()
WALL = 14400 if THOROUGH else 450  # on a slow machine explorations are cut short after this (counted as capped)

_root = None


def out_of_time():
    return time.time() - START > WALL


def scratch_root():
    """One scratch directory per check process tree, removed at exit by the process that made it."""
    global _root
    if _root is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _root = tempfile.mkdtemp(prefix="verif-mc-", dir=base)
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                os.chdir("/")
                shutil.rmtree(_root, ignore_errors=True)
        atexit.register(_clean)
    return _root


def new_dir(prefix="w"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch_root())


def private_temp():
    """Temporary files of libraries (the solver of metric 11 leaves its working folders behind) go to scratch space."""
    tempfile.tempdir = new_dir("tmp")
    os.environ["TMPDIR"] = tempfile.tempdir


def clear_temp():
    for e in os.scandir(tempfile.tempdir):
        if "gk_model" in e.name:
            shutil.rmtree(e.path, ignore_errors=True)


def setup():
    """Import path, headless plotting, no bytecode in /repo, cwd in scratch space."""
    root = scratch_root()
    private_temp()
    os.environ["MPLBACKEND"] = "Agg"
    os.environ.setdefault("MPLCONFIGDIR", os.path.join(root, "mpl"))
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ["PYTHONPATH"] = REPO
    sys.setrecursionlimit(20000)
    warnings.filterwarnings("ignore")
    os.chdir(new_dir("cwd"))


@contextlib.contextmanager
def quiet():
    """Swallow what the code under test prints."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def in_dir(path):
    old = os.getcwd()
    os.chdir(path)
    try:
        yield path
    finally:
        os.chdir(old)
