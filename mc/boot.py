"""Sandboxed import of the code under test.

The package /repo/ramp is copied (current working tree) into a scratch directory
which is removed at exit; `ramp` is imported from there, so that nothing the code
writes next to itself ends up in /repo.  The random hooks of mc.rng are installed
before the import, so that names bound with `from random import ...` are hooked too.
"""
import atexit
import os
import shutil
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL_STDOUT = None
SCRATCH = None
_OWNER = None


def _cleanup():
    if SCRATCH and os.getpid() == _OWNER and os.path.basename(SCRATCH).startswith("rampmc_"):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def copy_package(dest):
    """Copy /repo/ramp to dest/ramp without bulky outputs"""

    def ignore(folder, names):
        out = []
        for n in names:
            if n in ("__pycache__", "results", "test_outputs"):
                out.append(n)
            elif os.path.basename(folder) == "test" and n.endswith(".csv"):
                out.append(n)
        return out

    shutil.copytree(os.path.join(REPO, "ramp"), os.path.join(dest, "ramp"), ignore=ignore)
    os.makedirs(os.path.join(dest, "ramp", "results"), exist_ok=True)


def setup():
    """Import ramp from a scratch copy, with the random functions hooked. Returns the module"""
    global SCRATCH, REAL_STDOUT, _OWNER
    if SCRATCH is not None:
        import ramp

        return ramp
    sys.dont_write_bytecode = True
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["BROWSER"] = "true"
    for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[k] = "1"
    SCRATCH = tempfile.mkdtemp(prefix="rampmc_")
    _OWNER = os.getpid()
    os.environ["MPLCONFIGDIR"] = os.path.join(SCRATCH, "mpl")
    atexit.register(_cleanup)
    copy_package(SCRATCH)
    os.chdir(SCRATCH)
    sys.path.insert(0, SCRATCH)
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.abspath(REPO)]
    REAL_STDOUT = os.fdopen(os.dup(1), "w", buffering=1)
    if not os.environ.get("MC_DEBUG"):
        sys.stdout = open(os.devnull, "w")
        sys.stderr_real = sys.stderr
        sys.stderr = open(os.devnull, "w")

    from mc import rng

    rng.install()
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import numpy  # noqa
        import pandas  # noqa
        import ramp
        import ramp.core.core
    warnings.resetwarnings()
    warnings.simplefilter("ignore")
    if not os.path.abspath(ramp.__file__).startswith(SCRATCH):
        raise RuntimeError("ramp was not imported from the scratch copy: " + ramp.__file__)
    return ramp


def say(*args):
    out = REAL_STDOUT or sys.stdout
    out.write(" ".join(str(a) for a in args) + "\n")
    out.flush()


_dirs = [0]


def scratch_dir(tag="d"):
    """A new empty directory inside the scratch area (per process)"""
    _dirs[0] += 1
    d = os.path.join(SCRATCH, f"{tag}_{os.getpid()}_{_dirs[0]}")
    os.makedirs(d)
    return d


class private_package:
    """import ramp again from a copy of its own: what it writes next to itself is not shared with other processes"""

    def __enter__(self):
        self.dir = scratch_dir("pkg")
        shutil.copytree(os.path.join(SCRATCH, "ramp"), os.path.join(self.dir, "ramp"))
        results = os.path.join(self.dir, "ramp", "results")
        for name in os.listdir(results):
            if name != "__init__.py":
                os.remove(os.path.join(results, name))
        self.modules = {k: m for k, m in sys.modules.items() if k == "ramp" or k.startswith("ramp.")}
        for k in self.modules:
            del sys.modules[k]
        sys.path.insert(0, self.dir)
        import ramp

        assert os.path.dirname(os.path.dirname(os.path.abspath(ramp.__file__))) == os.path.abspath(self.dir)
        return self

    def __exit__(self, *a):
        sys.path.remove(self.dir)
        for k in [k for k in sys.modules if k == "ramp" or k.startswith("ramp.")]:
            del sys.modules[k]
        sys.modules.update(self.modules)
        shutil.rmtree(self.dir, ignore_errors=True)
