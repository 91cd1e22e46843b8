"""Process set-up: environment, import paths, build of the compiled extensions.

pymoo is always imported from /repo's working tree, numpy & co. from /opt/venv, and only
hypothesis (with its one dependency) from the verification tools' site-packages.
"""
import importlib.abc
import importlib.machinery
import os
import subprocess
import sys
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "NUMBA_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "JAX_PLATFORMS": "cpu",
    "PYMOO_DATA_TIMEOUT": "5",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/nonexistent",
}


class _ToolFinder(importlib.abc.MetaPathFinder):
    NAMES = {"hypothesis", "sortedcontainers", "_hypothesis_pytestplugin", "_hypothesis_ftz_detector",
             "_hypothesis_globals", "attr", "attrs"}

    def find_spec(self, name, path=None, target=None):
        if path is None and name.split(".")[0] in self.NAMES:
            return importlib.machinery.PathFinder.find_spec(name, [TOOLS])
        return None


def build():
    """(Re)build the Cython extensions of /repo's working tree (only git-ignored files change)."""
    if REPO != "/repo":
        return
    r = subprocess.run(["bash", "/opt/vp/build.sh", "--ext-only"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True) if os.path.exists("/opt/vp/build.sh") else None
    if r is None or r.returncode != 0:
        r2 = subprocess.run([sys.executable, "setup.py", "-q", "build_ext", "--inplace"], cwd=REPO,
                            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r2.returncode != 0:
            sys.stderr.write((r.stdout if r else "") + r2.stdout)
            sys.stderr.write("harness: the compiled extensions of /repo do not build\n")
            sys.exit(4)


SEEN = set()


def cover():
    """development aid: VP_COVER=DIR collects the lines of pymoo the checks execute (one file per process)"""
    mon = sys.monitoring

    def line(code, no):
        if code.co_filename.startswith(REPO + "/pymoo"):
            SEEN.add((code.co_filename[len(REPO) + 1:], no))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "vp")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def cover_dump(tag):
    d = os.environ.get("VP_COVER")
    if d:
        with open(os.path.join(d, f"{tag}.{os.getpid()}"), "w") as fh:
            for f, no in sorted(SEEN):
                fh.write(f"{f}:{no}\n")


def setup():
    sys.dont_write_bytecode = True
    if os.environ.get("VP_COVER"):
        cover()
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.append(VERIF)
    sys.meta_path.append(_ToolFinder())
    warnings.filterwarnings("ignore")
    import numpy as np
    np.seterr(all="ignore")
    import pymoo
    assert pymoo.__file__ == REPO + "/pymoo/__init__.py", pymoo.__file__
    from pymoo.config import Config
    Config.warnings["not_compiled"] = False
