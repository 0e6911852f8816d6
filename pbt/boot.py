"""Process environment: which Python packages and which ACETONE are used.

Must be imported before anything else.  It pins the ACETONE sources to
$ACETONE_REPO (default /repo) and lets `hypothesis` be imported from the
pre-installed tool environment, without exposing any other package of it.
"""
import importlib.machinery
import os
import sys

for k, v in {
    "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3",
    "TF_ENABLE_ONEDNN_OPTS": "0",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "KERAS_BACKEND": "torch",
    "PYTHONDONTWRITEBYTECODE": "1",
    "HYPOTHESIS_STORAGE_DIRECTORY": "/tmp/acetone-pbt-hypothesis",
}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True

REPO = os.environ.get("ACETONE_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
ALLOWED = {"hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_globals",
           "_hypothesis_ftz_detector", "_hypothesis_pytestplugin"}


class _ToolFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if path is None and name in ALLOWED:
            return importlib.machinery.PathFinder.find_spec(name, [SITE])
        return None


sys.meta_path.append(_ToolFinder())
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.insert(0, VERIF)


def load_acetone():
    """Import ACETONE from the repository under test, and make sure it is that one."""
    import contextlib
    import io
    import warnings

    warnings.filterwarnings("ignore")
    with contextlib.redirect_stderr(io.StringIO()):
        import acetone_nnet
    where = os.path.realpath(acetone_nnet.__file__)
    want = os.path.realpath(os.path.join(REPO, "src")) + os.sep
    if not where.startswith(want):
        raise RuntimeError(f"acetone_nnet imported from {where}, not from {want}")
    return acetone_nnet
