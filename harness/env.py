"""Import stheno from /repo without leaving anything behind in it."""
import os
import sys
import types
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MKL_NUM_THREADS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")


def load():
    """Import stheno from the working tree."""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if not os.path.exists(os.path.join(REPO, "stheno", "_version.py")):
        stub = types.ModuleType("stheno._version")
        stub.version = stub.__version__ = "0"
        stub.version_tuple = stub.__version_tuple__ = (0,)
        sys.modules["stheno._version"] = stub
    # Warnings are not shown, so do not spend time on finding out where they are due.
    import wbml.warning

    wbml.warning.warn_upmodule = lambda *args, **kw_args: None
    warnings.simplefilter("ignore")
    import stheno

    if not os.path.abspath(stheno.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError(f"stheno is not imported from {REPO}: {stheno.__file__}")
    return stheno
