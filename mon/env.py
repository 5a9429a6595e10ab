"""Import the code under test from /repo, never from a stale byte-code cache."""
import os
import sys
import tempfile
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

warnings.filterwarnings("ignore")


class EnvError(Exception):
    pass


def load():
    """Import nannos and return it; its byte code is always compiled afresh."""
    if REPO not in sys.path[:1]:
        sys.path.insert(0, REPO)
    # third party imports first, these may use their byte-code cache
    import autograd  # noqa
    import colorlog  # noqa
    import jax  # noqa
    import joblib  # noqa
    import matplotlib.pyplot  # noqa
    import numpy  # noqa
    import packaging.version  # noqa
    import pyvista  # noqa
    import scipy.fftpack  # noqa
    import scipy.interpolate  # noqa
    import scipy.optimize  # noqa
    import shapely.affinity  # noqa
    import shapely.geometry  # noqa
    import torch

    torch.set_num_threads(1)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), "verif-nopyc")
    import nannos

    where = os.path.realpath(nannos.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise EnvError(f"nannos comes from {where}, not from {REPO}")
    return nannos
