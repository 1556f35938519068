"""Process set-up shared by every worker: paths, backend, floating point type."""
import os
import sys
from importlib.machinery import PathFinder

REPO = os.environ.get("DECOMON_REPO", "/repo")
SRC = os.path.join(REPO, "src")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _HypothesisFinder:
    """Makes hypothesis (and what it needs), and nothing else of that venv, importable."""

    NAMES = ("hypothesis", "sortedcontainers", "attr", "attrs", "_hypothesis_ftz_detector", "_hypothesis_globals", "_hypothesis_pytestplugin")

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if path is None and name in cls.NAMES:
            return PathFinder.find_spec(name, [VT_SITE])
        return None


def add_hypothesis():
    if _HypothesisFinder not in sys.meta_path:
        sys.meta_path.append(_HypothesisFinder)


def boot(backend: str, floatx: str):
    os.environ["KERAS_BACKEND"] = backend
    # oneDNN, as built here, computes some strided convolutions wrongly and corrupts memory in some products of tensors
    os.environ["TF_ENABLE_ONEDNN_OPTS"] = "0"
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    add_hypothesis()
    import keras

    keras.config.set_floatx(floatx)
    keras.mixed_precision.set_dtype_policy(floatx)
    keras.utils.disable_interactive_logging()
    if backend == "torch":
        import torch

        torch.set_num_threads(1)
        torch.backends.mkldnn.enabled = False
    import decomon

    assert os.path.realpath(decomon.__file__).startswith(os.path.realpath(SRC)), decomon.__file__
    return decomon
