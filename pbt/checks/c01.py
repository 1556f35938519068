"""C01: constant bounds returned by every conversion method enclose the network on the whole box."""
import numpy as np
from decomon import get_lower_box, get_range_box, get_upper_box
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from ..engine import Violation


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from(M.METHODS))
    # keras: the wrapper converts the model by itself, with the default method
    entry = draw(st.sampled_from(["range", "range", "upper-lower", "keras"]))
    if entry == "keras":
        method = "crown"
    return {
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "boxes": draw(M.box_spec()),
        "entry": entry,
        "batch_size": draw(st.sampled_from([-1, -1, 1, 2, 3])),
    }


def strategy(tier):
    return strategy_()


def run_case(case):
    model = M.build(case["model"])
    lo, hi = M.boxes(case["boxes"], case["model"]["n_in"])
    bs = case["batch_size"]
    if case["entry"] == "keras":
        # the wrapper converts the Keras model by itself
        u, l = get_range_box(model, lo, hi, batch_size=bs)
    else:
        dm = clone(model, method=case["method"], slope=case["slope"])
        if case["entry"] == "range":
            u, l = get_range_box(dm, lo, hi, batch_size=bs)
        else:
            u, l = get_upper_box(dm, lo, hi, batch_size=bs), get_lower_box(dm, lo, hi, batch_size=bs)
    rng = np.random.RandomState(case["boxes"]["seed"])
    y0 = M.evaluate(model, lo)
    if u.shape != y0.shape or l.shape != y0.shape:
        raise Violation(f"shapes {u.shape} {l.shape} instead of {y0.shape}")
    O.check_upper_lower(lambda x: M.evaluate(model, x), O.Box(lo, hi), O.const(u), O.const(l), rng, case["entry"])
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(hi > lo)),
        "labels": M.labels(case["model"]) + [case["method"], "slope:" + case["slope"], "entry:" + case["entry"], "box:" + case["boxes"]["style"]],
    }


def classify(case):
    return case["method"] + "/" + case["model"]["family"] + "/" + case["entry"]
