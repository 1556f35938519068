"""C02: the affine bounds returned by a converted model enclose the network at every point of the domain."""
import numpy as np
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation

METHODS = ["forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"]


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from(METHODS))
    return {
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "dom": {"domain": draw(st.sampled_from(S.DOMAINS)), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))},
        "final": draw(st.sampled_from([None, "affine", "hybrid"])),
        "head": draw(st.sampled_from([0, 0, 0, 1])),
    }


def strategy(tier):
    return strategy_()


def domain(dspec, d):
    return S.make_domain(dict(dspec, d=d), np.random.RandomState(dspec["seed"]))


def check_model(dm, mode, fs, dom, x, rng, what):
    """outputs of a decomon model against the functions of its outputs"""
    outputs = dm.predict_on_single_batch_np(x.astype(O.floatx()))
    k = {"ibp": 2, "affine": 5, "hybrid": 7}[mode]
    if not isinstance(outputs, list) or len(outputs) != k * len(fs):
        raise Violation(f"{what}: {len(outputs)} outputs instead of {k * len(fs)}")
    for i, f in enumerate(fs):
        o = S.split_outputs(outputs[k * i : k * (i + 1)], mode)
        y = f(dom.center)
        w = f"{what}, output {i}"
        for name, v in o.items():
            want = x.shape if name == "x" else (dom.n, dom.d) + y.shape[1:] if name in ("w_u", "w_l") else y.shape
            if v.shape != want:
                raise Violation(f"{w}: {name} of shape {v.shape} instead of {want}")
            O.check_finite(w, v)
        scale = [a for a in o.values()]
        if mode != "ibp":
            if float(np.max(np.abs(o["x"] - x))) > O.tol(x):
                raise Violation(f"{w}: the returned domain is not the given one")
            O.check_upper_lower(f, dom, O.affine(o["w_u"], o["b_u"]), O.affine(o["w_l"], o["b_l"]), rng, w + " (affine)", scale=scale)
        if mode != "affine":
            O.check_upper_lower(f, dom, O.const(o["u_c"]), O.const(o["l_c"]), rng, w + " (constant)", scale=scale)


def run_case(case):
    model = M.build(case["model"])
    if case["head"]:
        model = M.add_head(model, case["dom"]["seed"])
    dom, domdec, x = domain(case["dom"], case["model"]["n_in"])
    mode = case["final"] or case["method"].split("-")[-1]
    kw = {}
    if case["final"]:
        kw = dict(final_ibp=mode == "hybrid", final_affine=True)
    dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, **kw)
    rng = np.random.RandomState(case["dom"]["seed"] + 1)
    check_model(dm, mode, M.output_functions(model), dom, x, rng, f"{case['method']} -> {mode}")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + [case["method"], "slope:" + case["slope"], "final:" + mode, "domain:" + case["dom"]["domain"], f"outputs:{1 + case['head']}"],
    }


def classify(case):
    return "/".join([case["method"], case["model"]["family"], str(case["final"]), case["dom"]["domain"], str(case["head"])])
