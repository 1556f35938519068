"""C15: bounds of linear objectives of the outputs (back_bounds)."""
import keras
import numpy as np
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from .c02 import domain


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from(M.METHODS))
    source = "ibp" if method == "crown" else method.split("-")[-1]
    return {
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "dom": {"domain": draw(st.sampled_from(S.DOMAINS)), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))},
        "final": draw(st.sampled_from([None] if source == "ibp" else [None, "ibp", "affine", "hybrid"])),
        "form": draw(st.sampled_from(["matrix", "matrix", "bounds", "identity"])),
        "m": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 10**6)),
        "finetune": draw(st.sampled_from([False, False, False, True])),
    }


def strategy(tier):
    return strategy_()


def run_case(case):
    model = M.build(case["model"])
    dom, domdec, x = domain(case["dom"], case["model"]["n_in"])
    source = "ibp" if case["method"] == "crown" else case["method"].split("-")[-1]
    mode = case["final"] or source
    kw = {} if case["final"] is None else dict(final_ibp=mode != "affine", final_affine=mode != "ibp")
    k, n = M.n_outputs(model), dom.n
    m = k if case["form"] == "identity" else case["m"]
    rng = np.random.RandomState(case["seed"])
    w = lambda: S.r32(rng.uniform(-1, 1, size=(n, k, m))) * (rng.uniform(size=(n, k, m)) < 0.7)
    if case["form"] == "bounds":
        coef = [w(), S.r32(rng.uniform(-1, 1, size=(n, m))), w(), S.r32(rng.uniform(-1, 1, size=(n, m)))]
    elif case["form"] == "identity":
        coef = [np.repeat(np.eye(k)[None], n, 0)]
    else:
        coef = [w()]
    inputs = [keras.Input(c.shape[1:], dtype=O.floatx()) for c in coef]
    conv = lambda **kk: clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, finetune=case["finetune"], **kk)
    dm = conv(back_bounds=inputs, **kw)
    fx = lambda a: a.astype(O.floatx())
    outputs = dm.predict_on_single_batch_np([fx(x)] + [fx(c) for c in coef])
    what = f"{case['method']} -> {mode}, objective given as {case['form']}"
    expected = {"ibp": 2, "affine": 5, "hybrid": 7}[mode]
    if len(outputs) != expected:
        raise Violation(f"{what}: {len(outputs)} outputs instead of {expected}")
    o = S.split_outputs(outputs, mode)
    f = M.output_functions(model)[0]
    full = coef if len(coef) == 4 else [coef[0], np.zeros((n, m))] * 2

    def objective(i):
        def g(p):
            y = np.asarray(f(p.reshape((-1,) + p.shape[-1:]))).reshape(p.shape[:-1] + (-1,))  # (...,n,k)
            return np.einsum("...nk,nkm->...nm", y, full[i]) + full[i + 1]

        return g

    up, low = objective(0), objective(2)
    for name, v in o.items():
        want = x.shape if name == "x" else (n, dom.d, m) if name in ("w_u", "w_l") else (n, m)
        if v.shape != want:
            raise Violation(f"{what}: {name} of shape {v.shape} instead of {want}")
        O.check_finite(what, v)
    pts = dom.samples(rng, 32)
    if mode != "ibp":
        g = np.concatenate([np.transpose(o[q], (2, 0, 1)) for q in ("w_u", "w_l")], 0)
        pts = np.concatenate([pts, dom.extremal(g), dom.extremal(-g)], 0)
    pts = dom.project(pts)
    yu, yl = up(pts), low(pts)
    scale = [np.asarray(v) for v in o.values()]
    checks = []
    if mode != "ibp":
        checks += [("affine upper", O.affine(o["w_u"], o["b_u"])(pts), yu, 1.0), ("affine lower", O.affine(o["w_l"], o["b_l"])(pts), yl, -1.0)]
    if mode != "affine":
        checks += [("upper", o["u_c"][None], yu, 1.0), ("lower", o["l_c"][None], yl, -1.0)]
    for name, b, y, s in checks:
        e = float(np.max(s * (y - b)))
        if not e <= O.tol(b, y, *scale):
            raise Violation(f"{what}: {name} bound of the objective exceeded by {e:.3g}")
    if case["form"] == "identity":
        ref = S.split_outputs(conv(**kw).predict_on_single_batch_np(fx(x)), mode)
        for q, v in o.items():
            r = ref[q].reshape(v.shape)
            if not float(np.max(np.abs(v - r), initial=0.0)) <= O.tol(v, r, *scale):
                raise Violation(f"{what}: {q} differs from the one without objective by {np.max(np.abs(v - r)):.3g}")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"])
        + [case["method"], "final:" + mode, "domain:" + case["dom"]["domain"], "objective:" + case["form"], f"m:{m}", f"finetune:{case['finetune']}"],
    }


def classify(case):
    return "/".join([case["method"], str(case["final"]), case["dom"]["domain"], case["form"], str(case["finetune"])])
