"""C14: the modes of the bounds (constant, affine, both) are views of the same bounds."""
import keras
import numpy as np
from decomon import get_lower_box, get_range_box, get_range_noise, get_upper_box
from decomon.core import ForwardMode
from decomon.models import clone
from decomon.models.utils import Convert2Mode
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from .c02 import domain

FULL = ["forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid"]
METHODS = FULL + FULL + ["forward-ibp", "crown", "crown-forward-ibp"]
TO = {"affine": ["ibp", "affine", "hybrid"], "hybrid": ["ibp", "affine", "hybrid"], "ibp": ["ibp"]}


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["layer", "model", "model"]))
    if kind == "layer":
        state = draw(S.state_spec())
        return {
            "kind": kind,
            "state": state,
            "shape": [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))],
            "to": draw(st.sampled_from(TO[state["mode"]])),
            "symbolic": draw(st.booleans()),
        }
    method = draw(st.sampled_from(METHODS))
    return {
        "kind": kind,
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "dom": {"domain": draw(st.sampled_from(S.DOMAINS)), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))},
        "head": draw(st.sampled_from([0, 0, 0, 1])),
    }


def strategy(tier):
    return strategy_()


def equal(a, b, what, scale=()):
    if a.shape != b.shape:
        raise Violation(f"{what}: shapes {a.shape} / {b.shape}")
    e = float(np.max(np.abs(a - b), initial=0.0))
    if not e <= O.tol(a, b, *scale):
        raise Violation(f"{what}: differ by {e}")


def run_case(case):
    return run_layer(case) if case["kind"] == "layer" else run_model(case)


def run_layer(case):
    s = S.State(case["state"], case["shape"])
    to = case["to"]
    layer = Convert2Mode(mode_from=s.mode, mode_to=to, perturbation_domain=s.domain, input_dim=s.dom.d)
    tensors = s.tensors()
    if case["symbolic"]:
        sym = s.symbolic()
        model = keras.Model(sym, layer(sym))
        for o, shape in zip(model.outputs, layer.compute_output_shape([t.shape for t in sym])):
            if tuple(o.shape) != tuple(shape):
                raise Violation(f"{s.mode} -> {to}: symbolic shape {o.shape}, computed shape {shape}")
        out = model(tensors)
    else:
        out = layer(tensors)
    o = S.split_outputs(out, to)
    what = f"conversion of {s.mode} bounds to {to}"
    rng = np.random.RandomState(case["state"]["seed"] + 5)
    pts = s.points(rng)
    S.check_outputs(out, to, pts, s.hidden(pts, rng), what, x=s.x, scale=(s.b_u, s.b_l))
    if to != "ibp":
        for k in ("w_u", "b_u", "w_l", "b_l"):
            equal(o[k], np.asarray(getattr(s, k)), f"{what}: {k}")
    if to != "affine":
        u_a, l_a = s.b_u + s.optimum(s.w_u), s.b_l - s.optimum(-s.w_l)
        u, l = {"ibp": (s.u_c, s.l_c), "affine": (u_a, l_a), "hybrid": (np.minimum(s.u_c, u_a), np.maximum(s.l_c, l_a))}[s.mode]
        equal(o["u_c"], u, f"{what}: u_c", (u_a,))
        equal(o["l_c"], l, f"{what}: l_c", (l_a,))
    return {
        "nontrivial": s.mode != to and case["state"]["style"] != "exact",
        "labels": ["layer", f"{s.mode}->{to}", "domain:" + case["state"]["domain"], f"rank:{len(case['shape'])}", f"symbolic:{case['symbolic']}"],
    }


def run_model(case):
    base = M.build(case["model"])
    model = M.add_head(base, case["dom"]["seed"]) if case["head"] else base
    method = case["method"]
    dom, domdec, x = domain(case["dom"], case["model"]["n_in"])
    source = "ibp" if method == "crown" else method.split("-")[-1]
    res = {}
    outs = len(M.output_functions(model))
    for to in [None] + TO[source]:
        kw = {} if to is None else dict(final_ibp=to != "affine", final_affine=to != "ibp")
        dm = clone(model, method=method, slope=case["slope"], perturbation_domain=domdec, **kw)
        mode = to or source
        what = f"{method}, final mode {to}"
        if (dm.ibp, dm.affine) != (mode != "affine", mode != "ibp"):
            raise Violation(f"{what}: announced ibp={dm.ibp}, affine={dm.affine}")
        raw = dm.predict_on_single_batch_np(x.astype(O.floatx()))
        k = {"ibp": 2, "affine": 5, "hybrid": 7}[mode]
        if len(raw) != k * outs:
            raise Violation(f"{what}: {len(raw)} outputs")
        res[to] = [S.split_outputs(raw[k * i : k * (i + 1)], mode) for i in range(outs)]
        if outs == 1:
            if domdec.get_nb_x_components() == 2:
                lo, hi = x[:, 0], x[:, 1]
                u = get_upper_box(dm, lo.astype(O.floatx()), hi.astype(O.floatx()))
                l = get_lower_box(dm, lo.astype(O.floatx()), hi.astype(O.floatx()))
                u2, l2 = get_range_box(dm, lo.astype(O.floatx()), hi.astype(O.floatx()))
                equal(u, u2, f"{what}: get_upper_box / get_range_box")
                equal(l, l2, f"{what}: get_lower_box / get_range_box")
            else:
                u, l = get_range_noise(dm, x.astype(O.floatx()), eps=domdec.eps, p=domdec.p)
            res[to][0]["u"], res[to][0]["l"] = u, l
    name = f"{method} ({case['slope']}, {case['dom']['domain']})"
    for i in range(outs):
        o = {to: r[i] for to, r in res.items()}
        for k in o[None]:
            equal(o[None][k], o[source][k], f"{name}: {k} of the default mode / final {source}")
        if source == "ibp":
            continue
        a, h, c = o["affine"], o["hybrid"], o["ibp"]
        sc = [np.asarray(v) for v in h.values()]
        for k in ("w_u", "b_u", "w_l", "b_l", "x"):
            equal(a[k], h[k], f"{name}: {k} of final affine / hybrid", sc)
        for k in ("u_c", "l_c"):
            equal(c[k], h[k], f"{name}: {k} of final ibp / hybrid", sc)
        # constants are at least as good as the extrema of the affine bounds
        ext = lambda w, b, s: b + s * np.transpose(
            np.stack([(dom.extremal(s * g[None])[0] * s * g).sum(-1) for g in np.transpose(w.reshape(w.shape[:2] + (-1,)), (2, 0, 1))]), (1, 0)
        ).reshape(b.shape)
        for k, w, b, s in (("u_c", "w_u", "b_u", 1.0), ("l_c", "w_l", "b_l", -1.0)):
            e = ext(h[w], h[b], s)
            if source == "affine":
                equal(h[k], e, f"{name}: {k} of final hybrid / extremum of the affine bound", sc)
            elif not float(np.max(s * (h[k] - e), initial=-np.inf)) <= O.tol(h[k], e, *sc):
                raise Violation(f"{name}: {k} looser than the extremum of the affine bound by {np.max(s * (h[k] - e))}")
        if outs == 1:
            for k, s in (("u", 1.0), ("l", -1.0)):
                equal(c[k], h[k], f"{name}: {k} by the functions, final ibp / hybrid", sc)
                if source == "affine":
                    equal(a[k], h[k], f"{name}: {k} by the functions, final affine / hybrid", sc)
                elif not float(np.max(s * (h[k] - a[k]), initial=-np.inf)) <= O.tol(h[k], a[k], *sc):
                    raise Violation(f"{name}: {k} looser with constants and affine bounds than with affine ones")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + ["model", method, "slope:" + case["slope"], "domain:" + case["dom"]["domain"], f"outputs:{outs}"],
    }


def classify(case):
    if case["kind"] == "layer":
        return "/".join(["layer", case["state"]["mode"], case["to"], case["state"]["domain"]])
    return "/".join(["model", case["method"], case["dom"]["domain"], str(case["head"])])
