"""C04: bounding functions over boxes: sub-boxes, batches and refinement."""
import keras
import numpy as np
from decomon import get_lower_box, get_range_box, get_upper_box, refine_box
from decomon.models import clone
from decomon.wrapper import refine_boxes
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import refs as R
from ..engine import Violation

FINALS = {"ibp": [None], "affine": [None, "ibp", "hybrid", "affine"], "hybrid": [None, "ibp", "affine", "hybrid"], "crown": [None]}


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["range", "range", "range", "refine", "refine", "boxes"]))
    if kind == "boxes":
        return {
            "kind": kind,
            "shape": [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 3)))],
            "boxes": draw(M.box_spec()),
            "sub": draw(st.integers(1, 20)),
        }
    method = draw(st.sampled_from(M.METHODS))
    case = {
        "kind": kind,
        "method": method,
        "keras": draw(st.sampled_from([False, False, False, True])),
        "model": draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3)),
        "tail": draw(st.sampled_from([None, None, "row", "col"])),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "boxes": draw(M.box_spec()),
        "batch": draw(st.sampled_from([1, 2, 3, 5, -1])),
    }
    if case["keras"]:
        case["method"] = "crown"
        case["model"] = draw(M.model_spec(backward=True, max_layers=3))
    case["final"] = draw(st.sampled_from(FINALS[case["method"].split("-")[-1]]))
    if kind == "range":
        case["entry"] = draw(st.sampled_from(["range", "range", "upper-lower"]))
        case["sub"] = draw(st.sampled_from([1, 2, 3, 4, 7, 9]))
        # the sub-boxes, mini-batches and layout of the boxes given as (n, 1, d)
        case["rank3"] = draw(st.booleans())
    else:
        case["n_split"] = draw(st.integers(1, 7))
        case["random"] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_()


def build(case):
    model = M.build(case["model"])
    if case["tail"]:
        k = M.n_outputs(model)
        model = keras.Model(model.inputs, keras.layers.Reshape((1, k) if case["tail"] == "row" else (k, 1))(model.output))
    target = model
    if not case["keras"]:
        kw = {}
        if case["final"]:
            kw = dict(final_ibp=case["final"] != "affine", final_affine=case["final"] != "ibp")
        target = clone(model, method=case["method"], slope=case["slope"], **kw)
    return model, target


def shaped(y, n, k, what, flat_ok, want):
    if y.shape != want and not (flat_ok and y.shape == (n, k)):
        raise Violation(f"{what}: shape {y.shape} instead of {want}")
    return np.asarray(y, dtype="float64").reshape((n,) + want[1:])


def run_case(case):
    if case["kind"] == "boxes":
        return run_boxes(case)
    model, target = build(case)
    lo, hi = M.boxes(case["boxes"], case["model"]["n_in"])
    n, k = len(lo), M.n_outputs(model)
    rng = np.random.RandomState(case["boxes"]["seed"])
    f = lambda x: M.evaluate(model, x)
    y0 = f(lo)
    backward = case["method"] in M.BACKWARD
    what = f"{case['kind']} {case['method']}"
    # backward methods, and refinement, return flat bounds
    sh = lambda a, w="": shaped(a, n, k, what + w, backward or case["kind"] == "refine", y0.shape)
    dom = O.Box(lo, hi)
    labels = M.labels(case["model"]) + ["kind:" + case["kind"], case["method"], "keras" if case["keras"] else "decomon", f"tail:{case['tail']}", f"batch:{case['batch']}"]
    if case["kind"] == "range":
        a, b = (lo[:, None], hi[:, None]) if case["rank3"] else (lo, hi)
        if case["entry"] == "range":
            call = lambda **kw: get_range_box(target, a.copy(), b.copy(), **kw)
        else:
            call = lambda **kw: (get_upper_box(target, a.copy(), b.copy(), **kw), get_lower_box(target, a.copy(), b.copy(), **kw))
        u0, l0 = [sh(t) for t in call()]
        if not case["keras"]:
            out = target.predict_on_single_batch_np(np.stack([lo, hi], 1).astype(O.floatx()))
            mode = case["final"] or case["method"].split("-")[-1]
            u1, l1 = R.ranges(out, "ibp" if mode == "crown" else mode, dom)
            e = max(float(np.max(u0.reshape(u1.shape) - u1)), float(np.max(l1 - l0.reshape(l1.shape))))
            if not e <= O.tol(*out):
                raise Violation(f"{what}: bounds less precise by {e:.6g} than those of the converted model")
        u, l = [sh(t, " split") for t in call(batch_size=case["batch"], n_sub_boxes=case["sub"])]
        O.check_upper_lower(f, dom, O.const(u), O.const(l), rng, what + f" sub={case['sub']} batch={case['batch']}")
        u1, l1 = u0, l0
        if case["sub"] > 1:
            u1, l1 = [sh(t, " sub") for t in call(n_sub_boxes=case["sub"])]
        else:
            O.check_upper_lower(f, dom, O.const(u0), O.const(l0), rng, what)
        t = O.tol(u, l, u1, l1)
        e = max(float(np.max(np.abs(u - u1))), float(np.max(np.abs(l - l1))))
        if not e <= t:
            raise Violation(f"{what}: bounds depend on the mini-batches by {e:.6g}")
        labels += [f"sub:{case['sub']}", "final:" + str(case["final"])]
    else:
        kw = dict(n_split=case["n_split"], batch_size=case["batch"], random=case["random"])
        u = sh(refine_box(get_upper_box, target, lo.copy(), hi.copy(), **kw), " upper").reshape((n, k))
        l = sh(refine_box(get_lower_box, target, lo.copy(), hi.copy(), **kw), " lower").reshape((n, k))
        g = lambda x: f(x).reshape(x.shape[:2] + (k,))
        O.check_upper_lower(g, dom, O.const(u), O.const(l), rng, what + f" {kw}")
        if case["n_split"] == 1:
            u0, l0 = [sh(t).reshape((n, k)) for t in get_range_box(target, lo, hi)]
            if float(np.max(np.abs(u - u0))) > O.tol(u) or float(np.max(np.abs(l - l0))) > O.tol(l):
                raise Violation(f"{what}: refinement with one box differs from no refinement")
    return {"nontrivial": M.nonlinear(case["model"]) and bool(np.any(hi > lo)) and (case.get("sub", 1) > 1 or case.get("n_split", 1) > 1 or case["batch"] > 0), "labels": labels}


def run_boxes(case):
    shape, m = case["shape"], case["sub"]
    d = int(np.prod(shape))
    lo, hi = M.boxes(case["boxes"], d)
    n = len(lo)
    a, b = refine_boxes(lo.reshape([n] + shape), hi.reshape([n] + shape), m)
    k = a.shape[1]
    what = f"refine_boxes {shape} {m}"
    if a.shape != tuple([n, k] + shape) or b.shape != a.shape:
        raise Violation(f"{what}: shapes {a.shape} {b.shape}")
    if not (1 <= k <= m) or (k == 1 and m > 1):
        raise Violation(f"{what}: {k} sub-boxes")
    a, b = a.reshape((n, k, d)), b.reshape((n, k, d))
    if np.any(a < lo[:, None]) or np.any(b > hi[:, None]) or np.any(a > b):
        raise Violation(f"{what}: sub-boxes outside of the box, or empty")
    # they cover the box: no volume is lost (in the dimensions of positive width), and sampled points are inside
    for i in range(n):
        pos = hi[i] > lo[i]
        vol, subs = np.prod((hi[i] - lo[i])[pos]), np.prod((b[i] - a[i])[:, pos], -1)
        if pos.any() and abs(vol - subs.sum()) > 1e-9 * max(vol, 1e-9):
            raise Violation(f"{what}: volume {vol} cut into {subs.tolist()}")
    pts = O.Box(lo, hi).samples(np.random.RandomState(case["boxes"]["seed"]), 40)
    inside = np.all((pts[:, :, None] >= a[None] - 1e-12) & (pts[:, :, None] <= b[None] + 1e-12), -1).any(-1)
    if not inside.all():
        s, i = np.argwhere(~inside)[0]
        raise Violation(f"{what}: {pts[s, i].tolist()} is in no sub-box of box {i}")
    return {"nontrivial": k > 1 and bool(np.any(hi > lo)), "labels": ["kind:boxes", f"rank:{len(shape)}"]}


def classify(case):
    return "/".join([case["kind"], case.get("method", ""), str(case.get("tail", "")), str(case.get("keras", ""))])
