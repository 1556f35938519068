"""C19: training losses and metrics over bounds dominate their true value on the whole domain."""
import keras
import numpy as np
from decomon.metrics import loss as L
from decomon.metrics.metric import AdversarialScore, UpperScore
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from .c02 import domain

LOSSES = ["upper", "lower", "adv", "adv"]
FUSIONS = ["crossentropy", "asymptotic", "radius", "radius"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["loss", "loss", "fusion", "fusion", "metric"]))
    it = lambda a, b: draw(st.integers(a, b))
    case = {"kind": kind, "seed": it(0, 10**6)}
    if kind == "metric":
        case.update(layer=draw(st.sampled_from(["AdversarialScore", "UpperScore"])), k=it(2, 4), state=draw(S.state_spec()))
        return case
    method = draw(st.sampled_from(M.METHODS))
    source = "ibp" if method == "crown" else method.split("-")[-1]
    case["what"] = draw(st.sampled_from(LOSSES if kind == "loss" else FUSIONS))
    case["domain"] = draw(st.sampled_from(S.DOMAINS))
    if case["what"] == "radius":
        case["domain"] = "box"
        method = draw(st.sampled_from([m for m in M.METHODS if m.endswith(("affine", "hybrid"))]))
        source = method.split("-")[-1]
    finals = [None] if source == "ibp" else [None, "affine", "hybrid"] + ([] if case["what"] == "radius" else ["ibp"])
    case.update(
        method=method,
        slope=draw(st.sampled_from(M.SLOPES)),
        final=draw(st.sampled_from(finals)),
        n=it(1, 3),
        model=draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3, out_dim=it(1 if case["what"] in ("upper", "lower", "crossentropy") else 2, 4))),
        point=draw(st.sampled_from([False, False, False, True])) and case["what"] != "radius",
        sigmoid=draw(st.booleans()),
        clip=draw(st.sampled_from([None, None, -1.0, 0.0, 0.5])),
        softmax=draw(st.sampled_from([False, False, True])),
    )
    return case


def strategy(tier):
    return strategy_()


def run_case(case):
    return {"loss": run_loss, "fusion": run_fusion, "metric": run_metric, "legacy": run_legacy}[case["kind"]](case)


def prepare(case):
    model = M.build(case["model"])
    dom, domdec, x = domain({"domain": case["domain"], "n": case["n"], "seed": case["seed"]}, case["model"]["n_in"])
    if case["point"]:
        if isinstance(dom, O.Box):
            dom = O.Box(dom.center, dom.center)
            x = np.stack([dom.lo, dom.hi], 1)
        else:
            dom = O.Ball(dom.center, 0.0, dom.p)
            domdec.eps = 0.0
    source = "ibp" if case["method"] == "crown" else case["method"].split("-")[-1]
    mode = case["final"] or source
    kw = {} if case["final"] is None else dict(final_ibp=mode != "affine", final_affine=mode != "ibp")
    dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, **kw)
    return model, dm, mode, dom, domdec, x.astype(O.floatx())


def points(dom, o, mode, rng):
    pts = dom.samples(rng, 40)
    if mode != "ibp":
        g = np.concatenate([np.transpose(o[q], (2, 0, 1)) for q in ("w_u", "w_l")], 0)
        pts = np.concatenate([pts, dom.extremal(g), dom.extremal(-g)], 0)
        k = o["w_u"].shape[-1]
        d = np.stack([o["w_u"][..., i] - o["w_l"][..., j] for i in range(k) for j in range(k) if i != j] or [o["w_u"][..., 0]])
        pts = np.concatenate([pts, dom.extremal(d)], 0)
    return dom.project(pts)


def extremum(dom, w, b):
    """max over the domain of w.x + b, one column of w and b per function"""
    g = np.transpose(w.reshape((dom.n, dom.d, -1)), (2, 0, 1))
    return np.transpose((dom.extremal(g) * g).sum(-1)) + b


def masks(rng, n, k):
    y = np.zeros((n, k))
    for i in range(n):
        y[i, rng.permutation(k)[: rng.randint(1, k)]] = 1.0 if rng.uniform() < 0.3 else 0.0
        if not y[i].any():
            y[i, rng.randint(k)] = 1.0
    return y


def soft(y):
    e = np.exp(y - y.max(-1, keepdims=True))
    return e / e.sum(-1, keepdims=True)


def run_loss(case):
    model, dm, mode, dom, domdec, x = prepare(case)
    kind = case["what"]
    rng = np.random.RandomState(case["seed"] + 1)
    concat = L.get_model(dm)
    pred = concat(keras.ops.convert_to_tensor(x))
    o = S.split_outputs(dm.predict_on_single_batch_np(x), mode)
    f = M.output_functions(model)[0]
    pts = points(dom, o, mode, rng)
    y = np.asarray(f(pts))  # (S, n, k)
    k = y.shape[-1]
    scale = [np.asarray(v) for v in o.values()] + [y]
    softmax = kind == "adv" and case["softmax"]
    what = f"{kind} loss, {case['method']} -> {mode}, {case['domain']}"
    if kind in ("upper", "lower"):
        s = 1.0 if kind == "upper" else -1.0
        ref = S.r32(rng.uniform(-1, 1, size=(dom.n, k)))
        fn = (L.get_upper_loss if kind == "upper" else L.get_lower_loss)(dm)
        true = np.max(s * (y - ref), -1).max(0)
        c, w, b = ("u_c", "w_u", "b_u") if kind == "upper" else ("l_c", "w_l", "b_l")
        scores = []
        if mode != "affine":
            scores.append(np.max(s * (o[c] - ref), -1))
        if mode != "ibp":
            scores.append(np.max(extremum(dom, s * o[w], s * o[b]) - s * ref, -1))
    else:
        ref = masks(rng, dom.n, k)
        fn = L.get_adv_loss(dm, sigmoid=case["sigmoid"], clip_value=case["clip"], softmax=softmax)
        pairs = ref[:, None, :] * (1 - ref)[:, :, None]  # (n, target, source)
        big = np.where(pairs > 0, 0.0, np.inf)
        v = soft(y) if softmax else y
        true = (v[..., :, None] - v[..., None, :] - big).max((-1, -2)).max(0)
        scores = []
        if mode != "affine":
            scores.append((o["u_c"][:, :, None] - o["l_c"][:, None, :] - big).max((-1, -2)))
        if mode != "ibp":
            w = o["w_u"][..., :, None] - o["w_l"][..., None, :]
            b = o["b_u"][..., :, None] - o["b_l"][..., None, :]
            scores.append((extremum(dom, w.reshape((dom.n, dom.d, -1)), b.reshape((dom.n, -1))).reshape(b.shape) - big).max((-1, -2)))
        if case["clip"] is not None:
            true = np.maximum(true, case["clip"])
            scores = [np.maximum(q, case["clip"]) for q in scores]
        if case["sigmoid"]:
            sig = lambda a: 1 / (1 + np.exp(-a))
            true, scores = sig(true), [sig(q) for q in scores]
    got = float(O.to_np(fn(keras.ops.convert_to_tensor(ref.astype(O.floatx())), pred)))
    t = O.tol(*scale) * (1 if O.floatx() == "float64" else 4)
    if not got >= np.mean(true) - t:
        raise Violation(f"{what}: loss {got} below the true value {np.mean(true)} on the domain")
    want = float(np.mean(np.min(scores, 0)))
    if not softmax and not abs(got - want) <= t:
        raise Violation(f"{what}: loss {got} instead of {want} given by the bounds")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + ["loss:" + kind, "mode:" + mode, "domain:" + case["domain"], f"softmax:{softmax}"],
    }


def run_fusion(case):
    model, dm, mode, dom, domdec, x = prepare(case)
    kind = case["what"]
    rng = np.random.RandomState(case["seed"] + 1)
    build = {
        "crossentropy": L.build_crossentropy_model,
        "asymptotic": L.build_asymptotic_crossentropy_model,
        "radius": L.build_radius_robust_model,
    }[kind]
    fm = build(dm)
    got = fm.predict_on_single_batch_np(x)
    got = np.asarray(got[0] if isinstance(got, list) else got, dtype="float64")
    o = S.split_outputs(dm.predict_on_single_batch_np(x), mode)
    f = M.output_functions(model)[0]
    what = f"{kind} model, {case['method']} -> {mode}, {case['domain']}"
    pts = points(dom, o, mode, rng)
    y = np.asarray(f(pts))
    k = y.shape[-1]
    if got.shape != (dom.n, k):
        raise Violation(f"{what}: shape {got.shape} instead of {(dom.n, k)}")
    O.check_finite(what, got)
    scale = [np.asarray(v) for v in o.values()] + [y]
    t = O.tol(*scale) * (1 if O.floatx() == "float64" else 4)
    certified = False
    if kind == "radius":
        # within the fraction 1 - output of the box, the label wins
        for i in range(k):
            e = np.clip(1.0 - got[:, i], 0.0, 1.0) * (1 - 1e-4)
            certified = certified or bool(np.any((got[:, i] < 1) & np.any(dom.radius > 0, -1)))
            p = dom.center + (pts - dom.center) * e[None, :, None]
            v = np.asarray(f(p))
            m = np.max(np.delete(v, i, -1), -1) - v[..., i]
            m = np.where(got[:, i] < 1, m, -1.0)
            if not np.max(m) <= t:
                raise Violation(f"{what}: label {i} announced to win within {e} of the box, loses by {np.max(m)}")
    else:
        if kind == "crossentropy":
            m = y.max(-1, keepdims=True)
            true = m + np.log(np.exp(y - m).sum(-1, keepdims=True)) - y
        else:
            true = np.maximum(np.stack([np.max(np.delete(y, i, -1), -1) - y[..., i] for i in range(k)], -1), -1.0)
        if not np.max(true - got[None]) <= t:
            raise Violation(f"{what}: {got} below the true value, by {np.max(true - got[None])}")
        exact = case["point"] and M.spec_ops(case["model"]) and not ({n["args"].get("act") for n in case["model"]["nodes"]} & {"softplus"})
        if exact and not np.max(np.abs(true - got[None])) <= 50 * t:
            raise Violation(f"{what}: {got} is not the true value at a single point, by {np.max(np.abs(true - got[None]))}")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + ["fusion:" + kind, "mode:" + mode, "domain:" + case["domain"], f"certified:{certified}"],
    }


def run_metric(case):
    s = S.State(case["state"], [case["k"]])
    rng = np.random.RandomState(case["seed"])
    n, k = s.dom.n, case["k"]
    kw = dict(ibp=s.mode != "affine", affine=s.mode != "ibp", mode="forward", perturbation_domain=s.domain)
    t = lambda a: keras.ops.convert_to_tensor(np.asarray(a).astype(O.floatx()))
    ins = list(s.tensors())
    if s.mode == "ibp":
        ins = [t(s.x)] + ins
    pts = s.points(rng)
    ys = s.hidden(pts, rng)
    what = f"{case['layer']} {s.mode} {case['state']['domain']}"
    tol = O.tol(s.b_u, s.b_l, *ys) * (1 if O.floatx() == "float64" else 4)
    ok = 0
    if case["layer"] == "AdversarialScore":
        y = masks(rng, n, k)
        score = O.to_np(AdversarialScore(**kw)([t(np.zeros((n, 1)))] + ins + [t(y)]))
        big = np.where(y[:, None, :] * (1 - y)[:, :, None] > 0, 0.0, np.inf)
        for v in ys:
            m = (v[..., :, None] - v[..., None, :] - big).max((-1, -2))
            bad = (score[None] < -tol) & (m > tol)
            if np.any(bad):
                raise Violation(f"{what}: score {score} announces no target class can win, one does by {np.max(m[bad])}")
        ok = int(np.sum(score < 0))
    else:
        y = S.r32(rng.uniform(0, 1, size=(n, k))) * (rng.uniform(size=(n, k)) < 0.7)
        score = O.to_np(UpperScore(**kw)([t(np.zeros((n, 1)))] + ins + [t(y)]))
        for v in ys:
            e = np.max((v * y).sum(-1) - score[None])
            if not e <= tol * k:
                raise Violation(f"{what}: score {score} exceeded by {e}")
    return {
        "nontrivial": case["state"]["style"] != "exact",
        "labels": ["metric:" + case["layer"], "mode:" + s.mode, "domain:" + case["state"]["domain"], f"certified:{ok > 0}"],
    }


def run_legacy(case):
    from decomon.metrics import metric

    dm = clone(M.build(case["model"]), method=case["method"])
    try:
        getattr(metric, case["function"])(dm)
    except Exception as e:
        raise Violation(f"{case['function']}: {type(e).__name__}: {str(e)[:100]}")
    return {"nontrivial": True, "labels": []}


def classify(case):
    return "/".join([case["kind"], str(case.get("what", case.get("layer"))), str(case.get("method", case.get("state", {}).get("mode"))), str(case.get("final"))])
