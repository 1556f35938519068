"""C05: adversarial scores: certificates of robustness and of existence of an adversarial example."""
import itertools

import keras
import numpy as np
from decomon import check_adv_box, get_adv_box, get_adv_noise, refine_box
from decomon.core import BallDomain
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import refs as R
from ..engine import Violation
from .c03 import num
from .c04 import FINALS

EPS = [0.0, 0.03125, 0.125, 0.25, 0.5, 1.0]


@st.composite
def strategy_(draw):
    entry = draw(st.sampled_from(["adv", "adv", "adv", "check", "check", "noise", "noise", "refine-adv", "refine-check"]))
    method = draw(st.sampled_from(M.METHODS))
    back = entry == "adv" and method in M.BACKWARD and draw(st.booleans())
    use_keras = not back and draw(st.sampled_from([False, False, True]))
    if use_keras:
        method = "crown"
    small = entry in ("check", "refine-check")
    n_in = draw(st.integers(1, 3)) if entry == "refine-check" else None
    # one output per class
    case = {
        "entry": entry,
        "method": method,
        "keras": use_keras,
        "back": back,
        "model": draw(
            M.model_spec(
                backward=method in M.BACKWARD,
                max_layers=2,
                out_dim=draw(st.integers(2, 4)),
                families=["mlp", "mlp", "merge", "nested", "shared"] if small else None,
                n_in=n_in,
            )
        ),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "batch": draw(st.sampled_from([-1, 1, 2, 3])),
        "source": draw(st.sampled_from(["one", "one", "one", "many"])),
        "target": draw(st.sampled_from([None, None, "one", "many", "all"])),
        "lseed": draw(st.integers(0, 10**5)),
        "final": draw(st.sampled_from(FINALS[method.split("-")[-1]])) if not use_keras else None,
    }
    if entry == "noise":
        case["n"] = draw(st.integers(1, 4))
        case["seed"] = draw(st.integers(0, 10**6))
        case["ball"] = [draw(st.sampled_from(EPS)), draw(st.sampled_from(["1", "2", "inf"]))]
        case["first"] = [draw(st.sampled_from(EPS)), draw(st.sampled_from(["1", "2", "inf"]))]
        case["keep"] = draw(st.booleans())
    else:
        case["boxes"] = draw(M.box_spec())
        case["shrink"] = draw(st.sampled_from([1.0, 0.25, 0.0625]))
        case["predicted"] = draw(st.booleans())
    if entry == "adv":
        case["sub"] = draw(st.sampled_from([1, 1, 2, 4, 6]))
    if entry.startswith("refine"):
        case["n_split"] = draw(st.integers(1, 4))
        case["random"] = draw(st.booleans())
        case["batch"] = draw(st.sampled_from([-1, -1, 1, 2, 3]))
    return case


def strategy(tier):
    return strategy_()


def make_labels(case, n, k, pred):
    """masks of the source and target classes, at least one source and one target for each sample"""
    rng = np.random.RandomState(case["lseed"])
    s = np.zeros((n, k), dtype=int)
    t = np.zeros((n, k), dtype=int)
    for i in range(n):
        perm = list(rng.permutation(k))
        if pred is not None and rng.uniform() < 0.8:
            # the predicted class is the source: this is when certificates are given
            perm.remove(pred[i])
            perm = [int(pred[i])] + perm
        m = 1 if case["source"] == "one" else rng.randint(1, k)
        s[i, perm[:m]] = 1
        rest = perm[m:]
        nt = 1 if case["target"] == "one" else rng.randint(1, len(rest) + 1)
        t[i, rest[:nt]] = 1
        if case["target"] == "all":
            t[i] = 1 - s[i]
    return s, (None if case["target"] is None else t)


def margin(y, s, t):
    """the largest gap between a target class and a source class. y: (S, n, k)"""
    gap = y[:, :, :, None] - y[:, :, None, :]
    mask = t[None, :, :, None] * s[None, :, None, :] > 0
    return np.where(mask, gap, -np.inf).max((-1, -2))


def corners(lo, hi, per_dim):
    """grid of the boxes: per_dim points in every dimension"""
    g = np.linspace(0, 1, per_dim)
    u = np.array(list(itertools.product(g, repeat=lo.shape[-1])))
    return lo[None] + u[:, None] * (hi - lo)[None]


def run_case(case):
    model = M.build(case["model"])
    d, k = case["model"]["n_in"], M.n_outputs(model)
    f = lambda x: M.evaluate(model, x)
    entry, method = case["entry"], case["method"]
    what = f"{entry} {method}" + (" linear objective" if case["back"] else "")
    kw = {}
    if case["final"]:
        kw = dict(final_ibp=case["final"] != "affine", final_affine=case["final"] != "ibp")
    ball = None
    if entry == "noise":
        rng = np.random.RandomState(case["seed"])
        n = case["n"]
        c = np.round(rng.uniform(-2, 2, size=(n, d)) * 32) / 32
        ball = case["first"] if (case["keep"] and not case["keras"]) else case["ball"]
        dom = O.Ball(c, ball[0], num(ball[1]))
        kw["perturbation_domain"] = BallDomain(eps=case["first"][0], p=num(case["first"][1]))
    else:
        lo, hi = M.boxes(case["boxes"], d)
        mid = (lo + hi) / 2
        lo, hi = [np.round((mid + (b - mid) * case["shrink"]) * 1024) / 1024 for b in (lo, hi)]
        n = len(lo)
        rng = np.random.RandomState(case["boxes"]["seed"])
        dom = O.Box(lo, hi)
    if case["back"]:
        kw["back_bounds"] = [keras.Input((k, k))]
    target = model if case["keras"] else clone(model, method=method, slope=case["slope"], **kw)
    pred = np.argmax(f(dom.center), -1) if case.get("predicted", True) else None
    s, t = make_labels(case, n, k, pred)
    tt = 1 - s if t is None else t
    args = dict(source_labels=s.copy(), target_labels=None if t is None else t.copy())
    g = lambda x: margin(f(x), s, tt)
    fl = lambda a: a.astype(O.floatx())

    def call(batch):
        if entry == "adv":
            return get_adv_box(target, fl(lo), fl(hi), batch_size=batch, n_sub_boxes=case["sub"], **args)
        if entry == "check":
            return check_adv_box(target, fl(lo), fl(hi), batch_size=batch, **args)
        if entry == "noise":
            eps, p = (-1.0, 2) if (case["keep"] and not case["keras"]) else (case["ball"][0], num(case["ball"][1]))
            return get_adv_noise(target, fl(c), eps=eps, p=p, batch_size=batch, **args)
        func = get_adv_box if entry == "refine-adv" else check_adv_box
        np.random.seed(case["lseed"])
        return refine_box(func, target, fl(lo), fl(hi), n_split=case["n_split"], batch_size=batch, random=case["random"], **args)

    score = np.asarray(call(case["batch"]), dtype="float64")
    if score.shape != (n,):
        raise Violation(f"{what}: scores of shape {score.shape} for {n} samples")
    O.check_finite(what, score)
    if case["batch"] > 0:
        other = np.asarray(call(-1), dtype="float64")
        if float(np.max(np.abs(other - score))) > O.tol(score, f(dom.center)):
            raise Violation(f"{what}: the scores depend on the mini-batches ({score.tolist()} / {other.tolist()})")
    if entry in ("adv", "noise", "refine-adv"):
        O.check_upper_lower(g, dom, O.const(score), None, rng, what + f" S={s.tolist()} T={tt.tolist()}", scale=(f(dom.center),))
    else:
        if d > 10:
            pts = dom.samples(rng, 64)
        else:
            per_dim = 2 if entry == "check" else 2 ** (case["n_split"] - 1) + 1
            pts = corners(lo, hi, per_dim)
        m = g(pts).max(0)
        # such a lower bound is reached at a corner of a (sub-)box
        if d <= 10 and np.any(m < score - O.tol(score, m, f(dom.center))):
            i = int(np.argmax(score - m))
            raise Violation(f"{what}: adversarial example claimed ({score[i]:.6g}), but none in box {i} {lo[i].tolist()} {hi[i].tolist()} (best margin {m[i]:.6g}) S={s[i].tolist()} T={tt[i].tolist()}")
    if not case["keras"] and case.get("sub", 1) == 1 and entry in ("adv", "noise", "check"):
        # no less precise than what the bounds of the model imply
        x = fl(c) if entry == "noise" else np.stack([fl(lo), fl(hi)], 1)
        out = target.predict_on_single_batch_np(x) if not case["back"] else None
        mode = case["final"] or method.split("-")[-1]
        mode = "ibp" if mode == "crown" else mode
        if out is not None:
            ref = R.reached(out, mode, dom, s, tt) if entry == "check" else R.score(out, mode, dom, s, tt)
            e = float(np.max((score - ref) * (-1 if entry == "check" else 1)))
            if not e <= O.tol(score, f(dom.center), *out):
                raise Violation(f"{what}: scores {score.tolist()} less precise by {e:.6g} than what the bounds of the model imply ({ref.tolist()}) S={s.tolist()} T={tt.tolist()}")
    certified = bool(np.any(score < 0)) if "check" not in entry else bool(np.any(score > 0))
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": ["entry:" + entry, method, f"back:{case['back']}", f"source:{case['source']}", f"target:{case['target']}", f"batch:{case['batch']}"]
        + (["certified:" + entry] if certified else []) + ([f"p:{ball[1]}"] if ball else []),
    }


def classify(case):
    return "/".join([case["entry"], case["method"], "back" if case["back"] else "", str(case["keras"]), str(case["final"])])
