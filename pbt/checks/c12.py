"""C12: interval propagation is monotonic: a smaller domain never gets wider bounds."""
import numpy as np
from decomon import get_lower_box, get_range_box, get_upper_box, refine_box
from decomon.core import BallDomain
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from ..engine import Violation
from .c03 import num

EPS = [0.0, 0.125, 0.25, 0.5, 1.0, 1.5]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["sub-box", "sub-box", "chain", "eps", "p", "split", "refine"]))
    return {
        "kind": kind,
        "model": draw(M.model_spec(max_layers=4, families=["mlp", "mlp", "merge", "merge", "image", "image", "nested", "shared", "reshape"])),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "boxes": draw(M.box_spec()),
        "seed": draw(st.integers(0, 10**6)),
        "m": draw(st.integers(2, 8)),
        "eps": sorted([draw(st.sampled_from(EPS)), draw(st.sampled_from(EPS))]),
        "p": draw(st.sampled_from(["1", "2", "inf"])),
        "random": draw(st.booleans()),
    }


def strategy(tier):
    return strategy_()


def inside(inner, outer, what):
    (ui, li), (uo, lo) = inner, outer
    t = O.tol(ui, li, uo, lo)
    for name, e in (("upper", ui - uo), ("lower", lo - li)):
        k = np.unravel_index(np.argmax(e), e.shape)
        if not e[k] <= t:
            raise Violation(f"{what}: the {name} bound is wider by {e[k]:.6g} on a smaller domain, at {k}")


def run_case(case):
    model = M.build(case["model"])
    d = case["model"]["n_in"]
    kind = case["kind"]
    rng = np.random.RandomState(case["seed"])
    lo, hi = M.boxes(case["boxes"], d)
    fl = lambda a: np.asarray(a).astype(O.floatx())
    wide = lambda pair: tuple(np.asarray(a, dtype="float64").reshape((len(lo), -1)) for a in pair)
    what = f"{kind} forward-ibp"
    if kind in ("eps", "p"):
        c = fl((lo + hi) / 2)
        dm = clone(model, method="forward-ibp", slope=case["slope"], perturbation_domain=BallDomain(eps=0.0, p=num(case["p"])))

        def at(eps, p):
            dm.set_domain(BallDomain(eps=eps, p=p))
            return wide(dm.predict_on_single_batch_np(c))

        if kind == "eps":
            inside(at(case["eps"][0], num(case["p"])), at(case["eps"][1], num(case["p"])), what + f" {case['eps']}")
        else:
            e = case["eps"][1]
            r = [at(e, p) for p in (1, 2, np.inf)]
            inside(r[0], r[1], what + " p=1,2")
            inside(r[1], r[2], what + " p=2,inf")
    else:
        dm = clone(model, method="forward-ibp", slope=case["slope"])
        f = lambda a, b, **kw: wide(get_range_box(dm, fl(a), fl(b), **kw))
        if kind in ("sub-box", "chain"):
            cur = (lo, hi)
            out = f(*cur)
            for _ in range(1 if kind == "sub-box" else 3):
                u = np.sort(np.round(rng.uniform(size=(2,) + lo.shape) * 16) / 16, 0)
                # some faces are kept
                u[0] = np.where(rng.uniform(size=lo.shape) < 0.3, 0.0, u[0])
                u[1] = np.where(rng.uniform(size=lo.shape) < 0.3, 1.0, u[1])
                a, b = cur[0] + u[0] * (cur[1] - cur[0]), cur[0] + u[1] * (cur[1] - cur[0])
                new = f(a, b)
                inside(new, out, what + f" {a.tolist()} {b.tolist()} in {cur[0].tolist()} {cur[1].tolist()}")
                cur, out = (a, b), new
        elif kind == "split":
            inside(f(lo, hi, n_sub_boxes=case["m"]), f(lo, hi), what + f" {case['m']} sub-boxes")
        else:
            kw = dict(n_split=case["m"], random=case["random"])
            new = wide((refine_box(get_upper_box, dm, fl(lo), fl(hi), **kw), refine_box(get_lower_box, dm, fl(lo), fl(hi), **kw)))
            inside(new, f(lo, hi), what + f" {kw}")
    return {"nontrivial": M.nonlinear(case["model"]) and bool(np.any(hi > lo)), "labels": M.labels(case["model"]) + ["kind:" + kind]}


def classify(case):
    return case["kind"] + "/" + "-".join(sorted(M.spec_ops(case["model"]) & M.NONLINEAR))
