"""C21: the answer for a domain does not depend on the other rows of the batch, nor on its place among them."""
import keras
import numpy as np
from decomon import check_adv_box, get_adv_box, get_adv_noise, get_lower_box, get_range_box, get_range_noise, get_upper_box
from decomon.metrics import loss as L
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from .c02 import domain
from .c04 import FINALS
from .c05 import make_labels

ENTRIES = ["model", "model", "model", "range", "upper", "lower", "noise", "adv", "check", "adv-noise", "fusion"]


@st.composite
def strategy_(draw):
    it = lambda a, b: draw(st.integers(a, b))
    entry = draw(st.sampled_from(ENTRIES))
    method = draw(st.sampled_from(M.METHODS))
    labelled = entry in ("adv", "check", "adv-noise", "fusion")
    case = {
        "entry": entry,
        "method": method,
        "slope": draw(st.sampled_from(M.SLOPES)),
        "domain": draw(st.sampled_from(S.DOMAINS)),
        "n": it(2, 5),
        "seed": it(0, 10**6),
        "model": draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3, out_dim=it(2, 3) if labelled else None)),
    }
    if entry in ("noise", "adv-noise"):
        case["domain"] = draw(st.sampled_from([q for q in S.DOMAINS if q != "box"]))
    elif entry not in ("model", "fusion"):
        case["domain"] = "box"
    if entry == "model":
        case["final"] = draw(st.sampled_from(FINALS[method.split("-")[-1]]))
        case["back"] = method in M.BACKWARD and draw(st.sampled_from([False, False, True]))
    if labelled and entry != "fusion":
        case.update(source=draw(st.sampled_from(["one", "many"])), target=draw(st.sampled_from([None, "one", "many"])), lseed=it(0, 10**5))
    if entry in ("range", "upper", "lower", "adv"):
        case["sub"] = draw(st.sampled_from([1, 1, 2, 3, 5]))
    return case


def strategy(tier):
    return strategy_()


def call(case, model, dm, x, dom, rows, labels, extra):
    """list of arrays, one row per domain"""
    e = case["entry"]
    x = np.ascontiguousarray(x[rows]).astype(O.floatx())
    if e in ("model", "fusion"):
        t = [keras.ops.convert_to_tensor(a) for a in [x] + [q[rows] for q in extra]]
        out = dm(t if extra else t[0])
        return [O.to_np(v) for v in (out if isinstance(out, (list, tuple)) else [out])]
    sub = {"n_sub_boxes": case["sub"]} if "sub" in case else {}
    lab = {}
    if labels is not None:
        s, t = labels
        lab = dict(source_labels=s[rows].copy(), target_labels=None if t is None else t[rows].copy())
    if e in ("noise", "adv-noise"):
        f = get_range_noise if e == "noise" else get_adv_noise
        out = f(dm, x, eps=dom.eps, p=dom.p, **lab)
    else:
        f = {"range": get_range_box, "upper": get_upper_box, "lower": get_lower_box, "adv": get_adv_box, "check": check_adv_box}[e]
        out = f(dm, x[:, 0], x[:, 1], **sub, **lab)
    return list(out) if isinstance(out, (list, tuple)) else [np.asarray(out)]


def attempt(case, shake):
    model = M.build(case["model"])
    dom, domdec, x = domain({"domain": case["domain"], "n": case["n"], "seed": case["seed"]}, case["model"]["n_in"])
    rng = np.random.RandomState(case["seed"] + 3)
    if shake:
        x = x + rng.uniform(-1e-2, 1e-2, size=(shake,) + x.shape)[-1]
        x = np.sort(x, 1) if case["domain"] == "box" else x
    kw, extra, labels = {}, [], None
    k = M.n_outputs(model)
    n = case["n"]
    final = case.get("final")
    if final:
        kw.update(final_ibp=final != "affine", final_affine=final != "ibp")
    if case.get("back"):
        kw["back_bounds"] = [keras.Input((k, 2))]
        extra = [S.r32(rng.uniform(-1, 1, size=(n, k, 2))).astype(O.floatx())]
    dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, **kw)
    if case["entry"] == "fusion":
        dm = L.build_crossentropy_model(dm)
    if "lseed" in case:
        c = dom.center if not shake else (x.mean(1) if case["domain"] == "box" else x)
        labels = make_labels(case, n, k, np.argmax(M.evaluate(model, c), -1))
    run = lambda rows: call(case, model, dm, x, dom, np.asarray(rows), labels, extra)
    everything = list(range(n))
    ref = run(everything)
    for v in ref:
        if len(v) != n:
            return f"{len(v)} rows for {n} domains", dom
    perm = [int(i) for i in rng.permutation(n)]
    twice = [perm[0]] * 2 + perm[1:]
    for rows in [everything, perm, perm[: n - 1], twice] + [[i] for i in everything]:
        got = run(rows)
        if len(got) != len(ref):
            return f"{len(got)} outputs instead of {len(ref)} for the rows {rows}", dom
        for j, (a, b) in enumerate(zip(got, ref)):
            b = b[rows]
            if a.shape != b.shape:
                return f"output {j} of shape {a.shape} instead of {b.shape} for the rows {rows}", dom
            O.check_finite(case["entry"], a, b)
            e = np.max(np.abs(a - b), initial=0)
            if not e <= O.tol(*ref):
                return f"output {j} changes by {e:.6g} for the rows {rows} of {n}", dom
    return None, dom


def run_case(case):
    # a relaxation may jump where several are as good: only a disagreement that survives a displacement of the domains counts
    for shake in range(4):
        why, dom = attempt(case, shake)
        if why is None:
            break
    if why is not None:
        raise Violation(f"{case['entry']} {case['method']} {case['domain']} {case.get('final')}: {why}")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + ["entry:" + case["entry"], case["method"], "domain:" + case["domain"], f"shaken:{shake}"],
    }


def classify(case):
    return "/".join([case["entry"], case["method"], str(case.get("final")), str(case.get("back"))])
