"""C03: bounds on Lp balls are sound after any history of domain changes and noise queries."""
import keras
import numpy as np
from decomon import get_lower_noise, get_range_noise, get_upper_noise
from decomon.core import BallDomain, BoxDomain
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import refs as R
from .. import states as S
from ..engine import Violation
from .c02 import check_model

P = ["1", "2", "inf"]
EPS = st.sampled_from([0.0, 0.125, 0.25, 0.5, 1.0, 1.5, 0.375])


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from(M.METHODS))
    ball = lambda: [draw(EPS), draw(st.sampled_from(P))]
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["eval", "eval", "set", "set", "range", "upper-lower", "keras", "keep", "box"]))
        s = {"op": op, "who": draw(st.sampled_from([0, 0, 0, 1]))}
        if op in ("set", "range", "upper-lower", "keras"):
            s["ball"] = ball()
        if op in ("range", "upper-lower", "keras", "keep"):
            s["batch"] = draw(st.sampled_from([-1, -1, 1, 2]))
        if op not in ("set", "box"):
            s["n"], s["seed"] = draw(st.integers(1, 3)), draw(st.integers(0, 10**5))
        steps.append(s)
    # a conversion followed by a change and an evaluation, at least
    if draw(st.booleans()):
        steps += [{"op": "set", "who": 0, "ball": ball()}, {"op": "eval", "who": 0, "n": 2, "seed": draw(st.integers(0, 10**5))}]
    return {
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD, max_layers=3)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "ball": ball(),
        "two": draw(st.booleans()),
        "fresh": draw(st.sampled_from([True, False])),
        "steps": steps,
    }


def strategy(tier):
    return strategy_()


def num(p):
    return np.inf if p == "inf" else int(p)


def run_case(case):
    model = M.build(case["model"])
    d = case["model"]["n_in"]
    f = lambda x: M.evaluate(model, x)
    init = BallDomain(eps=case["ball"][0], p=num(case["ball"][1]))
    conv = lambda dom: clone(model, method=case["method"], slope=case["slope"], perturbation_domain=dom)
    dms = [conv(init)] + ([conv(init)] if case["two"] else [])
    cur = [list(case["ball"]) for _ in dms]
    mode = {"ibp": "ibp", "affine": "affine", "hybrid": "hybrid", "crown": "ibp"}[case["method"].split("-")[-1]]
    changes = evals = 0
    labels = M.labels(case["model"]) + [case["method"]]
    for k, s in enumerate(case["steps"]):
        i = min(s["who"], len(dms) - 1)
        what = f"step {k} ({s['op']}) of {case['method']}"
        labels.append("step:" + s["op"])
        if s["op"] == "set":
            dms[i].set_domain(BallDomain(eps=s["ball"][0], p=num(s["ball"][1])))
            cur[i] = list(s["ball"])
            changes += 1
            continue
        if s["op"] == "box":
            # the type of the domain can not be changed
            try:
                dms[i].set_domain(BoxDomain())
            except NotImplementedError:
                continue
            raise Violation(f"{what}: a ball replaced by a box")
        rng = np.random.RandomState(s["seed"])
        c = S.r32(rng.uniform(-2, 2, size=(s["n"], d)))
        evals += 1
        if s["op"] == "eval":
            dom = O.Ball(c, cur[i][0], num(cur[i][1]))
            labels.append("p:" + cur[i][1])
            check_model(dms[i], mode, [f], dom, c, rng, what)
            continue
        keep = s["op"] == "keep"
        if keep:
            s = dict(s, ball=cur[i])
        eps, p = s["ball"][0], num(s["ball"][1])
        labels.append("p:" + s["ball"][1])
        if s["op"] == "keras":
            target = model
            if M.spec_ops(case["model"]) & {"add", "sub", "avg", "max", "min", "concat", "maxpool"}:
                continue  # the noise functions use a backward method, which does not implement these
        else:
            target = dms[i]
            cur[i] = list(s["ball"])
            changes += not keep
        x = c.astype(O.floatx())
        if s["op"] == "upper-lower":
            u = get_upper_noise(target, x, eps, p, batch_size=s["batch"])
            l = get_lower_noise(target, x, eps, p, batch_size=s["batch"])
        else:
            # the domain of the model is kept when the radius is negative
            u, l = get_range_noise(target, x, -1.0 if keep else eps, 2 if keep else p, batch_size=s["batch"])
        y = f(c)
        if u.shape != y.shape or l.shape != y.shape:
            raise Violation(f"{what}: shapes {u.shape} {l.shape} instead of {y.shape}")
        dom = O.Ball(c, eps, p)
        O.check_upper_lower(f, dom, O.const(u), O.const(l), rng, what)
        if s["op"] != "keras":
            out = target.predict_on_single_batch_np(x)
            u1, l1 = R.ranges(out, mode, dom)
            e = max(float(np.max(u.reshape(u1.shape) - u1)), float(np.max(l1 - l.reshape(l1.shape))))
            if not e <= O.tol(*out):
                raise Violation(f"{what}: bounds less precise by {e:.6g} than those of the converted model")
    if case["fresh"]:
        # the history leaves no trace: same bounds as a new conversion with the current domain
        rng = np.random.RandomState(7)
        x = S.r32(rng.uniform(-2, 2, size=(2, d))).astype(O.floatx())
        new = conv(BallDomain(eps=cur[0][0], p=num(cur[0][1]))).predict_on_single_batch_np(x)
        old = dms[0].predict_on_single_batch_np(x)
        for a, b in zip(old, new):
            if a.shape != b.shape or float(np.max(np.abs(a - b), initial=0)) > O.tol(a, b):
                raise Violation(f"{case['method']}: after the history, bounds differ from those of a new conversion by {np.max(np.abs(a - b)):.6g}")
    return {"nontrivial": M.nonlinear(case["model"]) and changes > 0 and evals > 0, "labels": labels}


def classify(case):
    return "/".join([case["method"], case["model"]["family"]])
