"""C25: bounds are differentiable: gradients are finite, and those of the function computed."""
import keras
import numpy as np
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Skip, Violation
from .c02 import domain


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from(M.METHODS))
    return {
        "method": method,
        "model": draw(M.model_spec(backward=method in M.BACKWARD)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "finetune": draw(st.booleans()),
        "dom": {"domain": draw(st.sampled_from(S.DOMAINS)), "n": draw(st.integers(1, 2)), "seed": draw(st.integers(0, 10**6))},
        "final": draw(st.sampled_from([None, None, "ibp", "affine", "hybrid"])),
        "ties": draw(st.sampled_from([False, False, True])),
    }


def strategy(tier):
    return strategy_()


def value_and_gradients(dm, x, variables, coeffs):
    """sum of coeffs * outputs, with its gradients (None: no dependency) with respect to the domain and to variables"""
    if keras.backend.backend() == "torch":
        import torch

        xt = keras.ops.convert_to_tensor(x).detach().clone().requires_grad_(True)
        ps = [xt] + [v.value for v in variables]
        out = dm(xt)
        out = out if isinstance(out, list) else [out]
        total = sum((o * keras.ops.convert_to_tensor(c)).sum() for o, c in zip(out, coeffs(out)))
        if not total.requires_grad:
            return float(total), [None] * len(ps)
        gs = torch.autograd.grad(total, ps, allow_unused=True)
        return float(total.detach()), [None if g is None else g.detach().cpu().numpy() for g in gs]
    import tensorflow as tf

    xt = tf.convert_to_tensor(x)
    ps = [xt] + [v.value for v in variables]
    with tf.GradientTape() as tape:
        tape.watch(xt)
        out = dm(xt)
        out = out if isinstance(out, list) else [out]
        total = sum(tf.reduce_sum(o * tf.convert_to_tensor(c)) for o, c in zip(out, coeffs(out)))
    gs = tape.gradient(total, ps)
    return float(total), [None if g is None else np.asarray(tf.convert_to_tensor(g)) for g in gs]


def run_case(case):
    model = M.build(case["model"])
    dom, domdec, x = domain(case["dom"], case["model"]["n_in"])
    kw = {}
    if case["final"]:
        kw = dict(final_ibp=case["final"] != "affine", final_affine=case["final"] != "ibp")
    dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, finetune=case["finetune"], **kw)
    rng = np.random.RandomState(case["dom"]["seed"] + 1)
    fx = O.floatx()
    x = np.asarray(x).astype(fx)
    # unless asked, nothing special: no tie between the constants of the network, nor null weights
    for w in [] if case["ties"] else model.weights:
        v = O.to_np(w.value)
        w.assign((v + rng.uniform(0.001, 0.01, size=v.shape) * rng.choice([-1, 1], size=v.shape) * ("variance" not in w.path)).astype(fx))
    variables = list(dm.trainable_weights)
    for v in variables:
        if v.path.split("/")[-1].startswith(("alpha", "beta_u_f", "beta_l_f")):
            v.assign(rng.uniform(0.1, 0.9, size=v.shape).astype(fx))
    cs = []

    def coeffs(out):
        if not cs:
            r = np.random.RandomState(3)
            # the first output of affine and hybrid bounds is the domain
            cs.extend(r.uniform(-1, 1, size=o.shape).astype(fx) for o in out)
        return cs

    try:
        value, grads = value_and_gradients(dm, x, variables, coeffs)
    except RuntimeError as e:
        if "must be contiguous" in str(e):  # convolutions of torch without oneDNN
            raise Skip("torch: gradient of this convolution")
        raise
    names = ["domain"] + [v.path for v in variables]
    what = f"{case['method']} {case['slope']} {case['dom']['domain']} final {case['final']}"
    for name, g in zip(names, grads):
        if g is not None and not np.all(np.isfinite(g)):
            raise Violation(f"{what}: gradient with respect to {name} not finite: {g.ravel()[:4]}")
    compared = 0
    if fx == "float64" and not case["ties"] and np.isfinite(value):
        base = [x] + [np.array(O.to_np(v.value)) for v in variables]

        def at(k, d, h):
            z = base[k] + h * d
            if k == 0:
                return value_of(z)
            variables[k - 1].assign(z)
            r = value_of(x)
            variables[k - 1].assign(base[k])
            return r

        def value_of(z):
            out = dm(keras.ops.convert_to_tensor(z))
            out = out if isinstance(out, list) else [out]
            return float(sum(np.sum(O.to_np(o) * c) for o, c in zip(out, cs)))

        ref = value_of(x)
        for k, name in enumerate(names):
            d = rng.uniform(-1, 1, size=base[k].shape)
            if k == 0 and case["dom"]["domain"] == "box":
                d[:, 0], d[:, 1] = -np.abs(d[:, 0]), np.abs(d[:, 1])  # a direction where boxes remain boxes on one side
                if np.any(x[:, 1] - x[:, 0] < 1e-3):
                    continue
            g = 0.0 if grads[k] is None else float(np.sum(grads[k] * d))
            h = 1e-6
            right, left = (at(k, d, h) - ref) / h, (ref - at(k, d, -h)) / h
            scale = 1.0 + abs(right) + abs(left) + abs(ref)
            if abs(right - left) > 1e-4 * scale:
                continue  # not differentiable here
            compared += 1
            if not abs(g - (right + left) / 2) <= 1e-3 * scale:
                raise Violation(f"{what}: derivative with respect to {name}: {g:.9g} by differentiation, {left:.9g} to {right:.9g} by finite differences")
    return {
        "nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + [case["method"], "slope:" + case["slope"], "domain:" + case["dom"]["domain"], f"final:{case['final']}", f"ties:{case['ties']}", f"compared:{min(compared, 3)}"],
    }


def classify(case):
    return "/".join([case["method"], case["model"]["family"], case["dom"]["domain"], case["slope"]])
