"""C16: finetuning parameters: any value in [0, 1] gives sound bounds, histories of changes, resets, freezing, optimisation."""
import keras
import numpy as np
from decomon.metrics.loss import get_lower_loss, get_model, get_upper_loss
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from .c02 import check_model, domain

OPS = ["set", "set", "set", "reset", "freeze", "unfreeze", "clip", "fit", "weights"]


@st.composite
def strategy_(draw):
    method = draw(st.sampled_from([m for m in M.METHODS if m != "forward-ibp"]))
    back = method in M.BACKWARD
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        steps.append({"op": draw(st.sampled_from(OPS)), "style": draw(st.sampled_from(["random", "zeros", "corner", "half", "mixed"])), "seed": draw(st.integers(0, 10**5))})
    return {
        "method": method,
        "model": draw(M.model_spec(backward=back, max_layers=3)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "dom": {"domain": draw(st.sampled_from(S.DOMAINS)), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))},
        "which": draw(st.sampled_from(["both", "both", "both", "forward", "backward"])),
        "steps": steps,
    }


def strategy(tier):
    return strategy_()


def is_alpha(v):
    return v.name.startswith(("alpha_", "beta_l_f", "beta_u_f"))


def tuned(case):
    """get_upper_box_tuning / get_lower_box_tuning: sound, at least as good as without tuning, weights unchanged."""
    from decomon import get_lower_box, get_upper_box
    from decomon.wrapper_with_tuning import get_lower_box_tuning, get_upper_box_tuning

    model = M.build(case["model"])
    dom, domdec, x = domain(dict(case["dom"], domain="box"), case["model"]["n_in"])
    f = M.output_functions(model)[0]
    x = x.astype(O.floatx())
    lo, hi = x[:, 0], x[:, 1]
    both = {"upper": (True, get_upper_box, get_upper_box_tuning), "lower": (False, get_lower_box, get_lower_box_tuning)}
    for up, plain, tuning in [both[case["which"]]]:
        dm = clone(model, method=case["method"], perturbation_domain=domdec, finetune=True)
        before = [np.array(w) for w in model.get_weights()]
        base = plain(dm, lo, hi)
        try:
            b = tuning(dm, get_model(dm), lo, hi, batch_size=-1, epochs=2)
        except Exception as e:
            raise Violation(f"{tuning.__name__}: {type(e).__name__}: {str(e)[:150]}")
        if any(np.any(np.asarray(v) != w) for v, w in zip(model.get_weights(), before)):
            raise Violation(f"{tuning.__name__}: the weights of the network were changed")
        s = 1.0 if up else -1.0
        y = f(dom.samples(np.random.RandomState(0), 64))
        if np.max(s * (np.max(s * y, 0) * s - b)) > O.tol(b, y) or np.max(s * (b - base)) > O.tol(b, base):
            raise Violation(f"{tuning.__name__}: unsound, or looser than without tuning")
    return {"nontrivial": True, "labels": ["tuning"]}


def frozen_weights(case):
    """freeze_weights: only the finetuning parameters stay trainable."""
    model = M.build(case["model"])
    dm = clone(model, method=case["method"], finetune=True)
    n = sum(is_alpha(v) for v in dm.weights)
    dm.freeze_weights()
    if len(dm.trainable_weights) != n or not all(is_alpha(v) for v in dm.trainable_weights):
        raise Violation(f"freeze_weights: {len(dm.trainable_weights)} trainable weights left, {n} finetuning parameters")
    return {"nontrivial": True, "labels": ["freeze_weights"]}


def run_case(case):
    if case.get("kind") == "tuning":
        return tuned(case)
    if case.get("kind") == "freeze_weights":
        return frozen_weights(case)
    model = M.build(case["model"])
    method = case["method"]
    mode = "ibp" if method == "crown" else method.split("-")[-1]
    dom, domdec, x = domain(case["dom"], case["model"]["n_in"])
    conv = lambda **kw: clone(model, method=method, slope=case["slope"], perturbation_domain=domdec, **kw)
    kw = {"both": {"finetune": True}, "forward": {"finetune_forward": True}, "backward": {"finetune_backward": True}}[case["which"]]
    # dropout and batch normalization are documented as not working during training
    fits = any(s["op"] == "fit" for s in case["steps"]) and not M.spec_ops(case["model"]) & {"dropout", "bn"}
    if fits:
        # so that only the parameters of the bounds are optimised
        model.trainable = False
    before = [np.array(w) for w in model.get_weights()]
    dm = conv(**kw)
    alphas = [v for v in dm.weights if is_alpha(v)]
    others = len(dm.trainable_weights) - len(alphas)
    rng = np.random.RandomState(case["dom"]["seed"] + 1)
    fx = x.astype(O.floatx())
    plain = conv().predict_on_single_batch_np(fx)
    f = M.output_functions(model)

    def compare(what):
        for a, b in zip(dm.predict_on_single_batch_np(fx), plain):
            e = float(np.max(np.abs(a - b), initial=0.0))
            if not e <= O.tol(a, b, *plain):
                raise Violation(f"{what}: differ from those of a conversion without finetuning by {e:.3g}")

    compare(f"{method}: bounds with the initial parameters")
    labels = M.labels(case["model"]) + [method, "slope:" + case["slope"], "which:" + case["which"], "domain:" + case["dom"]["domain"], f"alphas:{min(len(alphas), 3)}"]
    frozen = changed = False
    for i, s in enumerate(case["steps"]):
        op = s["op"]
        what = f"step {i}: {op} {s['style'] if op == 'set' else ''} ({method})"
        labels.append("step:" + op)
        r = np.random.RandomState(s["seed"])
        if op == "set":
            for v in alphas:
                a = {
                    "random": r.uniform(size=v.shape),
                    "zeros": np.zeros(v.shape),
                    "corner": np.round(r.uniform(size=v.shape)),
                    "half": np.full(v.shape, 0.5),
                    "mixed": np.clip(r.uniform(-1, 2, size=v.shape), 0, 1),
                }[s["style"]]
                v.assign(a.astype(O.floatx()))
            changed = bool(alphas)
        elif op == "reset":
            dm.reset_finetuning()
            for v in alphas:
                if np.any(O.to_np(v.value) != 1.0):
                    raise Violation(f"{what}: {v.path} is not reset")
            compare(what)
        elif op in ("freeze", "unfreeze"):
            frozen = op == "freeze"
            (dm.freeze_alpha if frozen else dm.unfreeze_alpha)()
        elif op == "clip":
            # what an optimiser does after each step
            for v in alphas:
                v.assign(r.uniform(-1, 2, size=v.shape).astype(O.floatx()))
                if v.constraint is None:
                    raise Violation(f"{what}: {v.path} is not constrained")
                v.assign(v.constraint(v))
            changed = bool(alphas)
        elif op == "weights":
            w = [a if "variance" in v.name else S.r32(r.uniform(-1, 1, size=a.shape)) for a, v in zip(before, model.weights)]
            model.set_weights(w)
            before = w
            plain = conv().predict_on_single_batch_np(fx)
        elif op == "fit" and fits and alphas and not frozen and len(np.asarray(plain[-1]).shape) == 2:
            values = [O.to_np(v.value) for v in alphas]
            loss = (get_upper_loss if r.uniform() < 0.5 else get_lower_loss)(dm)
            concat = get_model(dm)
            concat.compile(keras.optimizers.SGD(learning_rate=float(r.choice([0.1, 1.0, 10.0]))), loss)
            try:
                concat.fit(fx, np.zeros(np.asarray(plain[-1]).shape, O.floatx()), epochs=2, verbose=0, batch_size=len(fx))
            except (RuntimeError, ValueError) as e:
                # parameters without any effect on the bounds
                if "does not require grad" not in str(e) and "No gradients provided" not in str(e):
                    raise
            for a, w in zip(before, model.get_weights()):
                if np.any(np.asarray(w) != a):
                    raise Violation(f"{what}: a weight of the network (not trainable) was changed")
            changed = changed or any(np.any(O.to_np(v.value) != a) for v, a in zip(alphas, values))
        for v in alphas:
            a = O.to_np(v.value)
            if np.min(a, initial=1.0) < 0 or np.max(a, initial=0.0) > 1 or np.any(np.isnan(a)):
                raise Violation(f"{what}: {v.path} out of [0, 1]: {a.ravel()[:4]}")
        n = sum(is_alpha(v) for v in dm.trainable_weights)
        if n != (0 if frozen else len(alphas)) or len(dm.trainable_weights) - n != others:
            raise Violation(f"{what}: {n} trainable parameters out of {len(alphas)}, frozen: {frozen}")
        check_model(dm, mode, f, dom, x, rng, what)
    return {"nontrivial": M.nonlinear(case["model"]) and bool(np.any(dom.radius > 0)) and changed, "labels": labels}


def classify(case):
    if "kind" in case:
        return case["kind"]
    return "/".join([case["method"], case["dom"]["domain"], case["which"]])
