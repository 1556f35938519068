"""C13: a conversion leaves the network as it was, and follows its weights."""
import json

import keras
import numpy as np
from decomon import get_range_box
from decomon.models import clone
from decomon.models.convert import preprocess_keras_model, split_activations_in_keras_model
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from ..engine import Violation

HEADS = [None, None, None, "act", "dense", "layer"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["history", "history", "history", "preprocess", "softmax"]))
    back = draw(st.booleans())
    head = draw(st.sampled_from(HEADS)) if kind != "softmax" else draw(st.sampled_from(["act", "dense", "layer"]))
    methods = M.METHODS if back else M.FORWARD
    steps = []
    if kind == "history":
        for _ in range(draw(st.integers(2, 6))):
            op = draw(st.sampled_from(["convert", "convert", "eval", "eval", "weights", "weights", "freeze", "range", "finetune"]))
            steps.append({"op": op, "method": draw(st.sampled_from(methods)), "who": draw(st.integers(0, 3)), "seed": draw(st.integers(0, 10**5))})
        if not any(s["op"] == "range" for s in steps) or not back:
            steps = [s for s in steps if s["op"] != "range"]
        steps = [dict(steps[0], op="convert")] + steps[1:] if steps else [{"op": "convert", "method": draw(st.sampled_from(methods)), "who": 0, "seed": 1}]
        steps += [{"op": "weights", "method": "", "who": 0, "seed": draw(st.integers(0, 10**5))}, {"op": "eval", "method": "", "who": draw(st.integers(0, 3)), "seed": 3}]
    return {
        "kind": kind,
        "model": draw(M.model_spec(backward=back, max_layers=3)),
        "seq": draw(st.booleans()),
        "head": head,
        "method": draw(st.sampled_from(methods)),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "boxes": draw(M.box_spec()),
        "steps": steps,
    }


def strategy(tier):
    return strategy_()


def with_head(model, head, seq):
    """a softmax at the end of the network, in each of the ways to write it"""
    if head is None:
        return model
    k = M.n_outputs(model)
    rng = np.random.RandomState(k)
    dense = keras.layers.Dense(k, activation="softmax" if head == "dense" else None)
    tail = [dense]
    if head == "act":
        tail.append(keras.layers.Activation("softmax"))
    elif head == "layer":
        tail.append(keras.layers.Softmax())
    if seq:
        # a nested model, then the head
        out = keras.Sequential([keras.Input(model.input.shape[1:]), model] + tail)
    else:
        y = model.output
        for l in tail:
            y = l(y)
        out = keras.Model(model.inputs, y)
    dense.set_weights([rng.uniform(-1, 1, size=tuple(w.shape)) for w in dense.weights])
    return out


def snapshot(model, x):
    return {
        "prediction": M.evaluate(model, x),
        "config": json.dumps(model.get_config(), sort_keys=True, default=str),
        "layers": [(l.name, type(l).__name__, l.trainable, [w.path for w in l.weights], [w.path for w in l.trainable_weights]) for l in model.layers],
        "weights": [np.asarray(w) for w in model.get_weights()],
        "ids": [id(w) for w in model.weights],
    }


def check_intact(before, model, x, what, names=True):
    after = snapshot(model, x)
    for k in ("config", "layers", "ids") if names else ("ids",):
        if before[k] != after[k]:
            raise Violation(f"{what}: the {k} of the network changed: {str(before[k])[:200]} -> {str(after[k])[:200]}")
    for a, b in zip(before["weights"], after["weights"]):
        if a.shape != b.shape or np.any(a != b):
            raise Violation(f"{what}: a weight of the network changed")
    if float(np.max(np.abs(before["prediction"] - after["prediction"]))) > O.tol(before["prediction"]):
        raise Violation(f"{what}: the predictions of the network changed")


def same(a, b, what):
    if len(a) != len(b):
        raise Violation(f"{what}: {len(a)} / {len(b)} outputs")
    for u, v in zip(a, b):
        if u.shape != v.shape or not float(np.max(np.abs(u - v), initial=0.0)) <= O.tol(u, v):
            raise Violation(f"{what}: by {np.max(np.abs(u - v)) if u.shape == v.shape else (u.shape, v.shape)}")


def run_case(case):
    kind = case["kind"]
    base = M.build(case["model"])
    model = with_head(base, case["head"], case["seq"])
    lo, hi = M.boxes(case["boxes"], case["model"]["n_in"])
    z = np.stack([lo, hi], 1).astype(O.floatx())
    x = (lo + hi) / 2
    fl = lambda a: a.astype(O.floatx())
    conv = lambda method, m=None, **kw: clone(m or model, method=method, slope=case["slope"], **kw)
    labels = M.labels(case["model"]) + ["kind:" + kind, f"head:{case['head']}"]
    before = snapshot(model, x)
    if kind == "preprocess":
        for name, func in (("preprocess_keras_model", preprocess_keras_model), ("split_activations_in_keras_model", split_activations_in_keras_model)):
            new = func(model)
            check_intact(before, model, x, name, names=False)  # the layers are reused, with other names
            y = M.evaluate(new, x)
            if y.shape != before["prediction"].shape or float(np.max(np.abs(y - before["prediction"]))) > O.tol(y):
                raise Violation(f"{name}: another function")
            for l in new.layers:
                if hasattr(l, "activation") and not isinstance(l, keras.layers.Activation) and l.get_config()["activation"] != "linear":
                    raise Violation(f"{name}: the activation of {l.name} is not split")
            w = [a * 0.5 - 0.25 if not n.endswith("variance") else a for a, n in zip(before["weights"], [v.name for v in model.weights])]
            model.set_weights(w)
            y, ref = M.evaluate(new, x), M.evaluate(model, x)
            if float(np.max(np.abs(y - ref))) > O.tol(y):
                raise Violation(f"{name}: weights are not shared")
            model.set_weights(before["weights"])
        return {"nontrivial": M.nonlinear(case["model"]) or case["head"] is not None, "labels": labels}
    if kind == "softmax":
        # the bounds are those of the logits
        dense = [l for l in model.layers if isinstance(l, keras.layers.Dense)][-1]
        inner = keras.layers.Dense(dense.units)
        logits = keras.Model(base.inputs, inner(base.output))
        inner.set_weights(dense.get_weights())
        a = conv(case["method"]).predict_on_single_batch_np(z)
        check_intact(before, model, x, f"conversion {case['method']} with softmax")
        same(a, conv(case["method"], logits).predict_on_single_batch_np(z), f"{case['method']}: bounds with a final softmax ({case['head']}) are not those of the logits")
        return {"nontrivial": M.nonlinear(case["model"]), "labels": labels}
    dms = []
    changed = evals = 0
    for i, s in enumerate(case["steps"]):
        what = f"step {i}: {s['op']} {s['method']}"
        labels.append("step:" + s["op"])
        who = dms[s["who"] % len(dms)] if dms else None
        if s["op"] == "convert":
            dms.append((conv(s["method"]), s["method"]))
            if s["seed"] % 3 == 0:
                # a conversion that does not share the weights starts from the same values
                same(
                    conv(s["method"], shared=False).predict_on_single_batch_np(z),
                    dms[-1][0].predict_on_single_batch_np(z),
                    f"{what}: bounds with shared=False differ from those with shared=True",
                )
        elif s["op"] == "finetune":
            dms.append((conv(s["method"], finetune=True), s["method"] + "+"))
        elif s["op"] == "eval":
            evals += 1
            out = who[0].predict_on_single_batch_np(z)
            m = who[1]
            new = conv(m.rstrip("+"), finetune=m.endswith("+")).predict_on_single_batch_np(z)
            same(out, new, f"{what}: bounds of {m} differ from those of a new conversion")
        elif s["op"] == "range":
            get_range_box(model, fl(lo), fl(hi))
        elif s["op"] == "freeze":
            who[0].freeze_weights()
        elif s["op"] == "weights":
            rng = np.random.RandomState(s["seed"])
            names = [v.name for v in model.weights]
            model.set_weights([np.abs(w) + r32(rng.uniform(0, 1, size=w.shape)) if "variance" in n else r32(rng.uniform(-1, 1, size=w.shape)) for w, n in zip(model.get_weights(), names)])
            before = snapshot(model, x)
            changed += 1
        check_intact(before, model, x, what)
    return {"nontrivial": M.nonlinear(case["model"]) and changed > 0 and evals > 0, "labels": labels}


def r32(a):
    return np.round(a * 64) / 64


def classify(case):
    return "/".join([case["kind"], str(case["head"]), case["method"] if case["kind"] == "softmax" else "-".join(sorted({s["method"] for s in case["steps"]}))])
