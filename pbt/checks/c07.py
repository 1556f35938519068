"""C07: single-input forward layers map any abstract state to a sound abstract state."""
import keras
import numpy as np
from decomon.layers.convert import to_decomon
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation

KINDS = ["dense", "conv", "conv", "maxpool", "bn", "dropout", "reshape", "permute", "flatten", "activation"]
ACTS = ["relu", "linear", "sigmoid", "tanh", "softsign", "softplus", "exponential", "softmax"]


@st.composite
def case_strategy(draw, tier="quick"):
    kind = draw(st.sampled_from(KINDS))
    it = lambda a, b: draw(st.integers(a, b))
    cfg = {}
    if kind == "dense":
        shape = [it(1, 4)]
        cfg = {"units": it(1, 4), "use_bias": draw(st.booleans())}
    elif kind in ("conv", "maxpool"):
        h, w, c = it(2, 5), it(2, 5), it(1, 2)
        df = draw(st.sampled_from(["channels_last", "channels_last", "channels_first"]))
        cfg = {"padding": draw(st.sampled_from(["valid", "same"])), "data_format": df}
        k = [it(1, min(h, 3)), it(1, min(w, 3))]
        if kind == "conv":
            s = draw(st.sampled_from([1, 1, 2]))
            cfg.update(filters=it(1, 2), kernel_size=k, strides=[s, s], use_bias=draw(st.booleans()))
            if s == 1 and draw(st.integers(0, 3)) == 0:
                cfg.update(dilation_rate=[2, 2], kernel_size=[min(k[0], (h + 1) // 2), min(k[1], (w + 1) // 2)])
        else:
            cfg.update(pool_size=k, fast=draw(st.booleans()))
            cfg["strides"] = draw(st.sampled_from([None, [1, 1], [2, 2], [1, 2]]))
        shape = [h, w, c] if df == "channels_last" else [c, h, w]
    elif kind == "bn":
        shape = [it(1, 3) for _ in range(it(1, 3))]
        cfg = {"axis": draw(st.sampled_from([-1] + list(range(1, len(shape) + 1)))),
               "center": draw(st.booleans()), "scale": draw(st.booleans()), "neg": draw(st.booleans())}
    elif kind == "reshape":
        shape = [it(1, 3) for _ in range(it(1, 3))]
        m = int(np.prod(shape))
        opts = [[m], [1, m], [m, 1], [-1], shape[::-1]] + ([[2, m // 2], [m // 2, 2]] if m % 2 == 0 else [])
        cfg = {"target_shape": draw(st.sampled_from(opts))}
    elif kind == "permute":
        shape = [it(1, 3) for _ in range(it(1, 3))]
        cfg = {"dims": draw(st.permutations(list(range(1, len(shape) + 1))))}
    elif kind == "flatten":
        shape = [it(1, 3) for _ in range(it(1, 3))]
        cfg = {"data_format": draw(st.sampled_from(["channels_last", "channels_last", "channels_first"]))}
    elif kind == "activation":
        act = draw(st.sampled_from(ACTS))
        shape = [it(1, 3)] if act == "softmax" else [it(1, 3) for _ in range(it(1, 3))]
        cfg = {"activation": act}
    else:
        shape = [it(1, 3) for _ in range(it(1, 2))]
        cfg = {"rate": 0.4}
    styles = S.STYLES
    if kind == "activation" and cfg["activation"] in ("exponential", "softmax"):
        styles = [s for s in styles if s not in ("wide", "far")]
    return {
        "kind": kind,
        "shape": shape,
        "cfg": cfg,
        "slope": draw(st.sampled_from(M.SLOPES)),
        "wseed": draw(st.integers(0, 10**6)),
        "shared": draw(st.booleans()),
        "state": draw(S.state_spec(styles=styles)),
    }


def strategy(tier):
    return case_strategy(tier)


def make_layer(case):
    L, c = keras.layers, dict(case["cfg"])
    kind = case["kind"]
    rng = np.random.RandomState(case["wseed"])
    for k in ("kernel_size", "strides", "pool_size", "dilation_rate", "dims", "target_shape"):
        if isinstance(c.get(k), list):
            c[k] = tuple(c[k])
    c.pop("fast", None)
    neg = c.pop("neg", False)
    if kind == "dense":
        layer = L.Dense(**c)
    elif kind == "conv":
        layer = L.Conv2D(**c)
    elif kind == "maxpool":
        layer = L.MaxPooling2D(**c)
    elif kind == "bn":
        layer = L.BatchNormalization(**c)
    elif kind == "reshape":
        layer = L.Reshape(**c)
    elif kind == "permute":
        layer = L.Permute(**c)
    elif kind == "flatten":
        layer = L.Flatten(data_format=c.get("data_format"))
    elif kind == "activation":
        layer = L.Activation(**c)
    else:
        layer = L.Dropout(**c)
    inp = keras.Input(tuple(case["shape"]))
    model = keras.Model(inp, layer(inp))
    ws = []
    for v in layer.weights:
        w = S.r32(rng.uniform(-1.5, 1.5, size=tuple(v.shape)))
        if v.name.endswith("moving_variance"):
            w = S.r32(rng.uniform(0.2, 2.0, size=tuple(v.shape)))
        elif v.name == "gamma" and not neg:
            w = np.abs(w)
        elif rng.uniform() < 0.2:
            w = np.abs(w) * rng.choice([-1, 1])
        if "seed" in v.name:
            w = O.to_np(v.value)
        ws.append(w.astype(O.floatx()) if "seed" not in v.name else w)
    if kind != "dropout":
        layer.set_weights(ws)
    return layer, model


def keras_fn(model, shape):
    def f(y):
        S_, n = y.shape[:2]
        flat = y.reshape((S_ * n,) + tuple(shape)).astype(O.floatx())
        z = O.to_np(model(keras.ops.convert_to_tensor(flat), training=False))
        return z.reshape((S_, n) + z.shape[1:])

    return f


def supported(case):
    """configurations that the backend itself cannot run or for which Keras is wrong"""
    c = case["cfg"]
    be = keras.backend.backend()
    if case["kind"] in ("conv", "maxpool"):
        if c["data_format"] == "channels_first" and be == "tensorflow":
            return False  # not available on CPU
        if be == "torch" and c["padding"] == "same" and c.get("strides") not in (None, [1, 1]):
            return False  # Keras 3.0.5 pads differently with torch
        if be == "torch" and case["kind"] == "maxpool" and c["padding"] == "same":
            return c["pool_size"] == [2, 2] and c["strides"] == [1, 1]
    return True


def run_case(case, via=None):
    case = dict(case, cfg=dict(case["cfg"]))
    if not supported(case):
        case["cfg"].update(data_format="channels_last" if case["cfg"]["data_format"] == "channels_last" else "channels_last", padding="valid")
        if len(case["shape"]) == 3:
            s = case["shape"]
            # shapes are small: any order is a valid image for a valid kernel
            k = case["cfg"].get("kernel_size", case["cfg"].get("pool_size"))
            dil = (case["cfg"].get("dilation_rate") or [1, 1])[0]
            h = [max(s[i], (k[i] - 1) * dil + 1) for i in range(2)]
            case["shape"] = h + [min(s[2], 3)]
    layer, model = make_layer(case)
    state = S.State(case["state"], case["shape"])
    ibp, affine = state.mode != "affine", state.mode != "ibp"
    deco = to_decomon(
        layer,
        state.dom.d,
        slope=case["slope"],
        dc_decomp=False,
        perturbation_domain=state.domain,
        ibp=ibp,
        affine=affine,
        shared=case["shared"],
        fast=case["cfg"].get("fast", True),
    )
    rng = np.random.RandomState(case["state"]["seed"] + 1)
    pts = state.points(rng)
    ys = state.hidden(pts, rng)
    f = keras_fn(model, case["shape"])
    zs = [f(y) for y in ys]
    what = f"{case['kind']} {case['cfg']} {state.mode} {case['state']['domain']}"
    if via:
        deco = via(deco, layer, state.tensors(), what)
    S.check_outputs(deco(state.tensors()), state.mode, pts, zs, what, x=state.x, scale=ys)
    return {
        "nontrivial": state.mode != "ibp" or case["state"]["style"] != "exact",
        "labels": ["kind:" + case["kind"], "mode:" + state.mode, "domain:" + case["state"]["domain"], "style:" + case["state"]["style"]]
        + ([case["kind"] + ":" + str(case["cfg"].get("data_format"))] if case["kind"] in ("conv", "maxpool") else [])
        + ([f"maxpool:fast={case['cfg']['fast']}"] if case["kind"] == "maxpool" else [])
        + (["act:" + case["cfg"]["activation"]] if case["kind"] == "activation" else []),
    }


def classify(case):
    c = case["cfg"]
    return "/".join([case["kind"], case["state"]["mode"], str(c.get("fast", "")), c.get("activation", ""), c.get("data_format", "")])
