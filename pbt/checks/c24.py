"""C24: whatever its layers and their configuration, a network is either refused or bounded soundly."""
import json

import keras
import keras.ops as K
import numpy as np
from decomon.models import clone
from hypothesis import strategies as st
from keras import layers as L

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Skip, Violation
from .c02 import check_model

ACTS = [
    "relu", "linear", "sigmoid", "tanh", "softsign", "softplus", "exponential", "leaky_relu", "gelu", "silu", "relu6", "hard_sigmoid",
    "elu", "selu", "mish", "log_softmax", "hard_silu", "softmax",
]  # fmt: skip
FUNCS = {
    "abs": lambda z: K.abs(z),
    "square": lambda z: z * z,
    "double": lambda z: K.relu(z) * 2.0,
    "neg": lambda z: -z,
    "sin": lambda z: K.sin(z),
    "relu": K.relu,
    "tanh": K.tanh,
    "sigmoid": K.sigmoid,
    "leaky_relu": K.leaky_relu,
    "elu": K.elu,
}

# a function of the user which has the name of a function of Keras: a known finding, not generated
exec("def relu(z):\n    return 2.0 * K.relu(z)", globals(), USER := {})


class ScaledDense(L.Dense):
    def call(self, inputs, training=None):
        return 2.0 * super().call(inputs)


class NegActivation(L.Activation):
    def call(self, inputs):
        return -super().call(inputs)


class SquaredConv2D(L.Conv2D):
    def call(self, inputs):
        return K.square(super().call(inputs))


def activation(a):
    """activation of a layer: a name, a function, or a layer"""
    kind, name = a
    if kind == "name":
        return name
    if kind == "user":
        return USER[name]
    if kind == "fn":
        return FUNCS[name]
    return rectifier(name)


def rectifier(p):
    return {
        "ReLU": lambda: L.ReLU(),
        "ReLU-max": lambda: L.ReLU(max_value=0.5),
        "ReLU-neg": lambda: L.ReLU(negative_slope=0.25),
        "ReLU-thr": lambda: L.ReLU(threshold=0.25),
        "LeakyReLU": lambda: L.LeakyReLU(),
        "ELU": lambda: L.ELU(),
        "PReLU": lambda: L.PReLU(),
        "Softmax": lambda: L.Softmax(),
        "Softmax1": lambda: L.Softmax(axis=1),
    }[p]()


RECT = ["ReLU", "ReLU-max", "ReLU-neg", "ReLU-thr", "LeakyReLU", "ELU", "PReLU", "Softmax", "Softmax1"]
ACT = st.one_of(
    st.tuples(st.just("name"), st.sampled_from(ACTS)),
    st.tuples(st.just("fn"), st.sampled_from(sorted(FUNCS))),
    st.tuples(st.just("layer"), st.sampled_from(RECT)),
).map(list)
PLAIN = st.sampled_from([["name", "relu"], ["name", "linear"], ["name", "tanh"]])
b = st.booleans
i = st.integers
sf = st.sampled_from

# name -> (ranks of the inputs, parameters, layer)
ONE = {
    "dense": ("vsi", dict(u=i(1, 3), act=ACT, bias=b()), lambda p: L.Dense(p["u"], activation=activation(p["act"]), use_bias=p["bias"])),
    "activation": ("vsi", dict(act=ACT), lambda p: L.Activation(activation(p["act"]))),
    "rectifier": ("vsi", dict(k=sf(RECT)), lambda p: rectifier(p["k"])),
    "bn": ("vsi", dict(axis=sf([-1, 1, 2]), scale=b(), center=b()), lambda p: L.BatchNormalization(axis=p["axis"], scale=p["scale"], center=p["center"])),
    "dropout": ("vsi", dict(k=sf(["Dropout", "GaussianNoise", "GaussianDropout", "AlphaDropout"])), lambda p: getattr(L, p["k"])(0.3)),
    "dropout-shape": ("s", {}, lambda p: L.Dropout(0.3, noise_shape=(None, 1, None))),
    "norm": ("vsi", dict(k=sf(["LayerNormalization", "UnitNormalization", "GroupNormalization"])), lambda p: getattr(L, p["k"])(groups=1) if p["k"][0] == "G" else getattr(L, p["k"])()),
    "rescaling": ("vsi", dict(s=sf([2.0, -1.0]), o=sf([0.0, 0.5])), lambda p: L.Rescaling(p["s"], p["o"])),
    "normalization": ("vsi", {}, lambda p: L.Normalization(mean=0.5, variance=4.0, axis=None)),
    "identity": ("vsi", {}, lambda p: L.Identity()),
    "lambda": ("vsi", dict(f=sf(["abs", "square", "neg", "double"])), lambda p: L.Lambda(FUNCS[p["f"]])),
    "subclass": ("vsi", {}, lambda p: ScaledDense(2)),
    "subclass-act": ("vsi", dict(act=sf(["relu", "linear", "sigmoid"])), lambda p: NegActivation(p["act"])),
    "subclass-conv": ("i", {}, lambda p: SquaredConv2D(2, 2)),
    "activity": ("vsi", {}, lambda p: L.ActivityRegularization(0.1)),
    "masking": ("s", {}, lambda p: L.Masking(0.0)),
    "repeat": ("v", dict(n=i(1, 3)), lambda p: L.RepeatVector(p["n"])),
    "permute": ("si", dict(r=b()), lambda p: p["r"]),
    "flatten": ("vsi", dict(df=sf(["channels_last", "channels_first"])), lambda p: L.Flatten(data_format=p["df"])),
    "reshape": ("vsi", {}, lambda p: L.Reshape((1, -1))),
    "einsum": ("s", {}, lambda p: L.EinsumDense("abc,cd->abd", output_shape=(None, 2), bias_axes="d")),
    "conv1d": ("s", dict(pad=sf(["valid", "same", "causal"]), s=i(1, 2)), lambda p: L.Conv1D(2, 2, strides=p["s"], padding=p["pad"])),
    "pool1d": ("s", dict(k=sf(["MaxPooling1D", "AveragePooling1D", "UpSampling1D", "ZeroPadding1D", "Cropping1D"])), lambda p: getattr(L, p["k"])(1 if p["k"] == "Cropping1D" else 2)),
    "global1d": ("s", dict(k=sf(["GlobalMaxPooling1D", "GlobalAveragePooling1D"])), lambda p: getattr(L, p["k"])()),
    "rnn": ("s", dict(k=sf(["SimpleRNN", "LSTM", "GRU"])), lambda p: getattr(L, p["k"])(2)),
    "time": ("si", dict(act=PLAIN), lambda p: L.TimeDistributed(L.Dense(2, activation=activation(p["act"])))),
    "spectral": ("v", {}, lambda p: L.SpectralNormalization(L.Dense(2))),
    "conv2d": (
        "i",
        dict(k=i(1, 3), s=sf([1, 1, 2, [1, 2]]), pad=sf(["valid", "same"]), dil=sf([1, 1, 2]), g=sf([1, 1, 2]), df=sf(["channels_last", "channels_last", "channels_first"]), act=ACT, bias=b()),
        lambda p: L.Conv2D(2, p["k"], strides=tt(p["s"]), padding=p["pad"], dilation_rate=p["dil"], groups=p["g"], data_format=p["df"], activation=activation(p["act"]), use_bias=p["bias"]),
    ),
    "depthwise": ("i", dict(k=sf(["DepthwiseConv2D", "SeparableConv2D", "Conv2DTranspose"])), lambda p: L.DepthwiseConv2D(2) if p["k"][0] == "D" else getattr(L, p["k"])(2, 2)),
    "maxpool": (
        "i",
        dict(k=i(1, 3), s=sf([None, 1, 2, 3]), pad=sf(["valid", "same"]), df=sf(["channels_last", "channels_last", "channels_first"])),
        lambda p: L.MaxPooling2D(p["k"], strides=p["s"], padding=p["pad"], data_format=p["df"]),
    ),
    "pool2d": ("i", dict(k=sf(["AveragePooling2D", "UpSampling2D", "ZeroPadding2D", "Cropping2D"])), lambda p: getattr(L, p["k"])(1 if p["k"][0] in "CZ" else 2)),
    "global2d": ("i", dict(k=sf(["GlobalMaxPooling2D", "GlobalAveragePooling2D"])), lambda p: getattr(L, p["k"])()),
    "spatial": ("i", {}, lambda p: L.SpatialDropout2D(0.3)),
    "op": ("vsi", dict(f=sf(["abs", "square", "neg", "double", "sin", "relu"])), lambda p: FUNCS[p["f"]]),
    "scalar": ("vsi", dict(k=sf(["+", "-", "*", "/", "r-"])), lambda p: {"+": lambda x: x + 0.5, "-": lambda x: x - 0.5, "*": lambda x: x * 2.0, "/": lambda x: x / 2.0, "r-": lambda x: 1.0 - x}[p["k"]]),
    "reshape-op": ("vsi", {}, lambda p: lambda x: K.reshape(x, (-1, int(np.prod(x.shape[1:]))))),
    "slice": ("vs", {}, lambda p: lambda x: x[:, :1]),
}  # fmt: skip
# operands of a merge: the input and another branch, of the same shape or to be broadcast
TWO = ["Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply", "Concatenate", "Concatenate1", "Dot", "Dot1", "Dotn", "+", "-", "*", "max", "min", "concat", "matmul", "Attention"]
BRANCH = ["same", "dense", "dense1", "act", "self"]
COMMON = ["dense", "activation", "bn", "conv2d", "maxpool", "flatten"]


def tt(x):
    return tuple(x) if isinstance(x, list) else x


@st.composite
def item(draw):
    if draw(st.integers(0, 4)) == 0:
        return {"op": "merge", "k": draw(sf(TWO)), "branch": draw(sf(BRANCH)), "swap": draw(b())}
    name = draw(sf(COMMON * 3 + sorted(ONE)))
    return {"op": name, **{k: draw(v) for k, v in ONE[name][1].items()}}


@st.composite
def strategy_(draw):
    kind = draw(sf(["v", "s", "i"]))
    shape = {"v": lambda: [draw(i(2, 4))], "s": lambda: [draw(i(2, 3)), draw(i(1, 3))], "i": lambda: [draw(i(2, 4)), draw(i(2, 4)), draw(i(1, 2))]}[kind]()
    return {
        "shape": shape,
        "layers": draw(st.lists(item(), min_size=1, max_size=3)),
        "tail": draw(b()),
        "nested": draw(sf([0, 0, 0, 1])),
        "method": draw(sf(M.METHODS)),
        "slope": draw(sf(M.SLOPES)),
        "finetune": draw(sf([False, False, False, True])),
        "dom": {"domain": draw(sf(S.DOMAINS)), "n": draw(i(1, 2)), "seed": draw(i(0, 10**6))},
    }


def strategy(tier):
    return strategy_()


def merge(s, x):
    br = s["branch"]
    if br == "same":
        y = L.Dense(x.shape[-1])(x)
    elif br in ("dense", "dense1"):
        y = L.Dense(1 if br == "dense1" else 2)(x)
    elif br == "act":
        y = L.Activation("relu")(x)
    else:
        y = x
    if br != "self":
        x = L.Dense(x.shape[-1] if br in ("same", "act") else 2)(x)
    z = [y, x] if s["swap"] else [x, y]
    k = s["k"]
    if k in ("+", "-", "*", "max", "min", "concat", "matmul"):
        f = {
            "+": lambda u, v: u + v,
            "-": lambda u, v: u - v,
            "*": lambda u, v: u * v,
            "max": K.maximum,
            "min": K.minimum,
            "concat": lambda u, v: K.concatenate([u, v], -1),
            "matmul": K.matmul,
        }[k]
        return f(*z)
    if k.startswith("Dot"):
        return L.Dot(axes=1 if k == "Dot1" else -1, normalize=k == "Dotn")(z)
    if k.startswith("Concatenate"):
        return L.Concatenate(axis=1 if k[-1] == "1" else -1)(z)
    return getattr(L, k)()(z)


def build(case):
    n = int(np.prod(case["shape"]))
    inp = keras.Input((n,))
    x = inp if len(case["shape"]) == 1 else L.Reshape(case["shape"])(inp)
    used = []
    for s in case["layers"]:
        rank = "vsi?"[min(len(x.shape), 5) - 2]
        if s["op"] == "merge":
            x = merge(s, x)
            used.append("merge:" + s["k"])
            continue
        ranks, _, f = ONE[s["op"]]
        if rank not in ranks:
            continue
        layer = f(s)
        if s["op"] == "permute":
            layer = L.Permute((2, 1) if rank == "s" else (3, 1, 2) if layer else (2, 1, 3))
        if case["nested"]:
            z = keras.Input(x.shape[1:])
            layer = keras.Model(z, layer(z))
        x = layer(x)
        if 0 in x.shape:
            raise Skip("empty tensor")
        used.append(s["op"] + (":" + str(s["k"]) if isinstance(s.get("k"), str) else ""))
    if case["tail"]:
        if len(x.shape) > 2:
            x = L.Flatten()(x)
        x = L.Dense(2)(x)
    return keras.Model(inp, x), used


def functional_softmax(model):
    """the final softmax of the network is dropped by the conversion (documented): not a subject here"""
    last = model.layers[-1]
    while isinstance(last, keras.Model):
        last = last.layers[-1]
    act = getattr(last, "activation", None)
    return isinstance(last, L.Softmax) or isinstance(act, L.Softmax) or getattr(act, "__name__", "") == "softmax"


def run_case(case):
    if json.dumps(case["layers"]).count('"exponential"') > 1:
        raise Skip("exponentials of exponentials overflow")
    keras.utils.set_random_seed(case["dom"]["seed"])
    try:
        model, used = build(case)
        if any(x is None for x in model.outputs[0].shape[1:]):
            raise Skip("shape")
        rng = np.random.RandomState(case["dom"]["seed"])
        for w in model.weights:
            if "seed" in w.path or "int" in str(w.dtype):
                continue
            v = rng.uniform(-1, 1, size=w.shape)
            w.assign(np.abs(v) + 0.25 if "variance" in w.path else v)
        dom, domdec, x = S.make_domain(dict(case["dom"], d=int(np.prod(case["shape"]))), np.random.RandomState(case["dom"]["seed"]))
        f = lambda z: M.evaluate(model, z)
        y = f(dom.center)
        if y.shape[0] != dom.n or y.ndim != len(model.outputs[0].shape) or not np.all(np.isfinite(y)):
            raise Skip("network")
    except Skip:
        raise
    except Exception as e:
        raise Skip(f"keras refuses the network: {type(e).__name__}")
    if not used or functional_softmax(model):
        raise Skip("plain")
    mode = {"ibp": "ibp", "affine": "affine", "hybrid": "hybrid", "crown": "ibp"}[case["method"].split("-")[-1]]
    before = [np.array(O.to_np(w)) for w in model.weights if "int" not in str(w.dtype)]
    try:
        dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec, finetune=case["finetune"])
        dm.predict_on_single_batch_np(x.astype(O.floatx()))
    except (Violation, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:
        out = f"refused:{type(e).__name__}"
        dm = None
    # refused or not, the network is the one it was
    after = [np.array(O.to_np(w)) for w in model.weights if "int" not in str(w.dtype)]
    if len(before) != len(after) or any(not np.array_equal(u, v) for u, v in zip(before, after)):
        raise Violation(f"{case['method']}: the conversion changes the weights of the network ({used})")
    if not np.array_equal(f(dom.center), y):
        raise Violation(f"{case['method']}: the conversion changes the network ({used})")
    if dm is not None:
        out = "converted"
        # backward propagations bound the flattened output
        g = (lambda z: f(z).reshape(z.shape[:-1] + (int(np.prod(y.shape[1:])),))) if case["method"] in M.BACKWARD else f
        check_model(dm, mode, [g], dom, x, rng, f"{case['method']} of {used}")
    return {"nontrivial": bool(np.any(dom.radius > 0)), "labels": [out, case["method"]] + [f"{out.split(':')[0]}:{u}" for u in used]}


def classify(case):
    return "/".join([case["method"], str([s["op"] + ":" + str(s.get("k", "")) for s in case["layers"]])])
