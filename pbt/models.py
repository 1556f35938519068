"""Structured generator of Keras models: hypothesis strategy -> JSON spec, and JSON spec -> built Keras model."""
import keras
import numpy as np
from hypothesis import strategies as st



METHODS = [
    "crown",
    "crown-forward-ibp",
    "crown-forward-affine",
    "crown-forward-hybrid",
    "forward-ibp",
    "forward-affine",
    "forward-hybrid",
]
FORWARD = [m for m in METHODS if m.startswith("forward")]
BACKWARD = [m for m in METHODS if m.startswith("crown")]
SLOPES = ["volume-slope", "same-slope", "zero-lb", "one-lb", "adaptative-slope"]
ACTS = ["relu", "sigmoid", "tanh", "softsign", "softplus", "linear"]
WSTYLES = ["dense", "sparse", "pos", "neg", "big", "int"]


# ---------------------------------------------------------------- spec strategy
@st.composite
def model_spec(draw, family=None, acts=None, max_layers=4, families=None, out_dim=None, n_in=None, backward=False):
    """A JSON description of a Keras model with one flat input.

    backward: restricted to what backward conversions implement (no merge layers, no pooling)"""
    acts = acts or ACTS
    families = families or ["mlp", "mlp", "merge", "image", "nested", "shared", "reshape", "deep"]
    if backward:
        families = [f for f in families if f != "merge"] or ["mlp"]
    formats = ["channels_last", "channels_first"] if channels_first_ok() else ["channels_last"]
    family = family or draw(st.sampled_from(families))
    nodes = []

    def add(op, ins, **args):
        nodes.append({"op": op, "in": ins, "args": args})
        return len(nodes)  # node index: 0 is the input

    def act_name():
        return draw(st.sampled_from(acts))

    def dense(i, units=None, act=True):
        a = draw(st.sampled_from([None, "embed", "layer", "layer"])) if act else None
        units = units or draw(st.integers(1, 4))
        name = act_name()
        j = add("dense", [i], units=units, bias=draw(st.sampled_from([True, True, False])),
                act=name if a == "embed" else None)
        if a == "layer":
            j = activation(j, name)
        return j

    def activation(i, name=None):
        name = name or act_name()
        return add("act", [i], act=name)

    def small_1d(i):
        k = draw(st.sampled_from(["dense", "dense", "dense", "bn", "dropout", "act"]))
        if k == "dense":
            return dense(i)
        if k == "bn":
            return add("bn", [i], axis=-1)
        if k == "dropout":
            return add("dropout", [i])
        return activation(i)

    if family == "mlp":
        n_in = n_in or draw(st.integers(1, 4))
        cur = 0
        for _ in range(draw(st.integers(1, max_layers))):
            cur = small_1d(cur)
    elif family == "deep":
        # non-linear layers followed by several linear ones: cancellations matter
        n_in = n_in or draw(st.integers(2, 3))
        cur = 0
        for _ in range(draw(st.integers(1, 2))):
            cur = activation(add("dense", [cur], units=draw(st.integers(2, 4)), bias=True, act=None))
            for _ in range(draw(st.integers(1, 2))):
                if not backward and draw(st.integers(0, 3)) == 0:
                    units = draw(st.integers(1, 3))
                    cur = add(draw(st.sampled_from(["add", "sub", "avg", "concat"])),
                              [add("dense", [cur], units=units, bias=False, act=None) for _ in range(2)])
                else:
                    cur = add("dense", [cur], units=draw(st.integers(1, 3)), bias=draw(st.booleans()), act=None)
    elif family == "shared":
        # a same Dense layer used twice
        n_in = n_in or draw(st.integers(1, 3))
        cur = dense(0, act=True) if draw(st.booleans()) else 0
        units = n_in if cur == 0 else nodes[0]["args"]["units"]
        first = add("dense", [cur], units=units, bias=True, act=None)
        cur = activation(first)
        cur = add("again", [cur], of=first)
        if draw(st.booleans()):
            cur = activation(cur)
    elif family == "nested":
        n_in = n_in or draw(st.integers(1, 3))
        cur = dense(0) if draw(st.booleans()) else 0
        sub = draw(model_spec(family=draw(st.sampled_from(["mlp"] if backward else ["mlp", "mlp", "merge"])), acts=acts, max_layers=2, n_in=width(nodes, cur, n_in)))
        cur = add("submodel", [cur], spec=sub, seq=(sub["family"] == "mlp") and draw(st.booleans()))
        if draw(st.booleans()):
            cur = small_1d(cur)
    elif family == "merge":
        n_in = n_in or draw(st.integers(1, 3))
        cur = dense(0) if draw(st.booleans()) else 0
        op = draw(st.sampled_from(["add", "sub", "avg", "max", "min", "concat"]))
        k = 2 if op == "sub" else draw(st.integers(2, 3))
        units = draw(st.integers(1, 3))
        branches = []
        for _ in range(k):
            b = dense(cur, units=units if op != "concat" else None)
            if draw(st.booleans()) and op != "concat":
                b = activation(b)
            branches.append(b)
        cur = add(op, branches)
        if draw(st.booleans()):
            cur = small_1d(cur)
    elif family == "reshape":
        a, b = draw(st.sampled_from([(1, 2), (2, 2), (2, 3), (3, 2), (1, 3)]))
        n_in = a * b
        cur = 0
        if draw(st.booleans()):
            cur = add("dense", [0], units=a * b, bias=True, act=None)
        cur = add("reshape", [cur], shape=[a, b])
        ops = draw(st.lists(st.sampled_from(["permute", "dense", "act", "bn", "dropout"]), max_size=3))
        for op in ops:
            if op == "permute":
                cur = add("permute", [cur], dims=[2, 1])
            elif op == "dense":
                cur = add("dense", [cur], units=draw(st.integers(1, 3)), bias=True, act=None)
            elif op == "act":
                cur = activation(cur)
            elif op == "bn":
                cur = add("bn", [cur], axis=draw(st.sampled_from([1, 2, -1])))
            else:
                cur = add("dropout", [cur])
        cur = add("flatten", [cur])
        if draw(st.booleans()):
            cur = dense(cur)
    elif family == "image":
        h, w, c = draw(st.sampled_from([(2, 2, 1), (3, 3, 1), (3, 2, 1), (2, 2, 2), (4, 4, 1), (2, 3, 2)]))
        n_in = h * w * c
        fmt = draw(st.sampled_from(formats))
        cur = add("reshape", [0], shape=[h, w, c] if fmt == "channels_last" else [c, h, w])
        size = [h, w]
        for _ in range(draw(st.integers(1, 2))):
            op = draw(st.sampled_from(["conv", "conv", "conv", "act", "bn", "permute"] + ([] if backward else ["maxpool", "maxpool"])))
            if op == "conv":
                k = [draw(st.integers(1, size[0])), draw(st.integers(1, size[1]))]
                pad = draw(st.sampled_from(["valid", "same"]))
                s, dil = [1, 1], [1, 1]
                opt = draw(st.sampled_from(["plain", "plain", "strides", "dilation"]))
                if opt == "strides":
                    s = draw(st.sampled_from([[2, 2], [1, 2], [2, 1], [3, 2]]))
                elif opt == "dilation" and min(size) >= 3:
                    dil, k = [2, 2], [2, 2]
                if s[0] != s[1] and keras.backend.backend() == "tensorflow":
                    s = [2, 2]  # tensorflow only implements equal strides
                if max(s) > 1 and keras.backend.backend() == "torch":
                    pad = "valid"  # keras 3.0.5 pads wrongly with torch: the shape of conv(x) is not the declared one
                cur = add("conv", [cur], filters=draw(st.integers(1, 2)), kernel=k, padding=pad, strides=s,
                          bias=draw(st.sampled_from([True, True, False])), fmt=fmt,
                          act=draw(st.sampled_from([None, "relu"])), dilation=dil)
                size = [out_len(size[i], (k[i] - 1) * dil[i] + 1, s[i], pad) for i in range(2)]
            elif op == "maxpool":
                p = [min(2, size[0]), min(2, size[1])]
                cur = add("maxpool", [cur], pool=p, strides=None, padding="valid", fmt=fmt)
                size = [out_len(size[i], p[i], p[i], "valid") for i in range(2)]
            elif op == "act":
                cur = activation(cur)
            elif op == "bn":
                cur = add("bn", [cur], axis=-1 if fmt == "channels_last" else 1)
            else:
                dims = draw(st.permutations([1, 2, 3]))
                # keep the format of convolutions
                if not (dims == [2, 1, 3] if fmt == "channels_last" else dims == [1, 3, 2]):
                    dims = [2, 1, 3] if fmt == "channels_last" else [1, 3, 2]
                cur = add("permute", [cur], dims=dims)
                size = size[::-1]
        if draw(st.booleans()):
            cur = add("permute", [cur], dims=list(draw(st.permutations([1, 2, 3]))))
        cur = add("flatten", [cur])
        if draw(st.booleans()):
            cur = dense(cur)
    else:
        raise ValueError(family)
    if out_dim is not None:
        cur = add("dense", [cur], units=out_dim, bias=True, act=None)
    return {
        "family": family,
        "n_in": n_in,
        "nodes": nodes,
        "wseed": draw(st.integers(0, 10**6)),
        "wstyle": draw(st.sampled_from(WSTYLES)),
    }


def channels_first_ok():
    return keras.backend.backend() == "torch"


def width(nodes, cur, n_in):
    while cur != 0:
        nd = nodes[cur - 1]
        if nd["op"] == "dense":
            return nd["args"]["units"]
        cur = nd["in"][0]
    return n_in


def out_len(n, k, s, pad):
    if pad == "same":
        return -(-n // s)
    return (n - k) // s + 1


# ---------------------------------------------------------------- build
def draw_weights(shape, rng, style):
    w = rng.uniform(-1.5, 1.5, size=shape)
    if style == "sparse":
        w = w * (rng.uniform(size=shape) < 0.4)
    elif style == "pos":
        w = np.abs(w)
    elif style == "neg":
        w = -np.abs(w)
    elif style == "big":
        w = w * 3
    elif style == "int":
        return np.round(w * 1.3)
    return np.round(w * 16) / 16


def set_weights(model, seed, style):
    """Deterministic weights of every layer (recursively), in the order of model.layers."""
    from keras.layers import BatchNormalization

    rng = np.random.RandomState(seed % (2**32))
    done = set()

    def visit(m):
        for layer in m.layers:
            if id(layer) in done:
                continue
            done.add(id(layer))
            if hasattr(layer, "layers"):
                visit(layer)
            elif isinstance(layer, BatchNormalization):
                new = []
                for w in layer.weights:
                    name = w.path.split("/")[-1]
                    v = draw_weights(w.shape, rng, style)
                    if "variance" in name:
                        v = np.abs(v) + 0.25
                    new.append(v)
                layer.set_weights(new)
            elif layer.weights:
                layer.set_weights([draw_weights(w.shape, rng, style) for w in layer.weights])

    visit(model)


def _apply(nodes, x):
    from keras import layers as L

    tensors, lays = [x], [None]
    for nd in nodes:
        op, a = nd["op"], nd["args"]
        ins = [tensors[i] for i in nd["in"]]
        if op == "dense":
            layer = L.Dense(a["units"], use_bias=a["bias"], activation=a["act"])
        elif op == "act":
            layer = L.Activation(a["act"])
        elif op == "relu_layer":
            layer = L.ReLU()
        elif op == "bn":
            layer = L.BatchNormalization(axis=a["axis"], center=a.get("center", True), scale=a.get("scale", True))
        elif op == "dropout":
            layer = L.Dropout(0.4)
        elif op == "reshape":
            layer = L.Reshape(tuple(a["shape"]))
        elif op == "flatten":
            layer = L.Flatten()
        elif op == "permute":
            layer = L.Permute(tuple(a["dims"]))
        elif op == "conv":
            layer = L.Conv2D(a["filters"], tuple(a["kernel"]), strides=tuple(a["strides"]), padding=a["padding"],
                             data_format=a["fmt"], use_bias=a["bias"], activation=a["act"], dilation_rate=tuple(a["dilation"]))
        elif op == "maxpool":
            layer = L.MaxPooling2D(tuple(a["pool"]), strides=None if a["strides"] is None else tuple(a["strides"]),
                                   padding=a["padding"], data_format=a["fmt"])
        elif op == "submodel":
            layer = build(a["spec"], weights=False, sequential=a["seq"])
        elif op == "again":
            layer = lays[a["of"]]
        elif op in MERGE:
            layer = getattr(L, MERGE[op])()
        else:
            raise ValueError(op)
        tensors.append(layer(ins[0] if len(ins) == 1 else ins))
        lays.append(layer)
    return tensors[-1]


MERGE = {"add": "Add", "sub": "Subtract", "avg": "Average", "max": "Maximum", "min": "Minimum", "concat": "Concatenate"}


def build(spec, weights=True, sequential=False):
    import keras
    from keras.layers import Input

    x = Input((spec["n_in"],))
    if sequential:
        model = keras.Model(x, _apply(spec["nodes"], x))
        model = keras.Sequential([Input((spec["n_in"],))] + [l for l in model.layers[1:]])
    else:
        model = keras.Model(x, _apply(spec["nodes"], x))
    if weights:
        set_weights(model, spec["wseed"], spec["wstyle"])
    return model


def n_outputs(model):
    return int(np.prod(model.output_shape[1:]))


def evaluate(model, x):
    """model(x) in inference mode, as a float64 numpy array, x: (..., n_in)"""
    import keras

    x = np.asarray(x)
    flat = x.reshape((-1, x.shape[-1]))
    y = keras.ops.convert_to_numpy(model(flat.astype(keras.config.floatx()), training=False))
    return y.astype("float64").reshape(x.shape[:-1] + y.shape[1:])


def spec_ops(spec):
    ops = set()
    for nd in spec["nodes"]:
        ops.add(nd["op"])
        if nd["op"] == "submodel":
            ops |= spec_ops(nd["args"]["spec"])
        if nd["args"].get("act"):
            ops.add(nd["args"]["act"])
    return ops


# ---------------------------------------------------------------- boxes
@st.composite
def box_spec(draw, max_n=4):
    return {
        "n": draw(st.integers(1, max_n)),
        "seed": draw(st.integers(0, 10**6)),
        "style": draw(st.sampled_from(["unit", "unit", "wide", "small", "degenerate", "positive", "negative", "point"])),
    }


def boxes(bspec, dim):
    """(n, dim) lower and upper corners"""
    rng = np.random.RandomState(bspec["seed"] % (2**32))
    n, style = bspec["n"], bspec["style"]
    c = rng.uniform(-2, 2, size=(n, dim))
    r = rng.uniform(0.05, 1, size=(n, dim))
    if style == "wide":
        r = r * 5
    elif style == "small":
        r = r * 0.05
    elif style == "degenerate":
        r = r * (rng.uniform(size=(n, dim)) < 0.6)
    elif style == "point":
        r = r * 0
    elif style == "positive":
        c = np.abs(c) + r
    elif style == "negative":
        c = -np.abs(c) - r
    lo = np.round((c - r) * 32) / 32
    hi = np.round((c + r) * 32) / 32
    return lo, hi


NONLINEAR = {"relu", "sigmoid", "tanh", "softsign", "softplus", "exponential", "max", "min", "maxpool", "softmax"}


def nonlinear(spec):
    return bool(spec_ops(spec) & NONLINEAR)


def labels(spec):
    return ["family:" + spec["family"]] + sorted("op:" + o for o in spec_ops(spec))


def add_head(model, seed):
    """a second output: a Dense layer on one of the flat tensors of the model"""
    rng = np.random.RandomState(seed % (2**32))
    single = [l for l in model.layers if not isinstance(l, keras.Model) and len(l._inbound_nodes) == 1]
    flats = [l.output for l in single if not isinstance(l.output, list) and len(l.output.shape) == 2]
    t = flats[rng.randint(len(flats))]
    if seed % 3 == 0:
        # an inner tensor, or twice the same
        return keras.Model(model.inputs, [model.output, t] if seed % 2 else [t, model.output])
    if t is model.output:
        t = model.input
    head = keras.layers.Dense(2)
    y = head(t)
    head.set_weights([draw_weights(tuple(w.shape), rng, "dense") for w in head.weights])
    outs = [model.output, y] if seed % 2 else [y, model.output]
    return keras.Model(model.inputs, outs)


def output_functions(model):
    """one function per output: x (..., n_in) -> (..., out)"""
    def one(m):
        return lambda x: evaluate(m, x)

    outs = model.outputs
    if len(outs) == 1:
        return [one(model)]
    return [one(keras.Model(model.inputs, o)) for o in outs]
