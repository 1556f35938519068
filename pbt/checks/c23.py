"""C23: a decomon layer used symbolically, in a graph of Keras, announces the shapes and gives the values of its direct call."""
import keras
import numpy as np
from hypothesis import strategies as st

from .. import oracle as O
from ..engine import Violation
from . import c07, c08, c09

SUB = {"forward": c07, "merge": c08, "backward": c09}
SKIP = ("compose", "fuse", "concretize")


@st.composite
def strategy_(draw, tier):
    sub = draw(st.sampled_from(["forward", "forward", "merge", "backward", "backward"]))
    case = draw(SUB[sub].strategy(tier).filter(lambda c: c["kind"] not in SKIP))
    return {"sub": sub, "case": case, "graph": draw(st.booleans())}


def strategy(tier):
    return strategy_(tier)


def flat(o):
    return [t for x in o for t in (flat(x) if isinstance(x, (list, tuple)) else [x])]


def run_case(case):
    def via(layer, original, tensors, what):
        if what.startswith("backward merge"):
            return layer
        ins = [keras.Input(tuple(t.shape)[1:], dtype=O.floatx()) for t in tensors]
        direct = flat(layer(tensors))
        out = flat(layer(ins))
        if len(out) != len(direct):
            raise Violation(f"{what}: {len(out)} symbolic outputs instead of {len(direct)}")
        for i, (a, b) in enumerate(zip(out, direct)):
            a, b = tuple(a.shape), tuple(b.shape)
            if len(a) != len(b) or a[1:] != b[1:] or a[0] not in (None, b[0]):
                raise Violation(f"{what}: output {i} announced with the shape {a}, and computed with {b}")
        shapes = layer.compute_output_shape([tuple(t.shape) for t in tensors])
        for i, (a, b) in enumerate(zip(shapes, direct)):
            if tuple(a)[1:] != tuple(b.shape)[1:] or a[0] not in (None, b.shape[0]):
                raise Violation(f"{what}: shape {tuple(a)} computed for output {i} instead of {tuple(b.shape)}")
        if len(shapes) != len(direct):
            raise Violation(f"{what}: {len(shapes)} shapes for {len(direct)} outputs")
        model = keras.Model(ins, out)

        def call(ts):
            ts = flat(ts)
            if case["graph"]:
                r = model.predict_on_batch([O.to_np(t) for t in ts])
            else:
                r = model(ts)
            return r if isinstance(r, (list, tuple)) else [r]

        for i, (a, b) in enumerate(zip(call(tensors), direct)):
            a, b = O.to_np(a), O.to_np(b)
            if a.shape != b.shape or not np.all(np.abs(a - b) <= O.tol(a, b)):
                raise Violation(f"{what}: output {i} differs once the layer is in a graph")
        return call

    info = SUB[case["sub"]].run_case(case["case"], via=via)
    info["labels"] = ["sub:" + case["sub"], f"graph:{case['graph']}"] + info["labels"]
    return info


def classify(case):
    return case["sub"] + "/" + SUB[case["sub"]].classify(case["case"])
