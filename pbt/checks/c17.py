"""C17: a layer rebuilt from its configuration gives the same bounds."""
import keras
import numpy as np
from decomon.backward_layers.convert import to_backward
from decomon.layers.convert import to_decomon
from decomon.layers.core import DecomonLayer
from decomon.models import clone
from decomon.models import crown as CR
from decomon.models import utils as U
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from . import c07, c08, c09

SUB = {"forward": c07, "merge": c08, "backward": c09}
SKIP = ("compose", "fuse", "concretize")


@st.composite
def strategy_(draw, tier):
    sub = draw(st.sampled_from(["forward", "forward", "merge", "merge", "backward", "backward", "backward", "plain", "plain", "alphas"]))
    if sub == "plain":
        return {
            "sub": sub,
            "layer": draw(st.sampled_from(["Fuse", "Convert2BackwardMode", "MergeForwardWithBackBounds", "MergeWithPrevious", "Convert2Mode", "domain"])),
            "to": draw(st.integers(0, 2)),
            "shape": [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 2)))],
            "out": draw(st.integers(1, 3)),
            "state": draw(S.state_spec()),
        }
    if sub == "alphas":
        return {
            "sub": sub,
            "act": draw(st.sampled_from(["relu", "sigmoid", "tanh", "softsign", "softplus"])),
            "backward": draw(st.booleans()),
            "slope": draw(st.sampled_from(M.SLOPES)),
            "shape": [draw(st.integers(1, 3)) for _ in range(draw(st.integers(1, 2)))],
            "state": draw(S.state_spec()),
        }
    case = draw(SUB[sub].strategy(tier).filter(lambda c: c["kind"] not in SKIP))
    return {"sub": sub, "case": case}


def strategy(tier):
    return strategy_(tier)


def plain(v):
    """configuration in a comparable form"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if hasattr(v, "get_config"):
        return [type(v).__name__, plain(v.get_config())]
    return str(v)


def rebuild(layer, original, tensors, what):
    config = layer.get_config()
    before = plain(config)
    try:
        copy = type(layer).from_config(config)
    except Exception as e:
        raise Violation(f"{what}: from_config fails: {type(e).__name__}: {str(e)[:200]}")
    after = plain(copy.get_config())
    if after != before:
        raise Violation(f"{what}: the configuration changes from {diff(before, after)}")
    if isinstance(copy, DecomonLayer):
        if getattr(copy, "shared", False):
            copy.share_weights(original)
            copy(tensors)
        else:
            copy(tensors)
            copy.set_weights(layer.get_weights())
        for a in ("mode", "ibp", "affine", "dc_decomp", "finetune", "fast", "shared"):
            if getattr(copy, a) != getattr(layer, a):
                raise Violation(f"{what}: {a} is {getattr(copy, a)} instead of {getattr(layer, a)}")
    elif not hasattr(copy, "layer"):
        pass
    elif getattr(copy.layer, "shared", False) and layer.layer.get_weights():
        return layer  # the weights of another layer, which the configuration does not hold
    else:
        copy.layer.set_weights(layer.layer.get_weights())
    call = (lambda l: l.call(tensors)) if what.startswith("backward merge") else (lambda l: l(tensors))
    flat = lambda o: [t for x in o for t in (flat(x) if isinstance(x, (list, tuple)) else [x])]
    x, y = flat(call(layer)), flat(call(copy))
    if len(x) != len(y):
        raise Violation(f"{what}: {len(y)} outputs instead of {len(x)}")
    for i, (a, b) in enumerate(zip(x, y)):
        a, b = O.to_np(a), O.to_np(b)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= O.tol(a, b)):
            raise Violation(f"{what}: output {i} changes once the layer is rebuilt")
    return copy


def run_plain(case):
    s = S.State(case["state"], case["shape"])
    rng = np.random.RandomState(case["state"]["seed"] + 3)
    n_in, n = int(np.prod(case["shape"])), s.dom.n
    kind, mode = case["layer"], s.mode
    if kind == "domain":
        d = s.domain
        for c in (type(d).from_config(d.get_config()), keras.saving.deserialize_keras_object(keras.saving.serialize_keras_object(d))):
            if type(c) is not type(d) or vars(c) != vars(d):
                raise Violation(f"domain {vars(d)} becomes {vars(c)}")
        return {"nontrivial": case["state"]["domain"] != "box", "labels": ["sub:plain", "layer:domain"]}
    f1 = lambda a: a.reshape((n, -1))
    f2 = lambda a: a.reshape((n, s.dom.d, -1))
    back = c09.rand_back(rng, n, n_in, case["out"])
    prev = {
        "ibp": lambda: [f1(s.u_c), f1(s.l_c)],
        "affine": lambda: [s.x, f2(s.w_u), f1(s.b_u), f2(s.w_l), f1(s.b_l)],
        "hybrid": lambda: [s.x, f1(s.u_c), f2(s.w_u), f1(s.b_u), f1(s.l_c), f2(s.w_l), f1(s.b_l)],
    }[mode]()
    if kind == "Convert2Mode":
        to = {"ibp": ["ibp"], "affine": ["ibp", "affine", "hybrid"], "hybrid": ["ibp", "affine", "hybrid"]}[mode]
        to = to[case["to"] % len(to)]
        layer, tensors = U.Convert2Mode(mode_from=mode, mode_to=to, perturbation_domain=s.domain, input_dim=s.dom.d), s.tensors()
    elif kind == "Fuse":
        layer, tensors = CR.Fuse(mode=mode), c09.tt(prev + back)
    elif kind == "MergeForwardWithBackBounds":
        layer, tensors = CR.MergeForwardWithBackBounds(mode=mode), c09.tt(prev + back)
    elif kind == "MergeWithPrevious":
        if mode == "ibp":
            first = c09.rand_back(rng, n, s.dom.d, n_in)
        else:
            first = [f2(s.w_u), f1(s.b_u), f2(s.w_l), f1(s.b_l)]
        shapes = [(None, s.dom.d, n_in), (None, n_in, case["out"])] if case["to"] else [None, None]
        layer, tensors = CR.MergeWithPrevious(*shapes), c09.tt(first + back)
    else:
        # the affine functions are functions of the input
        first = c09.rand_back(rng, n, n_in if mode == "ibp" else s.dom.d, case["out"])
        layer, tensors = CR.Convert2BackwardMode(mode=mode, perturbation_domain=s.domain), c09.tt(prev + first)
    rebuild(layer, None, tensors, f"{kind} {mode} {case['state']['domain']}")
    return {"nontrivial": True, "labels": ["sub:plain", "layer:" + kind, "mode:" + mode]}


def run_alphas(case):
    s = S.State(case["state"], case["shape"])
    layer = keras.layers.Activation(case["act"])
    layer(keras.Input(tuple(case["shape"])))
    kw = dict(slope=case["slope"], perturbation_domain=s.domain, finetune=True)
    deco = to_decomon(layer, s.dom.d, dc_decomp=False, ibp=s.mode != "affine", affine=s.mode != "ibp", shared=False, **kw)
    tensors = s.tensors()
    if case["backward"]:
        deco = to_backward(layer, mode=s.mode, **kw)
    deco(tensors)
    rng = np.random.RandomState(case["state"]["seed"] + 4)
    deco.set_weights([rng.uniform(size=w.shape) for w in deco.get_weights()])
    copy = type(deco).from_config(deco.get_config())
    what = f"{case['act']} with finetuning, {'backward' if case['backward'] else 'forward'} {s.mode} {case['slope']}"
    if plain(copy.get_config()) != plain(deco.get_config()):
        raise Violation(f"{what}: the configuration changes from {diff(plain(deco.get_config()), plain(copy.get_config()))}")
    copy(tensors)
    copy.set_weights(deco.get_weights())
    for i, (a, b) in enumerate(zip(deco(tensors), copy(tensors))):
        a, b = O.to_np(a), O.to_np(b)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= O.tol(a, b)):
            raise Violation(f"{what}: output {i} changes once the layer is rebuilt")
    return {"nontrivial": s.mode != "ibp", "labels": ["sub:alphas", "mode:" + s.mode, "backward:" + str(case["backward"])]}


def diff(a, b):
    return str({k: (a.get(k), b.get(k)) for k in {**a, **b} if a.get(k) != b.get(k)})[:300]


def run_case(case):
    if case["sub"] == "plain":
        return run_plain(case)
    if case["sub"] == "alphas":
        return run_alphas(case)
    if case["sub"] == "model":
        dm = clone(M.build(case["model"]), method=case["method"])
        try:
            type(dm).from_config(dm.get_config())
        except Exception as e:
            raise Violation(f"DecomonModel.from_config: {type(e).__name__}: {str(e)[:100]}")
        return {"nontrivial": True, "labels": []}
    info = SUB[case["sub"]].run_case(case["case"], via=rebuild)
    info["labels"] = ["sub:" + case["sub"]] + info["labels"]
    return info


def classify(case):
    if case["sub"] == "model":
        return "model"
    if "case" not in case:
        return "/".join([case["sub"], case.get("layer", case.get("act")), case["state"]["mode"]])
    return "/".join([case["sub"], case["case"]["kind"], case["case"]["state"]["mode"]])
