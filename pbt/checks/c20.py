"""C20: every operator of the library of relaxed operations is sound, on every axis."""
import keras
import numpy as np
from decomon import utils as U
from decomon.layers import utils as LU
from decomon.metrics.utils import categorical_cross_entropy
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation

POSITIVE = ["frac_pos", "frac_pos_hull", "log"]
UNARY = ["relu_", "minus", "softplus_", "exp", "pow", "abs"] + POSITIVE
REDUCE = ["sum", "max_", "min_", "max_", "min_"]
SHAPING = ["permute_dimensions", "broadcast", "split", "sort", "sort", "expand_dims"]
BINARY = ["add", "subtract", "multiply", "maximum", "minimum"]
GROUPS = {"unary": UNARY, "reduce": REDUCE, "shaping": SHAPING, "binary": BINARY, "metric": ["categorical_cross_entropy"]}
STYLES = [s for s in S.STYLES if s != "far"]


@st.composite
def strategy_(draw):
    it = lambda a, b: draw(st.integers(a, b))
    group = draw(st.sampled_from(["unary", "unary", "reduce", "reduce", "shaping", "shaping", "binary", "metric"]))
    op = draw(st.sampled_from(GROUPS[group]))
    shape = [it(1, 3)] if group == "metric" else [it(1, 3) for _ in range(it(1, 3))]
    case = {"op": op, "group": group, "shape": shape, "slope": draw(st.sampled_from(M.SLOPES))}
    r = len(shape)
    styles = ["positive"] if op in POSITIVE else [s for s in STYLES if s != "wide"] if op in ("exp", "categorical_cross_entropy") else STYLES
    case["state"] = draw(S.state_spec(styles=styles))
    if group == "reduce" or op in ("split", "sort"):
        case["axis"] = draw(st.sampled_from(list(range(1, r + 1)) + list(range(-r, 0))))
    if op in ("max_", "min_"):
        case["finetune"] = draw(st.booleans())
        case["seed"] = it(0, 10**6)
    elif op == "permute_dimensions":
        case["axis"] = draw(st.sampled_from(list(range(1, r + 1)) + [-1]))
        case["axis_perm"] = it(1, r)
    elif op in ("broadcast", "expand_dims"):
        case["axis"] = draw(st.sampled_from(list(range(1, r + 2)) + [-1]))
        case["n"] = it(1, 2)
    elif group == "binary":
        case["same"] = draw(st.booleans())
    return case


def strategy(tier):
    return strategy_()


def reference(case):
    """numpy version of the operator, on arrays (points, rows, ...) and the magnitude of the intermediate values"""
    op, r = case["op"], len(case["shape"])
    ax = case.get("axis")
    if ax is not None:
        ax = ax + 1 if ax > 0 else ax
    lse = lambda y: np.log(np.sum(np.exp(y - y.max(-1, keepdims=True)), -1, keepdims=True)) + y.max(-1, keepdims=True)

    def broadcast(y):
        for _ in range(case["n"]):
            y = np.expand_dims(y, ax)
        return y

    return {
        "relu_": lambda y: np.maximum(y, 0),
        "minus": lambda y: -y,
        "softplus_": lambda y: np.logaddexp(0, y),
        "exp": np.exp,
        "pow": lambda y: y * y,
        "abs": np.abs,
        "frac_pos": lambda y: 1 / y,
        "frac_pos_hull": lambda y: 1 / y,
        "log": np.log,
        "sum": lambda y: y.sum(ax),
        "max_": lambda y: y.max(ax),
        "min_": lambda y: y.min(ax),
        "permute_dimensions": lambda y: np.moveaxis(y, ax, case["axis_perm"] + 1),
        "broadcast": broadcast,
        "expand_dims": lambda y: np.expand_dims(y, ax),
        "sort": lambda y: np.sort(y, ax),
        "split": lambda y: y,
        "add": np.add,
        "subtract": np.subtract,
        "multiply": np.multiply,
        "maximum": np.maximum,
        "minimum": np.minimum,
        "categorical_cross_entropy": lambda y: lse(y) - y,
    }[op]


def arguments(case, mode, domain):
    kw = {"mode": mode, "perturbation_domain": domain}
    op = case["op"]
    if op in ("relu_", "softplus_", "exp"):
        kw["slope"] = case["slope"]
    for k in ("axis", "axis_perm", "finetune"):
        if k in case:
            kw[k] = case[k]
    if op == "broadcast":
        kw["n"] = case["n"]
    if case.get("finetune"):
        p = np.random.RandomState(case["seed"]).uniform(size=case["shape"])
        kw["finetune_params"] = keras.ops.convert_to_tensor(p.astype(O.floatx()))
    return kw


def run_case(case):
    op, mode = case["op"], case["state"]["mode"]
    states = [S.State(case["state"], case["shape"])]
    if case["group"] == "binary":
        states.append(S.State(case["state"], case["shape"], offset=0 if case["same"] else 1, dom=states[0].parent_dom))
    s0 = states[0]
    if op in POSITIVE:
        for a in ("u_c", "l_c", "b_u", "b_l"):
            setattr(s0, a, getattr(s0, a) + 0.25)
    rng = np.random.RandomState(case["state"]["seed"] + 1)
    pts = np.concatenate([s.points(rng, 16) for s in states], 0)
    hid = [s.hidden(pts, rng) for s in states]
    if op in POSITIVE:
        hi = s0.band(pts)[1]
        hid = [[np.minimum(np.maximum(y, 0.2), np.maximum(hi, 0.2)) for y in hid[0]]]
    what = f"{op} {[case.get(k) for k in ('axis', 'axis_perm', 'n', 'finetune') if k in case]} {case['shape']} {mode} {case['state']['domain']}"
    fn = categorical_cross_entropy if case["group"] == "metric" else getattr(U, op) if hasattr(U, op) else getattr(LU, op)
    kw = arguments(case, mode, s0.domain)
    f = reference(case)
    zs = []
    for i in range(len(hid[0]) + (6 if len(hid) > 1 else 0)):
        zs.append(f(*[h[i] if i < len(h) else h[rng.randint(len(h))] for h in hid]))
    mags = [h for h in hid[0]] + [np.max(np.abs(hid[0])) ** 2 if op in ("multiply", "pow") else 0]
    if op == "frac_pos_hull":
        w_u, b_u, w_l, b_l = [O.to_np(t) for t in fn(s0.tensors(), **kw)]
        for y in hid[0]:
            for v, s in ((w_u * y + b_u, 1), (w_l * y + b_l, -1)):
                e = np.max(s * (1 / y - v))
                if not e <= O.tol(v, 1 / y):
                    raise Violation(f"{what}: hull violated by {e}")
    elif op == "split":
        ax = case["axis"] + (1 if case["axis"] > 0 else 0)
        outs = fn(s0.tensors(), **kw)
        if len(outs) != hid[0][0].shape[ax]:
            raise Violation(f"{what}: {len(outs)} parts")
        for i, out in enumerate(outs):
            z = [np.take(y, [i], ax) for y in zs]
            S.check_outputs(out, mode, pts, z, f"{what} part {i}", x=s0.x, scale=mags)
    else:
        S.check_outputs(fn(*[s.tensors() for s in states], **kw), mode, pts, zs, what, x=s0.x, scale=mags)
    return {
        "nontrivial": case["state"]["style"] != "exact" and int(np.prod(case["shape"])) > 1,
        "labels": ["op:" + op, "mode:" + mode, "domain:" + case["state"]["domain"]] + (["axis:" + str(case["axis"])] if "axis" in case else []),
    }


def classify(case):
    return "/".join([case["op"], case["state"]["mode"], str(case.get("axis", "")), str(case.get("finetune", ""))])
