"""C06: linear relaxations and constant bounds of activation functions, for every pre-activation interval."""
import numpy as np
from decomon.backward_layers import activations as BA
from decomon.core import Slope
from decomon.layers import activations as FA
from decomon import utils as U
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation

FUNCS = {
    "relu": lambda x: np.maximum(x, 0),
    "linear": lambda x: x,
    "sigmoid": lambda x: 0.5 * (1 + np.tanh(x / 2)),
    "tanh": np.tanh,
    "softsign": lambda x: x / (1 + np.abs(x)),
    "softplus": lambda x: np.logaddexp(x, 0),
    "exponential": np.exp,
}
HULLS = {
    "relu": "get_linear_hull_relu",
    "sigmoid": "get_linear_hull_sigmoid",
    "tanh": "get_linear_hull_tanh",
    "softplus": "get_linear_softplus_hull",
}
INTERVALS = ["any", "any", "straddle", "touch-up", "touch-low", "point", "tail", "huge", "small", "asym"]


@st.composite
def hull_case(draw):
    return {
        "form": "hull",
        "act": draw(st.sampled_from(sorted(HULLS))),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "interval": draw(st.sampled_from(INTERVALS)),
        "n": draw(st.integers(1, 4)),
        "m": draw(st.integers(1, 4)),
        "seed": draw(st.integers(0, 10**6)),
    }


@st.composite
def layer_case(draw):
    form = draw(st.sampled_from(["forward", "backward"]))
    acts = [a for a in sorted(FUNCS) if form == "forward" or a not in ("exponential", "linear")]  # not implemented backward
    act = draw(st.sampled_from(acts))
    return {
        "form": form,
        "act": act,
        "slope": draw(st.sampled_from(M.SLOPES)),
        "shape": draw(st.sampled_from([[1], [3], [2], [2, 2], [2, 1, 2]])),
        "state": draw(S.state_spec(styles=[s for s in S.STYLES if act != "exponential" or s not in ("wide", "far")])),
    }


def strategy(tier):
    return st.one_of(hull_case(), layer_case())


def intervals(case):
    rng = np.random.RandomState(case["seed"])
    sh = (case["n"], case["m"])
    c, r = rng.uniform(-3, 3, size=sh), rng.uniform(0.01, 3, size=sh)
    kind = case["interval"]
    if kind == "straddle":
        c = r * rng.uniform(-0.95, 0.95, size=sh)
    elif kind == "touch-up":
        c = -r
    elif kind == "touch-low":
        c = +r
    elif kind == "point":
        r = 0 * r
    elif kind == "tail":
        c = rng.choice([-1, 1], size=sh) * rng.uniform(8, 40, size=sh)
    elif kind == "huge":
        r = r * 20
    elif kind == "small":
        r = rng.uniform(0.001, 0.02, size=sh)
        c = c * rng.choice([0.01, 1.0], size=sh)
    elif kind == "asym":
        r = rng.uniform(2, 10, size=sh)
        c = rng.choice([-1, 1], size=sh) * r * rng.uniform(0.7, 0.999, size=sh)
    lo, hi = (c - r).astype(O.floatx()), (c + r).astype(O.floatx())
    if kind == "touch-up":
        hi = 0 * hi
    if kind == "touch-low":
        lo = 0 * lo
    return lo, hi


def grid(lo, hi, k=160):
    """(k, ...) points of the intervals, denser at the ends and around 0"""
    lo, hi = lo.astype("float64"), hi.astype("float64")
    t = np.linspace(0, 1, k).reshape((-1,) + (1,) * lo.ndim)
    pts = [lo + t * (hi - lo), lo + t**4 * (hi - lo), hi - t**4 * (hi - lo), np.clip(0 * lo[None], lo, hi)]
    return np.concatenate(pts, 0)


def check_lines(what, bounds, pts, f):
    w_u, b_u, w_l, b_l = [O.to_np(b) for b in bounds]
    O.check_finite(what, w_u, b_u, w_l, b_l)
    y = f(pts)
    up, low = w_u[None] * pts + b_u[None], w_l[None] * pts + b_l[None]
    # cancellation between w x and b
    mag = max(1.0, float(np.max(np.abs(pts))))
    t = O.eps_rel() * mag
    for name, exc in (("upper", y - up), ("lower", low - y)):
        e = float(np.max(exc))
        if not e <= t:
            i = np.unravel_index(np.nanargmax(exc), exc.shape)
            raise Violation(
                f"{what}: {name} line violated by {e:.6g} (tol {t:.2g}) at {pts[i]:.9g} in "
                f"[{pts[(slice(None),) + i[1:]].min():.9g}, {pts[(slice(None),) + i[1:]].max():.9g}]"
            )


def run_case(case):
    import keras

    f, act = FUNCS[case["act"]], case["act"]
    labels = ["form:" + case["form"], "act:" + act, "slope:" + case["slope"]]
    if case["form"] == "hull":
        lo, hi = intervals(case)
        t = keras.ops.convert_to_tensor
        bounds = getattr(U, HULLS[act])(upper=t(hi), lower=t(lo), slope=case["slope"])
        bounds = [O.to_np(b) for b in bounds]
        bounds = [np.broadcast_to(b, lo.shape) for b in bounds]
        check_lines(f"{HULLS[act]} {case['slope']}", bounds, grid(lo, hi), f)
        return {"nontrivial": bool(np.any(hi > lo)), "labels": labels + ["interval:" + case["interval"]]}

    state = S.State(case["state"], case["shape"])
    rng = np.random.RandomState(case["state"]["seed"] + 1)
    tensors = state.tensors()
    pts = state.points(rng)
    ys = state.hidden(pts, rng)
    kw = dict(mode=state.mode, perturbation_domain=state.domain, slope=case["slope"])
    what = f"{case['form']} {act} {state.mode} {case['state']['domain']} {case['slope']}"
    if case["form"] == "forward":
        outputs = FA.get(act)(tensors, dc_decomp=False, **kw)
        S.check_outputs(outputs, state.mode, pts, [f(y) for y in ys], what, x=state.x, scale=ys)
    else:
        bounds = [O.to_np(b) for b in BA.get(act)(tensors, **kw)]
        n, m = state.dom.n, int(np.prod(case["shape"]))
        for b in bounds:
            if b.shape != (n, m):
                raise Violation(f"{what}: shape {b.shape} instead of {(n, m)}")
        allpts = np.concatenate([y.reshape((-1, n, m)) for y in ys], 0)
        check_lines(what, bounds, allpts, f)
    return {
        "nontrivial": act != "linear",
        "labels": labels + ["mode:" + state.mode, "domain:" + case["state"]["domain"], "style:" + case["state"]["style"]],
    }


def classify(case):
    return "/".join([case["form"], case["act"], case.get("state", {}).get("mode", "")])
