"""C08: merge layers map any abstract states to a sound abstract state."""
import keras
import numpy as np
from decomon.layers.convert import to_decomon
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Skip

KINDS = ["Add", "Subtract", "Average", "Maximum", "Minimum", "Concatenate", "Multiply", "Dot"]


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    it = lambda a, b: draw(st.integers(a, b))
    cfg, k = {}, 2
    if kind not in ("Subtract", "Dot"):
        k = draw(st.sampled_from([2, 2, 3, 4]))
    shape = [it(1, 3) for _ in range(it(1, 3))]
    shapes = [list(shape) for _ in range(k)]
    if kind == "Concatenate":
        axis = draw(st.sampled_from([-1] + list(range(1, len(shape) + 1)) + list(range(-len(shape), 0))))
        cfg["axis"] = axis
        pos = axis - 1 if axis > 0 else len(shape) + axis
        for s in shapes:
            s[pos] = it(1, 3)
    elif kind == "Dot":
        r = it(1, 2)
        shapes = [[it(1, 3) for _ in range(r)] for _ in range(2)]
        axes = [draw(st.sampled_from(list(range(1, r + 1)) + [-1])) for _ in range(2)]
        pos = [a - 1 if a > 0 else r + a for a in axes]
        shapes[1][pos[1]] = shapes[0][pos[0]]
        cfg["axes"] = axes
    styles = S.STYLES
    if kind in ("Multiply", "Dot"):
        styles = [s for s in styles if s not in ("far",)]
    return {
        "kind": kind,
        "shapes": shapes,
        "cfg": cfg,
        "same": draw(st.booleans()) if len({str(s) for s in shapes}) == 1 else False,
        "state": draw(S.state_spec(styles=styles)),
    }


def strategy(tier):
    return case_strategy()


def run_case(case, via=None):
    kind, shapes = case["kind"], case["shapes"]
    layer = getattr(keras.layers, kind)(**{k: tuple(v) if isinstance(v, list) else v for k, v in case["cfg"].items()})
    ins = [keras.Input(tuple(s)) for s in shapes]
    try:
        model = keras.Model(ins, layer(ins))
    except (ValueError, IndexError):  # Concatenate refuses some valid shapes
        raise Skip("refused by Keras")
    states = [S.State(case["state"], shapes[0])]
    for i, s in enumerate(shapes[1:], 1):
        states.append(S.State(case["state"], s, offset=0 if case["same"] else i, dom=states[0].parent_dom))
    s0 = states[0]
    deco = to_decomon(
        layer,
        s0.dom.d,
        slope="volume-slope",
        dc_decomp=False,
        perturbation_domain=s0.domain,
        ibp=s0.mode != "affine",
        affine=s0.mode != "ibp",
        shared=True,
    )
    rng = np.random.RandomState(case["state"]["seed"] + 1)
    pts = np.concatenate([s.points(rng, 16) for s in states], 0)
    if len(pts) > 220:
        pts = pts[rng.choice(len(pts), 220, replace=False)]
    hid = [s.hidden(pts, rng, k=8) for s in states]
    zs, mags = [], []
    for j in range(14):
        # the inputs may reach their bounds independently
        ys = [h[j if j < 8 else rng.randint(len(h))] for h in hid]
        if j in (8, 9):
            ys = [h[(i + j) % 2] for i, h in enumerate(hid)]
        S_, n = pts.shape[:2]
        flat = [keras.ops.convert_to_tensor(y.reshape((S_ * n,) + y.shape[2:]).astype(O.floatx())) for y in ys]
        z = O.to_np(model(flat))
        zs.append(z.reshape((S_, n) + z.shape[1:]))
        mags += [np.max(np.abs(y)) for y in ys]
    m = max(mags) if kind not in ("Multiply", "Dot") else max(1.0, *mags) ** len(shapes)
    what = f"{kind} {case['cfg']} {s0.mode} {case['state']['domain']}"
    if via:
        deco = via(deco, layer, [t for s in states for t in s.tensors()], what)
    outputs = deco([t for s in states for t in s.tensors()])
    S.check_outputs(outputs, s0.mode, pts, zs, what, x=s0.x, scale=[m])
    return {
        "nontrivial": kind not in ("Concatenate",) and case["state"]["style"] != "exact",
        "labels": ["kind:" + kind, "mode:" + s0.mode, "inputs:" + str(len(shapes)), "domain:" + case["state"]["domain"]],
    }


def classify(case):
    return "/".join([case["kind"], case["state"]["mode"], str(len(case["shapes"])), str(case["cfg"].get("axis", case["cfg"].get("axes", "")))])
