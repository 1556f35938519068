"""C18: the difference of convex functions carried along a propagation is one, and is the value of the network."""
import keras
import numpy as np
from decomon import utils as U
from decomon.layers.convert import to_decomon
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from . import c07

STEPS = ["dense", "dense", "conv", "relu", "relu", "relu", "linear", "dropout", "reshape", "permute", "flatten"]
BINARY = ["add", "subtract", "maximum", "minimum"]


@st.composite
def strategy_(draw):
    it = lambda a, b: draw(st.integers(a, b))
    image = draw(st.booleans())
    steps = []
    for _ in range(it(1, 4)):
        op = draw(st.sampled_from(STEPS + BINARY + BINARY + ["minus"]))
        s = {"op": op, "seed": it(0, 10**6)}
        if op == "dense":
            s["cfg"] = {"units": it(1, 3), "use_bias": draw(st.booleans())}
        elif op == "conv":
            s["cfg"] = {"filters": it(1, 2), "kernel_size": [it(1, 2), it(1, 2)], "use_bias": draw(st.booleans()),
                        "padding": draw(st.sampled_from(["valid", "same"]))}
        elif op == "permute":
            s["perm"] = it(0, 5)
        elif op in BINARY:
            s["negate"] = draw(st.booleans())
        steps.append(s)
    return {
        "mode": draw(st.sampled_from(S.MODES)),
        "domain": draw(st.sampled_from(S.DOMAINS)),
        "d": it(1, 3),
        "seed": it(0, 10**6),
        "shape": [it(1, 3), it(1, 3), it(1, 2)] if image else [it(1, 4)],
        "offset": draw(st.sampled_from([0.0, 0.0, 3.0, -3.0])),
        "slope": draw(st.sampled_from(M.SLOPES)),
        "steps": steps,
    }


def strategy(tier):
    return strategy_()


class Tracked:
    """tensors of a propagation for three points of a segment, and the true values at these points"""

    def __init__(self, tensors, y):
        self.tensors, self.y = tensors, y


def source(case, rng, dom, x, pts):
    """h convex, g concave, y = h + g, with bounds which are sound on the whole domain"""
    n, d, shape = 3, case["d"], tuple(case["shape"])
    k = int(np.prod(shape))
    lines = [(S.r32(rng.uniform(-1, 1, size=(d, k, 2))), S.r32(rng.uniform(-1, 1, size=(k, 2)))) for _ in range(2)]
    if rng.uniform() < 0.3:
        lines[rng.randint(2)][0][..., 1] = 0.0
    val = [np.max(np.einsum("nd,dkj->nkj", pts, w) + b, -1) for w, b in lines]
    h, g = val[0] + case["offset"], -val[1]
    # |max_j| bounded by the interval of each line
    ext = []
    for w, b in lines:
        flat = np.broadcast_to(w.reshape((d, -1)).T[:, None, :], (2 * k, n, d))
        top = [np.transpose((dom.extremal(s * flat) * flat).sum(-1)).reshape((n, k, 2)) + b for s in (1, -1)]
        ext.append((np.max(top[0], -1), np.max(top[1], -1)))
    u = ext[0][0] - ext[1][1] + case["offset"]
    l = ext[0][1] - ext[1][0] + case["offset"]
    # the first line of the maximum is an affine lower bound of h, and minus it an upper bound of g
    w_l = np.broadcast_to(lines[0][0][None, ..., 0], (n, d, k))
    b_l = lines[0][1][None, :, 0] - ext[1][0] + case["offset"]
    w_u = -np.broadcast_to(lines[1][0][None, ..., 0], (n, d, k))
    b_u = -lines[1][1][None, :, 0] + ext[0][0] + case["offset"]
    r = lambda a, *s: np.reshape(a, s + shape)
    full = {"x": x, "u_c": r(u, n), "w_u": r(w_u, n, d), "b_u": r(b_u, n), "l_c": r(l, n), "w_l": r(w_l, n, d), "b_l": r(b_l, n)}
    names = {"ibp": ["u_c", "l_c"], "affine": ["x", "w_u", "b_u", "w_l", "b_l"]}.get(case["mode"], list(full))
    out = [full[q] for q in names] + [r(h, n), r(g, n)]
    return Tracked([keras.ops.convert_to_tensor(np.asarray(a).astype(O.floatx())) for a in out], r(h + g, n))


def layer_case(step, shape):
    """description of a layer for the generator of C07, None when the shape does not suit"""
    op, cfg, rng = step["op"], dict(step.get("cfg", {})), np.random.RandomState(step["seed"])
    if op == "conv":
        if len(shape) != 3:
            return None
        cfg.update(data_format="channels_last", strides=[1, 1], kernel_size=[min(a, b) for a, b in zip(cfg["kernel_size"], shape)])
    elif op == "dense" and len(shape) != 1:
        return None
    elif op in ("relu", "linear"):
        cfg = {"activation": op}
        op = "activation"
    elif op == "dropout":
        cfg = {"rate": 0.3}
    elif op == "reshape":
        m = int(np.prod(shape))
        opts = [[m], list(shape)[::-1], [1, m], [m, 1]]
        cfg = {"target_shape": opts[rng.randint(len(opts))]}
    elif op == "permute":
        cfg = {"dims": [int(i) + 1 for i in rng.permutation(len(shape))]}
    return {"kind": op, "shape": list(shape), "cfg": cfg, "wseed": step["seed"]}


def run_case(case):
    rng = np.random.RandomState(case["seed"])
    spec = {"n": 1, "d": case["d"], "domain": case["domain"]}
    dom, domdec, x = S.make_domain(spec, rng)
    rep = lambda a: np.repeat(a, 3, 0)
    dom = O.Box(rep(dom.lo), rep(dom.hi)) if isinstance(dom, O.Box) else O.Ball(rep(dom.center), dom.eps, dom.p)
    x = rep(x)
    p = dom.samples(rng, 8)
    p = p[rng.choice(len(p), 2), 0]
    pts = np.stack([p[0], 0.5 * (p[0] + p[1]), p[1]])
    mode, d = case["mode"], case["d"]
    pool = [source(case, rng, dom, x, pts)]
    cur = pool[0]
    kw = dict(perturbation_domain=domdec, dc_decomp=True, mode=mode)
    n_tensors = {"ibp": 2, "affine": 5, "hybrid": 7}[mode] + 2
    what, done = f"{mode} {case['domain']}:", []
    for step in case["steps"]:
        op, y = step["op"], cur.y
        if op in BINARY or op == "minus":
            if op == "minus":
                out, z = U.minus(cur.tensors, mode=mode, dc_decomp=True, perturbation_domain=domdec), -y
            else:
                same = [t for t in pool if t.y.shape == y.shape]
                other = same[step["seed"] % len(same)]
                a, b = (other, cur) if step["negate"] else (cur, other)
                out = getattr(U, op)(a.tensors, b.tensors, **kw)
                z = {"add": np.add, "subtract": np.subtract, "maximum": np.maximum, "minimum": np.minimum}[op](a.y, b.y)
        else:
            lc = layer_case(step, y.shape[1:])
            if lc is None:
                continue
            layer, model = c07.make_layer(lc)
            args = dict(slope=case["slope"], perturbation_domain=domdec, ibp=mode != "affine", affine=mode != "ibp", shared=True)
            out = to_decomon(layer, d, dc_decomp=True, **args)(cur.tensors)
            plain = to_decomon(layer, d, dc_decomp=False, **args)(cur.tensors[:-2])
            z = O.to_np(model(keras.ops.convert_to_tensor(y.astype(O.floatx())), training=False)).astype("float64")
            for a, b in zip(out, plain):
                a, b = O.to_np(a), O.to_np(b)
                if a.shape != b.shape or not np.max(np.abs(a - b)) <= O.tol(b):
                    raise Violation(f"{what} {done} {op}: bounds depend on dc_decomp")
        done.append(op)
        if len(out) != n_tensors:
            raise Violation(f"{what} {done}: {len(out)} outputs instead of {n_tensors}")
        h, g = [O.to_np(t).astype("float64") for t in out[-2:]]
        if h.shape != z.shape or g.shape != z.shape:
            raise Violation(f"{what} {done}: decomposition of shapes {h.shape}, {g.shape} instead of {z.shape}")
        t = O.tol(h, g, z, *[O.to_np(v) for v in out])
        if not np.max(np.abs(h + g - z)) <= t:
            raise Violation(f"{what} {done}: h + g is away from the value by {np.max(np.abs(h + g - z))}")
        for name, v, s in (("h is not convex", h, 1), ("g is not concave", g, -1)):
            e = np.max(s * (v[1] - 0.5 * (v[0] + v[2])))
            if not e <= t:
                raise Violation(f"{what} {done}: {name}, by {e}")
        cur = Tracked(list(out), z)
        pool.append(cur)
    return {
        "nontrivial": bool({"relu", "maximum", "minimum"} & set(done)) and bool(np.any(pts[0] != pts[2])),
        "labels": ["mode:" + mode, "domain:" + case["domain"]] + ["op:" + o for o in set(done)],
    }


def classify(case):
    return "/".join([case["mode"]] + sorted({s["op"] for s in case["steps"]}))
