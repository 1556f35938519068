"""C11: exactness: bounds are tight where nothing is relaxed."""
import keras
import numpy as np
from decomon.core import BallDomain, BoxDomain
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Skip, Violation

from .c03 import num

AFFINE_METHODS = ["forward-affine", "forward-hybrid", "crown-forward-affine", "crown-forward-hybrid", "crown", "crown-forward-ibp"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["point", "point", "affine", "affine", "hybrid", "stable", "stable", "touch"]))
    method = {
        "point": st.sampled_from(M.METHODS),
        "affine": st.sampled_from(AFFINE_METHODS),
        "stable": st.sampled_from(AFFINE_METHODS),
        "touch": st.sampled_from(AFFINE_METHODS),
        "hybrid": st.sampled_from(["forward-hybrid"]),
    }[kind]
    method = draw(method)
    back = method in M.BACKWARD
    domains = S.DOMAINS if kind != "point" else ["box", "ball-1", "ball-2", "ball-inf"]
    if kind in ("affine", "stable") and method in ("crown", "crown-forward-ibp"):
        # interval propagation only knows the box around a ball
        domains = ["box", "box", "ball-inf"]
    # the affine lower bound of softplus is that of relu: it is never exact
    acts = {"affine": ["linear"], "stable": ["relu"], "point": ["relu", "sigmoid", "tanh", "softsign", "linear"]}.get(kind)
    fams = None
    if kind == "touch":
        d, k, m = draw(st.integers(1, 3)), draw(st.integers(1, 4)), draw(st.integers(1, 2))
        dense = {"op": "dense", "in": [0], "args": {"units": k, "bias": True, "act": draw(st.sampled_from([None, "relu"]))}}
        nodes = [dense] + ([] if dense["args"]["act"] else [{"op": "act", "in": [1], "args": {"act": "relu"}}])
        nodes.append({"op": "dense", "in": [len(nodes)], "args": {"units": m, "bias": True, "act": None}})
        return {
            "kind": kind,
            "method": method,
            "model": {"family": "mlp", "n_in": d, "nodes": nodes, "wseed": draw(st.integers(0, 10**6)), "wstyle": "dense"},
            "slope": draw(st.sampled_from(M.SLOPES)),
            "dom": {"domain": draw(st.sampled_from(["box", "box", "ball-inf"])), "n": 1, "seed": draw(st.integers(0, 10**6))},
            "final": draw(st.sampled_from([None, "hybrid"])),
        }
    if kind == "stable":
        fams = ["mlp"]
    spec = draw(M.model_spec(backward=back, acts=acts, families=fams, max_layers=3))
    if kind == "affine" and M.nonlinear(spec):
        kind = "point"
    return {
        "kind": kind,
        "method": method,
        "model": spec,
        "slope": draw(st.sampled_from(M.SLOPES)),
        "dom": {"domain": draw(st.sampled_from(domains)), "n": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 10**6))},
        "final": draw(st.sampled_from([None, "hybrid"])),
    }


def strategy(tier):
    return strategy_()


def intervals(model, lo, hi):
    """interval arithmetic through a chain of Dense, BatchNormalization, Dropout and relu layers: is every relu stable?"""
    stable = True
    get = lambda v: np.asarray(keras.ops.convert_to_numpy(v), dtype="float64")

    def relu(lo, hi):
        ok = bool(np.all((lo > 0.01) | (hi < -0.01)))
        return np.maximum(lo, 0), np.maximum(hi, 0), ok

    for layer in model.layers:
        kind = type(layer).__name__
        act = "linear"
        if kind == "Dense":
            w = get(layer.kernel)
            b = get(layer.bias) if layer.use_bias else 0.0
            lo, hi = lo @ np.maximum(w, 0) + hi @ np.minimum(w, 0) + b, hi @ np.maximum(w, 0) + lo @ np.minimum(w, 0) + b
            act = layer.activation.__name__
        elif kind == "BatchNormalization":
            n = lo.shape[-1]
            s = 1 / np.sqrt(get(layer.moving_variance) + layer.epsilon) * (get(layer.gamma) if layer.scale else np.ones(n))
            o = (get(layer.beta) if layer.center else np.zeros(n)) - get(layer.moving_mean) * s
            lo, hi = np.minimum(lo * s, hi * s) + o, np.maximum(lo * s, hi * s) + o
        elif kind == "Activation":
            act = layer.activation.__name__
        elif kind not in ("Dropout", "InputLayer"):
            raise Skip(f"no interval arithmetic for {kind}")
        if act == "relu":
            lo, hi, ok = relu(lo, hi)
            stable = stable and ok
    return stable


def make(case, dspec, scale):
    d = case["model"]["n_in"]
    rng = np.random.RandomState(dspec["seed"])
    dom, dd, x = S.make_domain(dict(dspec, d=d), rng)
    if isinstance(dom, O.Box):
        dom = O.Box(dom.center - 0.5 * dom.radius * scale, dom.center + 0.5 * dom.radius * scale)
        return dom, BoxDomain(), np.stack([dom.lo, dom.hi], 1)
    dom = O.Ball(dom.center, dom.eps * scale, dom.p)
    return dom, BallDomain(eps=dom.eps, p=dom.p), x


def touch(case, model):
    """domain over which every relu has exactly 0 as lower or upper bound of its input (numbers exact in any order)."""
    rng = np.random.RandomState(case["dom"]["seed"])
    layer = [l for l in model.layers if type(l).__name__ == "Dense"][0]
    w = rng.randint(-8, 9, size=layer.kernel.shape) / 8.0
    c, r = rng.randint(-8, 9, size=(1, len(w))) / 4.0, rng.randint(1, 5, size=(1, len(w))) / 4.0
    if case["dom"]["domain"] == "box":
        dom, dd, x = O.Box(c - r, c + r), BoxDomain(), np.stack([c - r, c + r], 1)
    else:
        r = r[:, :1]
        dom, dd, x = O.Ball(c, float(r[0, 0]), np.inf), BallDomain(eps=float(r[0, 0]), p=np.inf), c
    lo = c @ w - r * np.ones_like(c) @ np.abs(w)
    hi = c @ w + r * np.ones_like(c) @ np.abs(w)
    layer.set_weights([w, -np.where(rng.uniform(size=lo.shape) < 0.6, lo, hi)[0]])
    return dom, dd, x


def predict(model, case, dd, x, method, **kw):
    dm = clone(model, method=method, slope=case["slope"], perturbation_domain=dd, **kw)
    return dm.predict_on_single_batch_np(x.astype(O.floatx()))


def run_case(case):
    kind, method = case["kind"], case["method"]
    model = M.build(case["model"])
    f = lambda x: M.evaluate(model, x)
    scale = 0.0 if kind == "point" else 1.0
    dom, dd, x = make(case, case["dom"], scale)
    if kind == "touch":
        dom, dd, x = touch(case, model)
    if kind == "stable":
        for _ in range(9):
            r = dom.radius * (0.5 if isinstance(dom, O.Box) else 1.0)
            if intervals(model, dom.center - r, dom.center + r):
                break
            scale = scale / 2
            dom, dd, x = make(case, case["dom"], scale)
        else:
            raise Skip("no stable domain")
    mode = {"ibp": "ibp", "affine": "affine", "hybrid": "hybrid", "crown": "ibp"}[method.split("-")[-1]]
    kw = {}
    if case["final"] and mode in ("affine", "hybrid"):
        kw = dict(final_ibp=True, final_affine=True)
        mode = "hybrid"
    what = f"{kind} {method} {case['slope']}"
    o = S.split_outputs(predict(model, case, dd, x, method, **kw), mode)
    rng = np.random.RandomState(case["dom"]["seed"])
    pts = dom.project(dom.samples(rng, 16).astype(O.floatx()).astype("float64"))
    y = f(pts)
    yc = y.reshape(y.shape[:2] + (-1,))
    scales = list(o.values())
    labels = M.labels(case["model"]) + ["kind:" + kind, method, "domain:" + case["dom"]["domain"]]
    flat = lambda a: np.asarray(a, dtype="float64").reshape((dom.n, -1))

    def same(a, b, name):
        a, b = np.broadcast_arrays(a, b)
        t = O.tol(a, b, *scales) * (10 if O.floatx() == "float32" else 1)
        e = float(np.max(np.abs(a - b)))
        if not e <= t:
            raise Violation(f"{what}: {name} is not exact, gap {e:.6g} (tolerance {t:.2g}) {dom}")

    if kind == "hybrid":
        ibp = S.split_outputs(predict(model, case, dd, x, "forward-ibp"), "ibp")
        t = O.tol(*scales)
        up, lo = flat(o["u_c"]), flat(o["l_c"])
        if np.any(up > flat(ibp["u_c"]) + t) or np.any(lo < flat(ibp["l_c"]) - t):
            raise Violation(f"{what}: hybrid constant bounds are looser than those of interval propagation")
        g = np.transpose(o["w_u"].reshape((dom.n, dom.d, -1)), (2, 0, 1))
        u_aff = np.transpose((dom.extremal(g) * g).sum(-1)) + flat(o["b_u"])
        g = np.transpose(o["w_l"].reshape((dom.n, dom.d, -1)), (2, 0, 1))
        l_aff = np.transpose((dom.extremal(-g) * g).sum(-1)) + flat(o["b_l"])
        if np.any(up > u_aff + t) or np.any(lo < l_aff - t):
            raise Violation(f"{what}: hybrid constant bounds are looser than those of the affine functions")
        return {"nontrivial": M.nonlinear(case["model"]), "labels": labels}
    if mode != "ibp":
        for s in "ul":
            v = O.affine(o["w_" + s], o["b_" + s])(pts)
            same(v.reshape(yc.shape), yc, f"affine bound {s}")
    if mode != "affine":
        if kind == "point":
            same(flat(o["u_c"])[None], yc, "upper bound")
            same(flat(o["l_c"])[None], yc, "lower bound")
        else:
            # the network is affine on the domain: true range, by its slope
            g = O.gradients(f, dom.center, np.full(dom.center.shape, max(scale, 1e-9) * 2.0**-6) if kind in ("stable", "touch") else np.ones(dom.center.shape))
            h = max(scale, 1e-9) * 2.0**-6 if kind in ("stable", "touch") else 1.0
            g = g / (2 * h)
            c = dom.center
            up = np.transpose(((dom.extremal(g) - c[None]) * g).sum(-1)) + flat(f(c))
            lo = np.transpose(((dom.extremal(-g) - c[None]) * g).sum(-1)) + flat(f(c))
            same(flat(o["u_c"]), up, "upper bound")
            same(flat(o["l_c"]), lo, "lower bound")
    return {"nontrivial": (M.nonlinear(case["model"]) or kind == "affine") and (kind == "point" or bool(np.any(dom.radius > 0))), "labels": labels}


def classify(case):
    return "/".join([case["kind"], case["method"], case["dom"]["domain"], case["slope"]])
