"""Abstract states of the forward propagation: what a decomon layer receives, and what it stands for.

A state is a domain for the input x of the network together with bounds on a hidden quantity y:
  ibp     l_c <= y <= u_c
  affine  w_l x + b_l <= y <= w_u x + b_u
  hybrid  both
generated such that the set of (x, y) it stands for is never empty."""
import numpy as np
from decomon.core import BallDomain, BoxDomain
from hypothesis import strategies as st

from . import oracle as O
from .engine import Violation

MODES = ["ibp", "affine", "hybrid"]
DOMAINS = ["box", "box", "box", "ball-inf", "ball-2", "ball-1"]
STYLES = ["unit", "unit", "wide", "small", "positive", "negative", "touch0", "exact", "mixed", "far"]


@st.composite
def state_spec(draw, modes=MODES, domains=DOMAINS, styles=STYLES, max_n=3, max_d=3):
    return {
        "mode": draw(st.sampled_from(modes)),
        "domain": draw(st.sampled_from(domains)),
        "n": draw(st.integers(1, max_n)),
        "d": draw(st.integers(1, max_d)),
        "seed": draw(st.integers(0, 10**6)),
        "style": draw(st.sampled_from(styles)),
    }


def r32(a):
    """numbers which are exact in any floating point type"""
    return np.round(np.asarray(a) * 64) / 64


def make_domain(spec, rng):
    n, d = spec["n"], spec["d"]
    c = r32(rng.uniform(-2, 2, size=(n, d)))
    if spec["domain"] == "box":
        r = r32(rng.uniform(0.1, 1.5, size=(n, d)))
        if rng.uniform() < 0.25:
            r = r * (rng.uniform(size=(n, d)) < 0.6)
        return O.Box(c - r, c + r), BoxDomain(), np.stack([c - r, c + r], 1)
    p = {"1": 1, "2": 2, "inf": np.inf}[spec["domain"].split("-")[1]]
    eps = float(r32(rng.uniform(0.1, 1.5)))
    return O.Ball(c, eps, p), BallDomain(eps=eps, p=p), c


class State:
    """spec + shape of y -> numpy tensors"""

    def __init__(self, spec, shape, offset=0, dom=None):
        self.spec, self.mode, self.shape = spec, spec["mode"], tuple(shape)
        rng = np.random.RandomState((spec["seed"] + 7919 * offset) % (2**32))
        if dom is None:
            dom = make_domain(spec, np.random.RandomState(spec["seed"] % (2**32)))
        self.parent_dom = dom
        self.dom, self.domain, self.x = dom
        n, d = self.dom.n, self.dom.d
        style = spec["style"]
        scale = {"wide": 6.0, "small": 0.1, "far": 2.0}.get(style, 1.0)
        sh = (n, d) + self.shape
        w0 = rng.uniform(-1, 1, size=sh) * scale
        if rng.uniform() < 0.3:
            w0 = w0 * (rng.uniform(size=sh) < 0.5)
        b0 = rng.uniform(-1, 1, size=(n,) + self.shape) * scale
        if style == "far":
            b0 = b0 + rng.choice([-12.0, 12.0, 5.0, -5.0], size=b0.shape)
        dw = [rng.uniform(-1, 1, size=sh) * scale * rng.choice([0, 0.3, 1.0], size=(n, 1) + self.shape) for _ in range(2)]
        slack = [np.abs(rng.uniform(0, 1, size=b0.shape)) * scale * rng.choice([0, 0.1, 1.0], size=b0.shape) for _ in range(4)]
        if style == "exact":
            dw = [0 * e for e in dw]
            slack = [0 * e for e in slack]
        w0 = r32(w0)
        w_u, w_l = r32(w0 + dw[0]), r32(w0 + dw[1])
        mx = lambda w: self.optimum(w)
        # w_u x + b_u >= w0 x + b0 on the domain
        b_u = b0 + mx(w0 - w_u) + slack[0]
        b_l = b0 - mx(w_l - w0) - slack[1]
        u_c = b0 + mx(w0) + slack[2]
        l_c = b0 - mx(-w0) - slack[3]
        # global shift of y
        shift = np.zeros_like(b0)
        if style == "positive":
            shift = -np.minimum(l_c, 0) + r32(rng.uniform(0, 0.5, size=b0.shape))
        elif style == "negative":
            shift = -np.maximum(u_c, 0) - r32(rng.uniform(0, 0.5, size=b0.shape))
        elif style == "touch0":
            k = rng.randint(3, size=b0.shape)
            shift = np.where(k == 0, -u_c, np.where(k == 1, -l_c, 0.0))
        self.w_u, self.w_l = w_u, w_l
        self.b_u, self.b_l, self.u_c, self.l_c = b_u + shift, b_l + shift, u_c + shift, l_c + shift
        self.rng = rng

    def optimum(self, w):
        """max of w x on the domain"""
        n, d = self.dom.n, self.dom.d
        wf = w.reshape((n, d, -1))
        g = np.transpose(wf, (2, 0, 1))  # (o, n, d)
        pt = self.dom.extremal(g)
        return np.transpose((pt * g).sum(-1), (1, 0)).reshape((n,) + self.shape)

    # ------------------------------------------------------------ decomon side
    def tensors(self):
        import keras

        t = lambda a: keras.ops.convert_to_tensor(np.asarray(a).astype(O.floatx()))
        if self.mode == "ibp":
            out = [self.u_c, self.l_c]
        elif self.mode == "affine":
            out = [self.x, self.w_u, self.b_u, self.w_l, self.b_l]
        else:
            out = [self.x, self.u_c, self.w_u, self.b_u, self.l_c, self.w_l, self.b_l]
        return [t(a) for a in out]

    def symbolic(self):
        """keras inputs of the shapes of tensors()"""
        import keras

        return [keras.Input(tuple(t.shape)[1:], dtype=O.floatx()) for t in self.tensors()]

    # ------------------------------------------------------------ concretization
    def band(self, pts):
        """lower and upper bounds of y at each point (S,n,...)"""
        lo = np.full(pts.shape[:2] + self.shape, -np.inf)
        hi = np.full(pts.shape[:2] + self.shape, np.inf)
        if self.mode != "ibp":
            lo = np.maximum(lo, O.affine(self.w_l, self.b_l)(pts))
            hi = np.minimum(hi, O.affine(self.w_u, self.b_u)(pts))
        if self.mode != "affine":
            lo = np.maximum(lo, self.l_c[None])
            hi = np.minimum(hi, self.u_c[None])
        return lo, np.maximum(lo, hi)

    def points(self, rng, n_random=24):
        pts = self.dom.samples(rng, n_random)
        if self.mode != "ibp":
            g = [np.transpose(w.reshape((self.dom.n, self.dom.d, -1)), (2, 0, 1)) for w in (self.w_u, self.w_l)]
            g = np.concatenate(g, 0)
            if len(g) > 24:
                g = g[rng.choice(len(g), 24, replace=False)]
            pts = np.concatenate([pts, self.dom.extremal(g), self.dom.extremal(-g)], 0)
        return self.dom.project(pts)

    def hidden(self, pts, rng, k=6):
        """values of y compatible with the state at pts: list of (S,n,...) arrays"""
        lo, hi = self.band(pts)
        out = [lo, hi]
        for i in range(k):
            t = rng.uniform(size=lo.shape)
            if i % 2:
                t = np.round(t)
            y = lo + t * (hi - lo)
            if i == 0:
                # 0, a particular point of many layers, when possible
                y = np.clip(np.zeros_like(lo), lo, hi)
            out.append(y)
        return out


def split_outputs(outputs, mode):
    """outputs of a decomon layer -> dict of numpy arrays"""
    o = [O.to_np(t) for t in outputs]
    if mode == "ibp":
        return {"u_c": o[0], "l_c": o[1]}
    if mode == "affine":
        return {"x": o[0], "w_u": o[1], "b_u": o[2], "w_l": o[3], "b_l": o[4]}
    return {"x": o[0], "u_c": o[1], "w_u": o[2], "b_u": o[3], "l_c": o[4], "w_l": o[5], "b_l": o[6]}


def check_outputs(outputs, mode, pts, z, what, x=None, scale=()):
    """every (x, z) sampled must satisfy the bounds given by the outputs. z: list of (S,n,...)"""
    n_expected = {"ibp": 2, "affine": 5, "hybrid": 7}[mode]
    if len(outputs) != n_expected:
        raise Violation(f"{what}: {len(outputs)} outputs instead of {n_expected}")
    o = split_outputs(outputs, mode)
    n, shape, d = z[0].shape[1], z[0].shape[2:], pts.shape[-1]
    for k, v in o.items():
        want = (n,) + shape if k in ("u_c", "l_c", "b_u", "b_l") else (n, d) + shape if k in ("w_u", "w_l") else None
        if want is not None and v.shape != want:
            raise Violation(f"{what}: {k} of shape {v.shape} instead of {want}")
        if not np.all(np.isfinite(v)):
            raise Violation(f"{what}: {k} is not finite: {v.ravel()[:6]}")
    if x is not None and "x" in o and (o["x"].shape != x.shape or np.max(np.abs(o["x"] - x)) > O.tol(x)):
        raise Violation(f"{what}: the domain is modified by the layer")
    bounds = []
    if mode != "affine":
        bounds += [("u_c", O.const(o["u_c"])(pts), 1.0), ("l_c", O.const(o["l_c"])(pts), -1.0)]
    if mode != "ibp":
        bounds += [
            ("affine upper", O.affine(o["w_u"], o["b_u"])(pts), 1.0),
            ("affine lower", O.affine(o["w_l"], o["b_l"])(pts), -1.0),
        ]
    mags = [o[k] for k in ("b_u", "b_l") if k in o]
    for name, b, s in bounds:
        t = O.tol(b, z[0], *mags, *scale)
        for y in z:
            exc = s * (y - b)
            e = float(np.max(exc)) if exc.size else 0.0
            if not e <= t:
                idx = np.unravel_index(np.nanargmax(exc), exc.shape)
                raise Violation(
                    f"{what}: {name} violated by {e:.6g} (tol {t:.2g}) at x={pts[idx[0], idx[1]].tolist()} "
                    f"output {tuple(int(i) for i in idx[1:])}: value {y[idx]:.9g} bound {b[idx]:.9g}"
                )
    return o
