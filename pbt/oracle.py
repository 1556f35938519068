"""Sampling oracle: points of a domain, and search for a point that escapes from a claimed bound."""
import itertools

import keras
import numpy as np

from .engine import Violation


def floatx():
    return keras.config.floatx()


def eps_rel():
    return 2e-6 if floatx() == "float64" else 2e-4


def tol(*arrays):
    """absolute tolerance, relative to the magnitude of the arrays involved"""
    m = 1.0
    for a in arrays:
        if a is not None and np.size(a):
            m = max(m, float(np.max(np.abs(a))))
    return eps_rel() * m


def to_np(t):
    return np.asarray(keras.ops.convert_to_numpy(t)).astype("float64")


def unit_cube(d, n, rng, n_random, max_corners=32):
    us = [np.full((1, d), 0.5)]
    if 2**d <= max_corners:
        us.append(np.array(list(itertools.product([0.0, 1.0], repeat=d))))
    else:
        us.append((rng.uniform(size=(max_corners, d)) < 0.5).astype(float))
    us = np.concatenate(us, 0)[:, None, :] + np.zeros((1, n, 1))
    rnd = rng.uniform(size=(n_random, n, d))
    # some points on the faces
    face = rng.uniform(size=(n_random // 2, n, d))
    mask = rng.uniform(size=face.shape) < 0.5
    face = np.where(mask, np.round(face), face)
    return np.concatenate([us, rnd, face], 0)


class Box:
    """n boxes of dimension d"""

    def __init__(self, lo, hi):
        self.lo, self.hi = np.asarray(lo, dtype="float64"), np.asarray(hi, dtype="float64")
        self.n, self.d = self.lo.shape
        self.radius = self.hi - self.lo
        self.center = 0.5 * (self.lo + self.hi)

    def samples(self, rng, n_random=48):
        return self.lo[None] + unit_cube(self.d, self.n, rng, n_random) * (self.hi - self.lo)[None]

    def project(self, p):
        return np.clip(p, self.lo[None], self.hi[None])

    def extremal(self, g):
        """point of the domain maximizing <g, x>, g: (K, n, d)"""
        return np.where(g >= 0, self.hi[None], self.lo[None])

    def __str__(self):
        return f"box [{self.lo.tolist()}, {self.hi.tolist()}]"


class Ball:
    """n balls of norm p, radius eps, dimension d"""

    def __init__(self, center, eps, p):
        self.center = np.asarray(center, dtype="float64")
        self.eps, self.p = float(eps), p
        self.n, self.d = self.center.shape
        self.radius = np.full(self.center.shape, self.eps)

    def samples(self, rng, n_random=48):
        u = 2 * unit_cube(self.d, self.n, rng, n_random) - 1
        e = np.eye(self.d)[:, None, :] + np.zeros((1, self.n, 1))
        u = np.concatenate([u, e, -e], 0)
        norm = self.norm(u)[..., None]
        sphere = u / np.maximum(norm, 1e-12)
        inside = np.where(norm > 1, sphere * rng.uniform(size=norm.shape), u)
        return self.center[None] + self.eps * np.concatenate([sphere, inside], 0)

    def norm(self, u):
        if self.p == np.inf:
            return np.abs(u).max(-1)
        return (np.abs(u) ** self.p).sum(-1) ** (1.0 / self.p)

    def project(self, x):
        u = x - self.center[None]
        if self.p == np.inf:
            return self.center[None] + np.clip(u, -self.eps, self.eps)
        norm = self.norm(u)[..., None]
        return self.center[None] + u * np.minimum(1.0, self.eps / np.maximum(norm, 1e-300))

    def extremal(self, g):
        if self.p == np.inf:
            u = np.where(g >= 0, 1.0, -1.0)
        elif self.p == 1:
            k = np.argmax(np.abs(g), -1)
            u = np.eye(self.d)[k] * np.sign(g + 1e-300)
        else:
            q = 1.0 / (self.p - 1)
            u = np.sign(g) * np.abs(g) ** q
            u = u / np.maximum(self.norm(u)[..., None], 1e-300)
        return self.center[None] + self.eps * u

    def __str__(self):
        return f"ball p={self.p} eps={self.eps} centers {self.center.tolist()}"


def gradients(f, x, h):
    """finite differences of every output at x (n,d): (o, n, d)"""
    n, d = x.shape
    e = np.eye(d)[:, None, :] * h[None]
    y = f(np.concatenate([x[None] + e, x[None] - e], 0))
    y = y.reshape((2 * d, n, -1))
    g = y[:d] - y[d:]
    return np.transpose(g, (2, 1, 0))


def zoom(pts, score, project, radius, rng, n_new=6, keep=1):
    """new points around the `keep` points of best score of each box: pts (S,n,d), score (S,n)"""
    idx = np.argsort(-score, axis=0)[:keep]  # (keep, n)
    top = pts[idx, np.arange(pts.shape[1])[None, :]]  # (keep, n, d)
    steps = rng.uniform(-1, 1, size=(n_new,) + top.shape) * radius[None, None]
    # half of the moves are along one axis only
    axis = rng.uniform(size=steps.shape)
    single = axis == axis.max(-1, keepdims=True)
    steps[: n_new // 2] = np.where(single, steps, 0.0)[: n_new // 2]
    new = (top[None] + steps).reshape((-1,) + pts.shape[1:])
    return project(np.concatenate([top, new], 0))


def check_finite(name, *arrays):
    for a in arrays:
        if not np.all(np.isfinite(a)):
            raise Violation(f"{name}: non finite bound {np.asarray(a).ravel()[:6]}")


def check_upper_lower(f, dom, upper, lower, rng, what, points=None, scale=(), n_random=48):
    """upper(x), lower(x): functions (S,n,d)->(S,n,...) claimed to enclose f on the domains dom.

    Raises a Violation when a point of the domain escapes. upper or lower may be None."""
    pts = dom.samples(rng, n_random)
    g = gradients(f, dom.center, 1e-3 * dom.radius + 1e-6)[:8]
    pts = np.concatenate([pts, dom.extremal(g), dom.extremal(-g)], 0)
    if points is not None:
        pts = np.concatenate([pts, points], 0)

    bounds = [(name, b, s) for name, b, s in (("upper", upper, 1.0), ("lower", lower, -1.0)) if b is not None]
    worst = -np.inf
    for rnd in range(3):
        # what decomon and keras are given: rounded numbers, still in the domain up to one ulp
        pts = dom.project(pts.astype(floatx()).astype("float64"))
        y = f(pts)
        S, n = y.shape[:2]
        excs = []
        for name, bound, sgn in bounds:
            b = np.broadcast_to(bound(pts), y.shape)
            if not np.all(np.isfinite(b)):
                raise Violation(f"{what}: non finite {name} bound")
            t = tol(y, b, *scale)
            exc = (sgn * (y - b)).reshape((S, n, -1))
            e = float(np.max(exc))
            worst = max(worst, e)
            if not e <= t:
                k, i, o = np.unravel_index(np.nanargmax(exc), exc.shape)
                raise Violation(
                    f"{what}: {name} bound violated by {e:.6g} (tol {t:.2g}) at box {i} output {o} "
                    f"x={pts[k, i].tolist()} f(x)={y[k, i].ravel()[o]:.9g} bound={b[k, i].ravel()[o]:.9g} {dom}"
                )
            excs.append(exc)
        if rnd == 2:
            break
        # search around the points of least slack: one direction per output and bound
        allsc = np.concatenate(excs, -1)
        if allsc.shape[-1] > 6:
            allsc = allsc[..., rng.choice(allsc.shape[-1], 6, replace=False)]
        news = [
            zoom(pts, allsc[..., o], dom.project, dom.radius * (0.1 if rnd == 0 else 0.02), rng, n_new=6, keep=1)
            for o in range(allsc.shape[-1])
        ]
        pts = np.concatenate(news, 0)
    return worst


def affine(w, b):
    """x -> w x + b for w (n, d, ...out), b (n, ...out), x (S,n,d)"""

    def g(x):
        wf = w.reshape((w.shape[0], w.shape[1], -1))
        r = np.einsum("snd,ndo->sno", x, wf)
        return r.reshape(x.shape[:2] + b.shape[1:]) + b[None]

    return g


def const(c):
    def g(x):
        return np.broadcast_to(c[None], (x.shape[0],) + c.shape)

    return g
