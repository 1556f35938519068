"""What the bounds returned by a converted model imply, computed in numpy: the entry points must not return less precise answers."""
import numpy as np

from . import oracle as O


def split(outputs, mode):
    """(u_c, l_c) and (w_u, b_u, w_l, b_l), flattened, None when absent"""
    out = [np.asarray(o, dtype="float64") for o in outputs]
    if mode == "ibp":
        cst, aff = (out[0], out[1]), None
    elif mode == "affine":
        cst, aff = None, out[1:5]
    else:
        cst, aff = (out[1], out[4]), [out[2], out[3], out[5], out[6]]
    if cst is not None:
        cst = [c.reshape((len(c), -1)) for c in cst]
    if aff is not None:
        n = len(aff[1])
        b_u, b_l = aff[1].reshape((n, -1)), aff[3].reshape((n, -1))
        aff = [aff[0].reshape((n, -1, b_u.shape[1])), b_u, aff[2].reshape((n, -1, b_l.shape[1])), b_l]
    return cst, aff


def extremum(dom, w, b, sign=1):
    """maximum over the domain of w.x+b (minimum for sign=-1). w: (n, d, ...), b: (n, ...)"""
    shape = b.shape
    n, d = w.shape[:2]
    w, b = w.reshape((n, d, -1)), b.reshape((n, -1))
    if isinstance(dom, O.Box):
        c, r = (dom.lo + dom.hi) / 2, (dom.hi - dom.lo) / 2
        v = np.einsum("nd,ndk->nk", r, np.abs(w))
    else:
        c = dom.center
        q = {1: np.inf, 2: 2, np.inf: 1}[dom.p]
        v = dom.eps * np.linalg.norm(w, ord=q, axis=1)
    return (np.einsum("nd,ndk->nk", c, w) + b + sign * v).reshape(shape)


def ranges(outputs, mode, dom):
    """upper and lower bounds (n, k) of the outputs"""
    cst, aff = split(outputs, mode)
    u = l = None
    if cst is not None:
        u, l = cst
    if aff is not None:
        a, b = extremum(dom, aff[0], aff[1]), extremum(dom, aff[2], aff[3], -1)
        u, l = (a, b) if u is None else (np.minimum(u, a), np.maximum(l, b))
    return u, l


def pairs(s, t):
    return t[:, :, None] * s[:, None, :] > 0


def score(outputs, mode, dom, s, t, objective=False):
    """upper bound over the pairs (target, source) of the difference of the two outputs"""
    cst, aff = split(outputs, mode)
    res = []
    if objective:  # the outputs are bounds of one objective per class
        m = t > 0
        if cst is not None:
            res.append(np.where(m, cst[0], -np.inf).max(-1))
        if aff is not None:
            res.append(np.where(m, extremum(dom, aff[0], aff[1]), -np.inf).max(-1))
        return np.min(res, 0)
    m = pairs(s, t)
    if cst is not None:
        res.append(np.where(m, cst[0][:, :, None] - cst[1][:, None, :], -np.inf).max((-1, -2)))
    if aff is not None:
        w_u, b_u, w_l, b_l = aff
        w, b = w_u[:, :, :, None] - w_l[:, :, None, :], b_u[:, :, None] - b_l[:, None, :]
        res.append(np.where(m, extremum(dom, w, b), -np.inf).max((-1, -2)))
    return np.min(res, 0)


def reached(outputs, mode, dom, s, t):
    """a value that the difference of a target and a source output certainly reaches on the domain"""
    cst, aff = split(outputs, mode)
    m = pairs(s, t)
    if aff is None:
        return np.where(m, cst[1][:, :, None] - cst[0][:, None, :], -np.inf).max((-1, -2))
    w_u, b_u, w_l, b_l = aff
    w, b = w_l[:, :, :, None] - w_u[:, :, None, :], b_l[:, :, None] - b_u[:, None, :]
    return np.where(m, extremum(dom, w, b), -np.inf).max((-1, -2))
