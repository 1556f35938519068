"""C10: optimising an affine function over a domain is exact."""
import itertools

import keras
import keras.ops as K
import numpy as np
from decomon import core as C
from hypothesis import strategies as st

from .. import oracle as O
from .. import states as S
from ..engine import Violation

KINDS = ["opt", "opt", "opt", "box", "ball", "identity", "cut", "full", "merge", "split"]


@st.composite
def case_strategy(draw):
    it = lambda a, b: draw(st.integers(a, b))
    return {
        "kind": draw(st.sampled_from(KINDS)),
        "shape": [it(1, 3) for _ in range(it(1, 4))],
        "state": draw(S.state_spec(domains=["box", "ball-inf", "ball-2", "ball-1"], max_d=4)),
        "k": it(1, 3),
        "cut": draw(st.sampled_from(["upper", "lower", "both", "none"])),
        "sparse": draw(st.booleans()),
        "flag": draw(st.booleans()),
    }


def strategy(tier):
    return case_strategy()


def t(a):
    return K.convert_to_tensor(np.asarray(a).astype(O.floatx()))


def candidates(dom, rng):
    """points among which any linear function on the domain has its maximum (all but the 2-ball)"""
    n, d = dom.n, dom.d
    if isinstance(dom, O.Box):
        c = np.array(list(itertools.product([0.0, 1.0], repeat=d)))[:, None, :]
        return dom.lo[None] + c * (dom.hi - dom.lo)[None]
    if dom.p == np.inf:
        c = np.array(list(itertools.product([-1.0, 1.0], repeat=d)))[:, None, :]
        return dom.center[None] + c * dom.eps
    if dom.p == 1:
        e = np.concatenate([np.eye(d), -np.eye(d)], 0)[:, None, :]
        return dom.center[None] + e * dom.eps
    g = rng.normal(size=(64, n, d))
    return dom.center[None] + dom.eps * g / np.linalg.norm(g, axis=-1, keepdims=True)


def best(dom, w, b, rng):
    """reference: max of w x + b, w (n, d, ...), b (n, ...)"""
    n, d = dom.n, dom.d
    wf = w.reshape((n, d, -1))
    if isinstance(dom, O.Ball) and dom.p == 2:
        m = np.einsum("nd,ndo->no", dom.center, wf) + dom.eps * np.sqrt((wf**2).sum(1))
    else:
        m = np.einsum("snd,ndo->sno", candidates(dom, rng), wf).max(0)
    return m.reshape(b.shape) + b


def close(got, want, what, *mags):
    got = O.to_np(got)
    if got.shape != np.shape(want):
        raise Violation(f"{what}: shape {got.shape} instead of {np.shape(want)}")
    e = np.abs(got - want)
    if e.size and not float(np.max(e)) <= O.tol(want, *mags):
        i = np.unravel_index(np.nanargmax(e), e.shape)
        raise Violation(f"{what}: {got[i]:.9g} instead of {want[i]:.9g}")


def run_case(case):
    kind, shape, spec = case["kind"], tuple(case["shape"]), case["state"]
    s = S.State(spec, shape)
    dom, n, d = s.dom, s.dom.n, s.dom.d
    rng = np.random.RandomState(spec["seed"] + 3)
    w = S.r32(rng.uniform(-2, 2, size=(n, d) + shape))
    if case["sparse"]:
        w = w * (rng.uniform(size=w.shape) < 0.5)
    b = S.r32(rng.uniform(-2, 2, size=(n,) + shape))
    if case["flag"]:
        b = b + 8.0
    what = f"{kind} {spec['domain']} {case['shape']}"
    labels = ["kind:" + kind, "domain:" + spec["domain"]]
    x = t(s.x)
    up, lo = best(dom, w, b, rng), -best(dom, -w, -b, rng)
    mag = [np.max(np.abs(w)) * np.max(np.abs(s.x)) * d]
    if kind == "opt":
        close(s.domain.get_upper(x, t(w), t(b)), up, what + " upper", *mag)
        close(s.domain.get_lower(x, t(w), t(b)), lo, what + " lower", *mag)
    elif kind in ("box", "ball", "identity"):
        box = isinstance(dom, O.Box)
        if kind == "identity":
            # w and b of the same rank stand for the identity
            one, zero = np.ones((n, d)), np.zeros((n, d))
            u = dom.hi if box else dom.center + dom.eps
            l = dom.lo if box else dom.center - dom.eps
            close(s.domain.get_upper(x, t(one), t(zero)), u, what + " upper")
            close(s.domain.get_lower(x, t(one), t(zero)), l, what + " lower")
        elif box:
            close(C.get_upper_box(t(dom.lo), t(dom.hi), t(w), t(b)), up, what + " upper", *mag)
            close(C.get_lower_box(t(dom.lo), t(dom.hi), t(w), t(b)), lo, what + " lower", *mag)
        else:
            close(C.get_upper_ball(t(dom.center), dom.eps, dom.p, t(w), t(b)), up, what + " upper", *mag)
            close(C.get_lower_ball(t(dom.center), dom.eps, dom.p, t(w), t(b)), lo, what + " lower", *mag)
    elif kind == "cut":
        run_cut(case, s, w, b, up, lo, rng, what)
        labels.append("cut:" + case["cut"])
    elif kind == "full":
        run_full(case, s, rng, what)
    elif kind == "merge":
        run_merge(case, s, rng, what)
    else:
        run_split(case, s, what)
    return {"nontrivial": kind != "split" and float(np.max(np.abs(w))) > 0, "labels": labels}


def run_cut(case, s, w, b, up, lo, rng, what):
    """ball intersected with bounds on x: sound for any splitting parameter, and the ball itself when it is 1"""
    dom = s.dom
    if isinstance(dom, O.Box):
        return
    d = dom.d
    alpha = S.r32(rng.uniform(0, 1, size=w.shape[1:]))
    if case["flag"]:
        alpha = np.round(alpha)
    # bounds which cut the balls around the same center; they have no batch axis
    c = dom.center[:1] + 0 * dom.center
    dom = O.Ball(c, dom.eps, dom.p)
    hi = c[0] + S.r32(rng.uniform(0, 1.5, size=d)) * dom.eps
    lw = c[0] - S.r32(rng.uniform(0, 1.5, size=d)) * dom.eps
    kw = {}
    if case["cut"] in ("upper", "both"):
        kw["upper"] = hi
    if case["cut"] in ("lower", "both"):
        kw["lower"] = lw
    pts = np.concatenate([dom.samples(rng, 40), candidates(dom, rng)], 0)
    keep = np.clip(pts, lw if "lower" in kw else -np.inf, hi if "upper" in kw else np.inf)
    # clipping towards bounds that enclose the center stays in the ball
    aff = O.affine(w, b)(keep)
    tol = O.tol(aff, np.max(np.abs(w)) * (np.max(np.abs(c)) + 1) * d)
    tens = {k: t(v) for k, v in kw.items()} if False else kw
    u = O.to_np(s.domain.get_upper(t(c), t(w), t(b), finetune_upper=t(alpha), **tens))
    l = O.to_np(s.domain.get_lower(t(c), t(w), t(b), finetune_lower=t(alpha), **tens))
    if u.shape != b.shape or l.shape != b.shape:
        raise Violation(f"{what}: shapes {u.shape}, {l.shape} instead of {b.shape}")
    e = max(float(np.max(aff - u)), float(np.max(l - aff)))
    if not e <= tol:
        raise Violation(f"{what}: bound over the ball cut by {case['cut']} bounds violated by {e:.6g}")
    one = np.ones_like(alpha)
    u1 = s.domain.get_upper(t(c), t(w), t(b), finetune_upper=t(one), **tens)
    l1 = s.domain.get_lower(t(c), t(w), t(b), finetune_lower=t(one), **tens)
    close(u1, best(dom, w, b, rng), what + " upper, alpha=1", tol / O.eps_rel())
    close(l1, -best(dom, -w, -b, rng), what + " lower, alpha=1", tol / O.eps_rel())


def run_full(case, s, rng, what):
    spec = C.InputsOutputsSpec(dc_decomp=False, mode=s.mode, perturbation_domain=s.domain)
    ins = s.tensors()
    full = spec.get_fullinputs_from_inputsformode(ins, compute_ibp_from_affine=True, tight=case["flag"])
    ref = {"u": s.u_c, "l": s.l_c}
    if s.mode != "ibp":
        ua, la = best(s.dom, s.w_u, s.b_u, rng), -best(s.dom, -s.w_l, -s.b_l, rng)
        if s.mode == "affine":
            ref = {"u": ua, "l": la}
        elif case["flag"]:
            ref = {"u": np.minimum(s.u_c, ua), "l": np.maximum(s.l_c, la)}
        for i, a in ((0, s.x), (2, s.w_u), (3, s.b_u), (5, s.w_l), (6, s.b_l)):
            close(full[i], a, what + f" element {i}")
    mag = np.max(np.abs(s.w_u)) * np.max(np.abs(s.x)) * s.dom.d
    close(full[1], ref["u"], what + f" {s.mode} tight={case['flag']} upper", mag)
    close(full[4], ref["l"], what + f" {s.mode} tight={case['flag']} lower", mag)
    back = spec.extract_inputsformode_from_fullinputs(full)
    if len(back) != len(ins):
        raise Violation(f"{what}: {len(back)} tensors extracted instead of {len(ins)}")


def run_merge(case, s, rng, what):
    states = [s] + [S.State(case["state"], s.shape, offset=i, dom=s.parent_dom) for i in range(1, case["k"])]
    spec = C.InputsOutputsSpec(dc_decomp=False, mode=s.mode, perturbation_domain=s.domain)
    ins = [e for q in states for e in q.tensors()]
    out = spec.get_fullinputs_by_type_from_inputsformode_to_merge(ins, compute_ibp_from_affine=True, tight=case["flag"])
    for i, q in enumerate(states):
        u, l = q.u_c, q.l_c
        mag = np.max(np.abs(q.w_u)) * np.max(np.abs(q.x)) * q.dom.d
        if s.mode != "ibp":
            ua, la = best(q.dom, q.w_u, q.b_u, rng), -best(q.dom, -q.w_l, -q.b_l, rng)
            if s.mode == "affine":
                u, l = ua, la
            elif case["flag"]:
                u, l = np.minimum(u, ua), np.maximum(l, la)
            for j, a in ((0, q.x), (2, q.w_u), (3, q.b_u), (5, q.w_l), (6, q.b_l)):
                close(out[j][i], a, what + f" input {i} element {j}")
        close(out[1][i], u, what + f" {s.mode} input {i} upper", mag)
        close(out[4][i], l, what + f" {s.mode} input {i} lower", mag)


def run_split(case, s, what):
    spec = C.InputsOutputsSpec(dc_decomp=case["flag"], mode=s.mode, perturbation_domain=s.domain)
    m = {"ibp": 2, "affine": 5, "hybrid": 7}[s.mode] + 2 * case["flag"]
    if spec.nb_tensors != m:
        raise Violation(f"{what}: {spec.nb_tensors} tensors by input")
    flat = list(range(m * case["k"]))
    if spec.split_inputsformode_to_merge(flat) != [flat[m * i : m * (i + 1)] for i in range(case["k"])]:
        raise Violation(f"{what}: wrong split of inputs")
    full = list(range(9))
    want = {"ibp": [1, 4], "affine": [0, 2, 3, 5, 6], "hybrid": list(range(7))}[s.mode] + ([7, 8] if case["flag"] else [])
    if spec.extract_inputsformode_from_fullinputs(full) != want or spec.extract_outputsformode_from_fulloutputs(full) != want:
        raise Violation(f"{what}: wrong tensors extracted")


def classify(case):
    return "/".join([case["kind"], case["state"]["mode"], case["state"]["domain"], case["cut"]])
