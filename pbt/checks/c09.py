"""C09: backward layers, merges and the composition of their bounds are sound."""
import keras
import numpy as np
from decomon.backward_layers.convert import to_backward
from decomon.layers.convert import to_decomon
from decomon.models.crown import Convert2BackwardMode, Fuse, MergeWithPrevious, merge_with_previous
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Violation
from . import c07

KINDS = ["dense", "dense", "conv", "conv", "bn", "dropout", "reshape", "permute", "flatten", "input",
         "activation", "activation", "compose", "compose", "fuse", "concretize", "merge", "merge"]
LINEAR = ["dense", "conv", "bn", "dropout", "reshape", "permute", "flatten", "input"]
ACTS = ["relu", "relu", "linear", "sigmoid", "tanh", "softsign", "softplus"]
MERGES = ["Add", "Subtract", "Average", "Maximum", "Minimum", "Multiply"]


@st.composite
def case_strategy(draw):
    kind = draw(st.sampled_from(KINDS))
    it = lambda a, b: draw(st.integers(a, b))
    case = {"kind": kind, "slope": draw(st.sampled_from(M.SLOPES)), "wseed": it(0, 10**6), "deco": draw(st.booleans())}
    if kind in c07.KINDS and kind not in ("activation", "dense"):
        sub = None
        while sub is None or sub["kind"] != kind:
            sub = draw(c07.case_strategy().filter(lambda c: c["kind"] == kind))
        case.update(shape=sub["shape"], cfg=sub["cfg"])
    elif kind == "dense":
        case.update(shape=[it(1, 3) for _ in range(draw(st.sampled_from([1, 1, 2, 3])))], cfg={"units": it(1, 4), "use_bias": draw(st.booleans())})
    elif kind == "activation":
        case.update(shape=[it(1, 3) for _ in range(it(1, 3))], cfg={"activation": draw(st.sampled_from(ACTS))})
    elif kind == "merge":
        op = draw(st.sampled_from(MERGES))
        shape = [it(1, 3) for _ in range(it(1, 3))]
        case.update(shape=shape, cfg={"op": op, "k": draw(st.sampled_from([2, 3, 4])) if op == "Average" else 2})
    else:  # input, compose, fuse, concretize
        case.update(shape=[it(1, 3) for _ in range(it(1, 2))],
                    cfg={"out": it(1, 3), "diag": draw(st.sampled_from(["", "", "prev", "back", "both"])), "layer": draw(st.booleans())})
    case["state"] = draw(S.state_spec())
    return case


def strategy(tier):
    return case_strategy()


def flat(y):
    return y.reshape(y.shape[:2] + (-1,))


def check_back(bounds, ys, zs, what, exact=False, shapes=True):
    """bounds [w_u, b_u, w_l, b_l] of z as functions of y"""
    if len(bounds) != 4:
        raise Violation(f"{what}: {len(bounds)} outputs instead of 4")
    w_u, b_u, w_l, b_l = [O.to_np(t) for t in bounds]
    n, n_in, n_out = ys[0].shape[1], int(np.prod(ys[0].shape[2:])), int(np.prod(zs[0].shape[2:]))
    for name, a, sh in [("w_u", w_u, (n_in, n_out)), ("b_u", b_u, (n_out,)), ("w_l", w_l, (n_in, n_out)), ("b_l", b_l, (n_out,))]:
        if a.shape != (n,) + sh:
            raise Violation(f"{what}: {name} of shape {a.shape} instead of {(n,) + sh}")
        if not np.all(np.isfinite(a)):
            raise Violation(f"{what}: {name} is not finite")
    t = O.tol(w_u, b_u, w_l, b_l, *zs)
    for y, z in zip(ys, zs):
        y, z = flat(y), flat(z)
        mag = 1.0 + max(float(np.max(np.abs(y))), 0.0) * max(1.0, float(np.max(np.abs(w_u))), float(np.max(np.abs(w_l))))
        up = np.einsum("sni,nio->sno", y, w_u) + b_u[None]
        lo = np.einsum("sni,nio->sno", y, w_l) + b_l[None]
        tt = max(t, O.eps_rel() * mag)
        for name, e in [("upper", z - up), ("lower", lo - z)] + ([("upper (exact)", up - z), ("lower (exact)", z - lo)] if exact else []):
            if not float(np.max(e)) <= tt:
                i = np.unravel_index(np.nanargmax(e), e.shape)
                raise Violation(f"{what}: {name} bound wrong by {float(np.max(e)):.6g} (tol {tt:.2g}) at y={y[i[0], i[1]].tolist()} sample {i[1]} output {i[2]}: value {z[i]:.9g}")


def rand_back(rng, n, n_in, n_out, scale=1.0):
    w = [S.r32(rng.uniform(-1, 1, size=(n, n_in, n_out)) * scale) for _ in range(2)]
    b = [S.r32(rng.uniform(-1, 1, size=(n, n_out))) for _ in range(2)]
    if rng.uniform() < 0.3:
        w = [np.abs(w[0]), -np.abs(w[1])]
    return [w[0], b[0], w[1], b[1]]


def tt(arrays):
    return [keras.ops.convert_to_tensor(np.asarray(a).astype(O.floatx())) for a in arrays]


def run_case(case, via=None):
    kind = case["kind"]
    case = dict(case, cfg=dict(case["cfg"]))
    if kind in ("conv",):
        if not c07.supported(case):
            s, k = case["shape"], case["cfg"]["kernel_size"]
            dil = (case["cfg"].get("dilation_rate") or [1, 1])[0]
            case["cfg"].update(data_format="channels_last", padding="valid")
            case["shape"] = [max(s[i], (k[i] - 1) * dil + 1) for i in range(2)] + [min(s[2], 3)]
    st_ = S.State(case["state"], case["shape"])
    mode, n = st_.mode, st_.dom.n
    rng = np.random.RandomState(case["state"]["seed"] + 1)
    pts = st_.points(rng, 16)
    what = f"backward {kind} {case['cfg']} {mode} {case['state']['domain']}"
    labels = ["kind:" + kind, "mode:" + mode, "domain:" + case["state"]["domain"]]
    ys = st_.hidden(pts, rng)
    nontrivial = mode != "ibp" or case["state"]["style"] != "exact"
    n_in = int(np.prod(case["shape"]))
    if kind == "merge":
        run_merge(case, st_, pts, rng, what, via)
        return {"nontrivial": nontrivial, "labels": labels + ["merge:" + case["cfg"]["op"]]}
    if kind == "compose":
        run_compose(case, rng, n, n_in, what)
        return {"nontrivial": True, "labels": labels}
    if kind == "fuse":
        n_out = case["cfg"]["out"]
        back = rand_back(rng, n, n_in, n_out)
        if mode == "ibp":
            outs = Fuse(mode=mode)(tt([flat(a[None])[0] for a in (st_.u_c, st_.l_c)] + back))
            check_same(outs, back, what)
            return {"nontrivial": True, "labels": labels}
        f1 = lambda a: a.reshape((n, -1))
        f2 = lambda a: a.reshape((n, st_.dom.d, -1))
        if mode == "affine":
            prev = [st_.x, f2(st_.w_u), f1(st_.b_u), f2(st_.w_l), f1(st_.b_l)]
        else:
            prev = [st_.x, f1(st_.u_c), f2(st_.w_u), f1(st_.b_u), f1(st_.l_c), f2(st_.w_l), f1(st_.b_l)]
        outs = Fuse(mode=mode)(tt(prev + back))
        # bounds of back(y) as functions of x
        zs_u = [np.einsum("sni,nio->sno", flat(y), back[0]) + back[1] for y in affine_hidden(st_, pts, rng)]
        zs_l = [np.einsum("sni,nio->sno", flat(y), back[2]) + back[3] for y in affine_hidden(st_, pts, rng)]
        check_one(outs, pts, zs_u, zs_l, what)
        return {"nontrivial": True, "labels": labels}
    if kind == "concretize":
        run_concretize(case, st_, rng, what)
        return {"nontrivial": True, "labels": labels}
    # ------------------------------------------------------------------ single layers
    if kind == "input":
        model = keras.Sequential([keras.Input(tuple(case["shape"])), keras.layers.Flatten()])
        layer = keras.Input(tuple(case["shape"]))._keras_history[0] if False else keras.layers.InputLayer(shape=tuple(case["shape"]))
        f = lambda y: y
    else:
        layer, model = c07.make_layer(case)
        f = c07.keras_fn(model, case["shape"])
    kw = {}
    if kind in ("dense", "conv"):
        kw["input_dim"] = st_.dom.d
    source = layer
    if case["deco"] and kind not in ("input",) and not (kind == "dense" and len(case["shape"]) > 1 and False):
        source = to_decomon(layer, st_.dom.d, slope=case["slope"], dc_decomp=False, perturbation_domain=st_.domain,
                            ibp=mode != "affine", affine=mode != "ibp", shared=True, fast=False)
        source(st_.symbolic())
    back = to_backward(source, slope=case["slope"], mode=mode, perturbation_domain=st_.domain, **kw)
    zs = [f(y) for y in ys]
    if via:
        back = via(back, layer, st_.tensors(), what)
    bounds = back(st_.tensors())
    exact = kind in LINEAR or (kind == "activation" and case["cfg"]["activation"] == "linear")
    check_back(bounds, ys, zs, what + f" decomon layer:{case['deco']}", exact=exact)
    return {
        "nontrivial": nontrivial,
        "labels": labels + ["source:" + ("decomon" if case["deco"] else "keras")] + (["act:" + case["cfg"]["activation"]] if kind == "activation" else []),
    }


def affine_hidden(st_, pts, rng):
    """values of y between the affine bounds"""
    lo, hi = O.affine(st_.w_l, st_.b_l)(pts), O.affine(st_.w_u, st_.b_u)(pts)
    hi = np.maximum(lo, hi)
    return [lo, hi] + [lo + rng.randint(2, size=lo.shape) * (hi - lo) for _ in range(4)]


def check_same(outs, want, what):
    for a, b in zip(outs, want):
        a = O.to_np(a)
        if a.shape != b.shape or not np.all(np.abs(a - b) <= O.tol(b)):
            raise Violation(f"{what}: backward bounds modified")


def check_one(outs, pts, zs_u, zs_l, what):
    """zs_u below the upper bound, zs_l above the lower one"""
    w_u, b_u, w_l, b_l = [O.to_np(t) for t in outs]
    up = np.einsum("sni,nio->sno", pts, w_u) + b_u
    lo = np.einsum("sni,nio->sno", pts, w_l) + b_l
    t = O.tol(up, lo, w_u, w_l, b_u, b_l, *zs_u, *zs_l)
    eu, el = max(float(np.max(z - up)) for z in zs_u), max(float(np.max(lo - z)) for z in zs_l)
    if not eu <= t:
        raise Violation(f"{what}: composed upper bound violated by {eu:.6g}")
    if not el <= t:
        raise Violation(f"{what}: composed lower bound violated by {el:.6g}")
    return up, lo, t


def run_compose(case, rng, n, n_in, what):
    """merge_with_previous: bounds of y from x, then bounds of z from y"""
    n_h, n_out, diag = int(np.prod(case["shape"])), case["cfg"]["out"], case["cfg"]["diag"]
    d = n_h if diag in ("prev", "both") else case["state"]["d"]
    if diag in ("back", "both"):
        n_out = n_h
    prev = rand_back(rng, n, d, n_h)
    back = rand_back(rng, n, n_h, n_out)
    prev_t, back_t = list(prev), list(back)
    if diag in ("prev", "both"):
        prev_t[0], prev_t[2] = [np.einsum("nii->ni", w).copy() for w in (prev[0], prev[2])]
        prev[0], prev[2] = [w * np.eye(d)[None] for w in (prev[0], prev[2])]
    if diag in ("back", "both"):
        back_t[0], back_t[2] = [np.einsum("nii->ni", w).copy() for w in (back[0], back[2])]
        back[0], back[2] = [w * np.eye(n_h)[None] for w in (back[0], back[2])]
    pts = rng.uniform(-2, 2, size=(24, n, d))
    # shift the upper bound of y above the lower one on the box [-2, 2]
    gap = np.abs(prev[0] - prev[2]).sum(1) * 2.0
    prev[1] = prev_t[1] = prev[3] + gap
    lo, hi = np.einsum("sni,nio->sno", pts, prev[2]) + prev[3], np.einsum("sni,nio->sno", pts, prev[0]) + prev[1]
    ys = [lo, hi] + [lo + rng.randint(2, size=lo.shape) * (hi - lo) for _ in range(6)]
    # the extremal values of y for each output: the composed bound has to be reached by them
    for o in range(n_out):
        for w in (back[0], back[2]):
            ys.append(np.where(w[None, :, :, o] >= 0, hi, lo))
            ys.append(np.where(w[None, :, :, o] >= 0, lo, hi))
    zu = [np.einsum("sni,nio->sno", y, back[0]) + back[1] for y in ys]
    zl = [np.einsum("sni,nio->sno", y, back[2]) + back[3] for y in ys]
    op = MergeWithPrevious([None, d, n_h], [None, n_h, n_out]) if case["cfg"]["layer"] and not diag else merge_with_previous
    outs = op(tt(prev_t + back_t))
    up, lo_, t = check_one(outs, pts, zu, zl, what)
    if float(np.max(up - np.max(zu, 0))) > t or float(np.max(np.min(zl, 0) - lo_)) > t:
        raise Violation(f"{what}: composed bounds are looser than the composition of the affine bounds")


def run_concretize(case, st_, rng, what):
    n, d, mode, n_out = st_.dom.n, st_.dom.d, st_.mode, case["cfg"]["out"]
    back = rand_back(rng, n, d, n_out)
    ix = np.eye(d)[None] + np.zeros((n, 1, 1))
    z0 = np.zeros((n, d))
    pts_x = st_.dom.extremal(np.transpose(np.concatenate([ix, -ix], 1), (1, 0, 2)))
    u_x, l_x = pts_x.max(0), pts_x.min(0)
    ins = {"ibp": [u_x, l_x], "affine": [st_.x, ix, z0, ix, z0], "hybrid": [st_.x, u_x, ix, z0, l_x, ix, z0]}[mode]
    outs = Convert2BackwardMode(mode, st_.domain)(tt(ins + back))
    dom = O.Box(l_x, u_x) if mode == "ibp" else st_.dom
    best = lambda w, b: np.max([np.einsum("sni,nio->sno", p, w).max(0) for p in
                                [dom.extremal(np.transpose(w, (2, 0, 1)))]], 0) + b
    u, l = best(back[0], back[1]), -best(-back[2], -back[3])
    if mode == "affine":
        check_same(outs[1:], back, what)
        check_same(outs[:1], [st_.x], what)
        return
    if mode == "ibp":
        got = {"u": outs[0], "l": outs[1]}
    else:
        got = {"u": outs[1], "l": outs[4]}
        check_same([outs[2], outs[3], outs[5], outs[6]], back, what)
        check_same(outs[:1], [st_.x], what)
    t = O.tol(u, l)
    for k, v in (("u", u), ("l", l)):
        e = float(np.max(np.abs(O.to_np(got[k]) - v)))
        if not e <= t:
            raise Violation(f"{what}: constant bound {k} wrong by {e:.6g}")


def run_merge(case, s0, pts, rng, what, via=None):
    op, k, shape = case["cfg"]["op"], case["cfg"]["k"], case["shape"]
    layer = getattr(keras.layers, op)()
    ins = [keras.Input(tuple(shape)) for _ in range(k)]
    model = keras.Model(ins, layer(ins))
    deco = to_decomon(layer, s0.dom.d, slope="volume-slope", dc_decomp=False, perturbation_domain=s0.domain,
                      ibp=s0.mode != "affine", affine=s0.mode != "ibp", shared=True)
    states = [s0] + [S.State(case["state"], shape, offset=i, dom=s0.parent_dom) for i in range(1, k)]
    back = to_backward(deco, mode=s0.mode, perturbation_domain=s0.domain)
    if via:
        back = via(back, layer, [t for s in states for t in s.tensors()], what)
    bounds = back.call([t for s in states for t in s.tensors()])
    if len(bounds) != k:
        raise Violation(f"{what}: {len(bounds)} sets of bounds for {k} inputs")
    hid = [s.hidden(pts, rng) for s in states]
    yss, zs = [[] for _ in range(k)], []
    for j in range(16):
        y = [h[j] if j < 2 else h[(i + j) % 2] if j < 4 else h[rng.randint(len(h))] for i, h in enumerate(hid)]
        S_, n = pts.shape[:2]
        fl = [keras.ops.convert_to_tensor(a.reshape((S_ * n,) + a.shape[2:]).astype(O.floatx())) for a in y]
        z = O.to_np(model(fl))
        zs.append(z.reshape((S_, n) + z.shape[1:]))
        for i in range(k):
            yss[i].append(y[i])
    for i in range(k):
        check_back(bounds[i], yss[i], zs, f"{what}, input {i}")


def classify(case):
    c = case["cfg"]
    return "/".join([case["kind"], case["state"]["mode"], str(case["deco"]), c.get("activation", ""), c.get("op", ""), c.get("data_format", ""), str(len(case["shape"]))])
