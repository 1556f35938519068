"""C22: bounds are at least as tight as an independent implementation of the method they were asked with."""
import keras
import numpy as np
from decomon.models import clone
from hypothesis import strategies as st

from .. import models as M
from .. import oracle as O
from .. import states as S
from ..engine import Skip, Violation
from .c02 import domain

INTERVAL = ["forward-ibp", "forward-hybrid"]
SLOPES = [s for s in M.SLOPES]


def without_maximum(spec):
    """merges with a maximum are built from a sum and a relu, hence looser than intervals: not those of a reference"""
    for nd in spec["nodes"]:
        nd["op"] = {"max": "add", "min": "avg"}.get(nd["op"], nd["op"])
        if nd["op"] == "submodel":
            without_maximum(nd["args"]["spec"])
    return spec


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(["interval", "relaxation", "relaxation", "relaxation"]))
    method = draw(st.sampled_from(INTERVAL if kind == "interval" else [m for m in M.METHODS if m != "forward-ibp"]))
    family = draw(st.sampled_from([None, None, "deep"]))
    acts = None if kind == "interval" else ["relu", "relu", "relu", "linear"]
    return {
        "kind": kind,
        "method": method,
        "slope": draw(st.sampled_from(SLOPES)),
        "domain": draw(st.sampled_from(S.DOMAINS)),
        "n": draw(st.integers(1, 3)),
        "seed": draw(st.integers(0, 10**6)),
        "model": without_maximum(draw(M.model_spec(backward=method in M.BACKWARD, acts=acts, max_layers=5, family=family))),
    }


def strategy(tier):
    return strategy_()


# ------------------------------------------------------------------ the network as a list of elementary steps
class Graph:
    """steps (kind, inputs, data), the values being flat vectors. kind: linear (A, b), act (f, name), join (f)"""

    def __init__(self, model, n_in):
        self.steps, self.size = [], [n_in]
        self.out = self.visit(model, [0])[0]

    def add(self, kind, ins, data, size):
        self.steps.append((kind, ins, data))
        self.size.append(size)
        return len(self.steps)

    def visit(self, model, ins):
        if isinstance(model, keras.Sequential):
            model = model._functional
        known = {id(t): i for t, i in zip(model.inputs, ins)}
        for depth in sorted(model._nodes_by_depth, reverse=True):
            for node in model._nodes_by_depth[depth]:
                if not node.input_tensors:
                    continue
                args = [known[id(t)] for t in node.input_tensors]
                shapes = [tuple(t.shape)[1:] for t in node.input_tensors]
                if isinstance(node.operation, (keras.Model,)):
                    outs = self.visit(node.operation, args)
                else:
                    outs = [self.layer(node.operation, args, shapes)]
                for t, i in zip(node.output_tensors, outs):
                    known[id(t)] = i
        return [known[id(t)] for t in model.outputs]

    def layer(self, layer, ins, shapes):
        def f(*ys):
            t = [keras.ops.convert_to_tensor(y.reshape((len(y),) + s).astype(O.floatx())) for y, s in zip(ys, shapes)]
            z = O.to_np(layer(t[0] if len(t) == 1 else t)).astype("float64")
            return z.reshape((len(z), -1))

        name = layer.__class__.__name__
        if name in ("Activation", "ReLU"):
            return self.activation(layer.activation.__name__ if name == "Activation" else "relu", ins)
        sizes = [int(np.prod(s)) for s in shapes]
        if name in ("Maximum", "Minimum"):
            raise Skip("built from a sum and a relu, hence looser than intervals")
        if name == "MaxPooling2D":
            return self.add("join", ins, f, f(*[np.zeros((1, k)) for k in sizes]).shape[1])
        act = None
        if getattr(layer, "activation", None) is not None and layer.activation.__name__ != "linear":
            act, layer.activation = layer.activation, keras.activations.linear
        ident = np.eye(sum(sizes))
        parts = np.split(np.concatenate([np.zeros((1, sum(sizes))), ident]), np.cumsum(sizes)[:-1], 1)
        z = f(*parts)
        i = self.add("linear", ins, ((z[1:] - z[0]).T, z[0]), z.shape[1])
        if act is not None:
            layer.activation = act
            i = self.activation(act.__name__, [i])
        return i

    def activation(self, name, ins):
        if name == "linear":
            return ins[0]
        g = getattr(keras.activations, name)
        f = lambda y: O.to_np(g(keras.ops.convert_to_tensor(y.astype(O.floatx())))).astype("float64")
        return self.add("act", ins, (f, name), self.size[ins[0]])


# ------------------------------------------------------------------ reference methods
def maximum(dom, w, b):
    """max over the domain of w.x + b. w: (n, k, d)"""
    return (dom.extremal(np.transpose(w, (1, 0, 2))) * np.transpose(w, (1, 0, 2))).sum(-1).T + b


def around(dom):
    return dom if isinstance(dom, O.Box) else O.Box(dom.center - dom.eps, dom.center + dom.eps)


def hull(u, l, slope):
    a = (np.maximum(u, 0) - np.maximum(l, 0)) / np.maximum(u - l, 1e-30)
    low = {
        "volume-slope": (u > -l) * 1.0,
        "adaptative-slope": (a > 0.5) * 1.0,
        "same-slope": a,
        "zero-lb": 0 * a,
        "one-lb": 0 * a + 1,
    }[slope]
    w_u, b_u, w_l = a, np.maximum(l, 0) - a * l, low
    dead, lin = u <= 0, l >= 0
    w_u = np.where(dead, 0.0, np.where(lin, 1.0, w_u))
    w_l = np.where(dead, 0.0, np.where(lin, 1.0, w_l))
    return w_u, np.where(dead | lin, 0.0, b_u), w_l


def pos(a):
    return np.maximum(a, 0)


def neg(a):
    return np.minimum(a, 0)


class State:
    def __init__(self, u=None, l=None, wu=None, bu=None, wl=None, bl=None):
        self.u, self.l, self.wu, self.bu, self.wl, self.bl = u, l, wu, bu, wl, bl

    def best(self, dom):
        u, l = self.u, self.l
        if self.wu is not None:
            au, al = maximum(dom, self.wu, self.bu), -maximum(dom, -self.wl, -self.bl)
            u = au if u is None else np.minimum(u, au)
            l = al if l is None else np.maximum(l, al)
        return u, l


def forward(graph, dom, mode, slope):
    n, d = dom.n, dom.d
    ibp, affine = mode != "affine", mode != "ibp"
    s = State()
    if ibp:
        box = around(dom)
        s.u, s.l = box.hi, box.lo
    if affine:
        s.wu = s.wl = np.broadcast_to(np.eye(d)[None], (n, d, d))
        s.bu = s.bl = np.zeros((n, d))
    states = [s]
    for kind, ins, data in graph.steps:
        args = [states[i] for i in ins]
        s = State()
        if mode == "hybrid":
            # every layer starts from the best of the constant and affine bounds of its inputs
            args = [State(*a.best(dom), a.wu, a.bu, a.wl, a.bl) for a in args]
        if kind == "linear":
            cat = lambda q: np.concatenate([getattr(a, q) for a in args], 1)
            A, b = data
            if ibp:
                s.u, s.l = cat("u") @ pos(A).T + cat("l") @ neg(A).T + b, cat("l") @ pos(A).T + cat("u") @ neg(A).T + b
            if affine:
                s.wu, s.wl = pos(A) @ cat("wu") + neg(A) @ cat("wl"), pos(A) @ cat("wl") + neg(A) @ cat("wu")
                s.bu, s.bl = cat("bu") @ pos(A).T + cat("bl") @ neg(A).T + b, cat("bl") @ pos(A).T + cat("bu") @ neg(A).T + b
        elif kind == "act":
            f, name = data
            u, l = args[0].best(dom)
            if ibp:
                s.u, s.l = f(u), f(l)
            if affine:
                w_u, b_u, w_l = hull(u, l, slope)
                s.wu, s.bu = w_u[..., None] * args[0].wu, w_u * args[0].bu + b_u
                s.wl, s.bl = w_l[..., None] * args[0].wl, w_l * args[0].bl
        else:
            if affine:
                raise Skip("no reference for the maximum")
            s.u, s.l = data(*[a.u for a in args]), data(*[a.l for a in args])
        states.append(s)
    return states


def backward(graph, dom, slope, bounds, target):
    """affine bounds of a value by propagation to the input of the network. bounds: function giving those of a value"""
    n, k = dom.n, graph.size[target]
    wu = wl = np.broadcast_to(np.eye(k)[None], (n, k, k))
    bu = bl = np.zeros((n, k))
    i = target
    while i > 0:
        kind, ins, data = graph.steps[i - 1]
        if len(ins) != 1 or kind == "join":
            raise Skip("not a sequence of layers")
        if kind == "linear":
            A, b = data
            bu, bl, wu, wl = bu + wu @ b, bl + wl @ b, wu @ A, wl @ A
        else:
            u, l = bounds(ins[0])
            w_u, b_u, w_l = [q[:, None] for q in hull(u, l, slope)]
            bu, bl = bu + (pos(wu) * b_u).sum(-1), bl + (neg(wl) * b_u).sum(-1)
            wu, wl = pos(wu) * w_u + neg(wu) * w_l, pos(wl) * w_l + neg(wl) * w_u
        i = ins[0]
    return State(wu=wu, bu=bu, wl=wl, bl=bl)


def reference(case, graph, dom):
    method, slope = case["method"], case["slope"]
    if method == "crown" or method.endswith("ibp"):
        # the propagation of intervals only knows the box around a ball
        dom = around(dom)
    if method.startswith("forward"):
        mode = "ibp" if case["kind"] == "interval" else method.split("-")[-1]
        return forward(graph, dom, mode, slope)[graph.out].best(dom)
    memo = {}
    if method == "crown":

        def bounds(i):
            if i not in memo:
                memo[i] = backward(graph, dom, slope, bounds, i).best(dom)
            return memo[i]
    else:
        states = forward(graph, dom, method.split("-")[-1], slope)
        bounds = lambda i: states[i].best(dom)
    return backward(graph, dom, slope, bounds, graph.out).best(dom)


def attempt(case, shake):
    model = M.build(case["model"])
    dom, domdec, x = domain({"domain": case["domain"], "n": case["n"], "seed": case["seed"]}, case["model"]["n_in"])
    if shake:
        rng = np.random.RandomState(case["seed"] + shake)
        x = x + rng.uniform(-1e-2, 1e-2, size=x.shape)
        if case["domain"] == "box":
            x = np.sort(x, 1)
            dom = O.Box(x[:, 0], x[:, 1])
        else:
            dom = O.Ball(x, dom.eps, dom.p)
    x = x.astype(O.floatx())
    graph = Graph(M.build(case["model"]), case["model"]["n_in"])
    dm = clone(model, method=case["method"], slope=case["slope"], perturbation_domain=domdec)
    mode = "ibp" if case["method"] == "crown" else case["method"].split("-")[-1]
    o = S.split_outputs(dm.predict_on_single_batch_np(x), mode)
    flat = lambda a: a.astype("float64").reshape((dom.n, -1))
    got = State()
    if mode != "affine":
        got.u, got.l = flat(o["u_c"]), flat(o["l_c"])
    if mode != "ibp":
        w = lambda a: np.transpose(a.astype("float64").reshape((dom.n, dom.d, -1)), (0, 2, 1))
        got.wu, got.bu, got.wl, got.bl = w(o["w_u"]), flat(o["b_u"]), w(o["w_l"]), flat(o["b_l"])
    u, l = got.best(dom)
    ru, rl = reference(case, graph, dom)
    t = O.tol(u, l, ru, rl) * (1 if O.floatx() == "float64" else 4)
    e = max(np.max(u - ru), np.max(rl - l))
    if not e <= t:
        return f"bounds looser by {e:.6g} than those of the reference, of width {np.max(ru - rl):.6g}", dom, graph
    return None, dom, graph


def run_case(case):
    # a relaxation may jump where several are as good: only a disagreement that survives a displacement of the domains counts
    for shake in range(4):
        why, dom, graph = attempt(case, shake)
        if why is None:
            break
    if why is not None:
        raise Violation(f"{case['kind']} {case['method']} {case['slope']} {case['domain']}: {why}")
    acts = sum(k != "linear" for k, _, _ in graph.steps)
    return {
        "nontrivial": acts > 0 and bool(np.any(dom.radius > 0)),
        "labels": M.labels(case["model"]) + ["kind:" + case["kind"], case["method"], "slope:" + case["slope"], "domain:" + case["domain"], f"shaken:{shake}"],
    }


def classify(case):
    return "/".join([case["kind"], case["method"], case["model"]["family"]])
