"""Sizes of the checks: count = cases per torch shard, budget = soft time budget (s) per shard."""
CONFIG = {}


def reg(pid, quick, thorough, rule, assumptions=(), **kw):
    CONFIG[pid] = dict(
        quick=dict(count=quick[0], budget=quick[1]),
        thorough=dict(count=thorough[0], budget=thorough[1]),
        rule=rule,
        assumptions=list(assumptions),
        **kw,
    )


reg("C01", (260, 60), (2500, 600),
    "random Keras models (structured grammar: families mlp, merge, shared, nested, reshape, image), weights, method, "
    "slope, final mode and boxes; non-trivial: the model has at least one non-linear node and one box of positive width")
reg("C06", (2700, 45), (20000, 600),
    "hull functions over generated pre-activation intervals, and forward/backward activation layers over generated "
    "abstract states (all modes, box and Lp-ball domains); non-trivial: an interval of positive width, or a non-linear activation")
reg("C07", (700, 60), (8000, 600),
    "forward layers (dense, convolution, pooling, batch normalisation, dropout, reshape, permute, flatten, activations) with "
    "random configuration and weights, fed with generated abstract states (mode, domain, affine and constant bounds); "
    "non-trivial: a state which is not a single function")
reg("C08", (620, 60), (7000, 600),
    "merge layers (add, subtract, average, maximum, minimum, concatenate, multiply, dot) with 2 to 4 inputs of random shapes, fed "
    "with generated abstract states sharing the same domain; non-trivial: inputs which are not exact, and not a concatenation")
reg("C09", (580, 60), (8000, 600),
    "backward layers (dense, convolution, batch normalisation, dropout, reshape, permute, flatten, input, activations, merges) fed "
    "with generated abstract states, and composition / concretisation of random backward bounds; non-trivial: a state which is "
    "not a single function, or a composition")
reg("C10", (2450, 45), (20000, 600),
    "random affine functions of any rank over boxes and balls, ball cuts with splitting parameters, and abstract states; "
    "non-trivial: an affine function which is not constant")
reg("C02", (210, 60), (2500, 600),
    "random networks (as C01), affine-capable methods, final mode, box or Lp ball, one or two outputs; affine bounds checked pointwise; "
    "non-trivial: a non-linear network on a domain of positive size")
reg("C03", (110, 60), (2000, 600),
    "histories of evaluations, domain changes and noise queries over one or two models converted from a same ball; non-trivial: a "
    "non-linear network, at least one change and one evaluation")
reg("C04", (110, 60), (2500, 600),
    "random networks and Keras models, boxes, batch sizes, numbers of sub-boxes, refinement (random or greedy), and box splitting alone; "
    "non-trivial: a non-linear network on a box of positive width, cut, batched or refined")
reg("C05", (140, 60), (3000, 600),
    "random networks with 2 to 4 classes, masks of source and target classes, boxes (default, linear-objective and refined scores) and "
    "noisy samples; non-trivial: a non-linear network on a domain of positive size")
reg("C11", (220, 60), (3500, 600),
    "random networks on domains reduced to a point, affine networks (any domain), relu networks on a domain where every relu is stable "
    "(decided by interval arithmetic of the harness), and hybrid against interval bounds; non-trivial: a non-linear network or an affine "
    "network on a domain of positive size")
reg("C12", (260, 60), (3000, 600),
    "random networks; nested boxes and chains of them, nested balls (radius, norm), sub-boxes and refinement, all with interval "
    "propagation; non-trivial: a non-linear network on a box of positive width")
reg("C13", (90, 60), (2200, 600),
    "random networks (with or without a final softmax, nested or not) and histories of conversions, evaluations, weight changes, "
    "freezing, finetuned conversions and range queries; preprocessing functions; non-trivial: a non-linear network whose weights "
    "are changed between a conversion and an evaluation, or a network with activations to split")
reg("C14", (120, 60), (2500, 600),
    "mode conversions of random bound states (direct or symbolic) and random networks converted with every final mode, affine-capable "
    "or not, box or Lp ball, one or two outputs; non-trivial: a change of mode of bounds that are not exact, or a non-linear network "
    "on a domain of positive size")
reg("C15", (180, 60), (2500, 600),
    "random networks with a linear objective of the outputs (matrix, pair of affine functions, identity), every method and final mode, "
    "with and without finetuning parameters; non-trivial: a non-linear network on a domain of positive size")
reg("C16", (90, 60), (2200, 600),
    "histories over a converted network with finetuning parameters: values in [0, 1], reset, freezing, projection, optimisation, weight "
    "changes; non-trivial: a non-linear network on a domain of positive size and a change of parameters")
reg("C17", (440, 60), (5000, 600),
    "forward, merge, backward layers (as C07, C08, C09) rebuilt from their configuration, with the same weights, then run on generated "
    "abstract states; layers composing bounds, mode conversions, activations with finetuning parameters, domains; non-trivial: bounds "
    "that are not exact")
reg("C18", (330, 60), (4000, 600),
    "chains of layers (dense, convolution, relu, linear, dropout, reshape, permute, flatten) and operators (sum, difference, opposite, "
    "maximum, minimum) carrying a difference of convex functions, in all modes and domains; non-trivial: at least one relu, maximum or minimum")
reg("C19", (130, 60), (2500, 600),
    "losses, fused models and metrics over random converted networks or abstract states, labels, asymptotes, one or several boxes or "
    "balls; non-trivial: a non-linear network on a domain of positive size, or a state which is not exact")
reg("C20", (600, 60), (8000, 600),
    "operators on one, two or several generated abstract states, every axis, mode and domain; non-trivial: a state which is not exact")
reg("C21", (100, 60), (2000, 600),
    "random networks and batches of 2 to 5 domains, against permuted, cut, duplicated and single rows, for the converted model and every "
    "entry point; non-trivial: a non-linear network on domains of positive size")
reg("C22", (210, 60), (3000, 600),
    "random networks of interval-supported layers, or of linear and relu layers, against a numpy reference of the method; non-trivial: a "
    "non-linear network on a domain of positive size")
reg("C23", (330, 60), (3000, 600),
    "forward, merge and backward layers (as C07, C08, C09) on symbolic tensors and directly; non-trivial: bounds that are not exact")
reg("C24", (230, 60), (6000, 600),
    "random networks of supported and unsupported Keras layers, operators, activations (name, function, layer) and configurations, every "
    "method; converted networks are checked for soundness, refused ones for being left unchanged; non-trivial: a domain of positive size")
reg("C25", (105, 60), (3000, 600),
    "random networks, methods, slopes, domains and final modes, with and without finetuning parameters; automatic gradients of a random "
    "combination of the bounds against finite differences (float64); non-trivial: a non-linear network on a domain of positive size")
