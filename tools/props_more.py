# further properties

prop(
    "C07",
    "Forward layers are sound on every abstract state",
    "Each bound-propagating layer with a single input, given any consistent input bounds (constant, affine or both, on a box or "
    "a ball) on its input, returns bounds that enclose the original layer's output for every point of the domain and every "
    "input value allowed by the given bounds.",
    ["inputs", "configurations"],
    "every layer type, layer configuration and weights, propagation mode, domain and input bounds",
    "Tests feed layers with a dozen of fixed bounds, mostly exact; defects need non-square kernels, padding, other data "
    "formats, loose affine bounds, or Lp balls.",
    ["layers/decomon_layers.py", "layers/decomon_reshape.py", "layers/maxpooling.py", "layers/activations.py", "layers/utils.py"],
    [
        ("layers", "layers/decomon_layers.py"),
        ("max pooling", "layers/maxpooling.py"),
        ("building from a Keras layer", "layers/convert.py:to_decomon"),
    ],
    "property-based testing (hypothesis): generated abstract states, concretisation samples against the Keras layer",
    "Random exploration; each state is concretised at its extremal and random points, and each output is compared with the Keras layer.",
)

prop(
    "C08",
    "Merging layers are sound on every combination of abstract states",
    "Each bound-propagating layer merging several inputs, given consistent bounds on each of them over a common domain, returns "
    "bounds that enclose the original layer's output for every point of the domain and every combination of values allowed "
    "by the given bounds.",
    ["inputs", "configurations"],
    "every merge layer, number of inputs, axes, shapes, propagation mode, domain and input bounds",
    "Tests merge an input with itself, on the last axis only, with exact bounds: the combinations where inputs reach "
    "opposite bounds, other axes and negative axes are never run.",
    ["layers/decomon_merge_layers.py", "layers/utils.py", "utils.py"],
    [
        ("merge layers", "layers/decomon_merge_layers.py"),
        ("product relaxation", "layers/utils.py:multiply"),
        ("maximum and minimum", "utils.py:maximum, minimum"),
    ],
    "property-based testing (hypothesis): generated abstract states, concretisation samples against the Keras layer",
    "Random exploration; inputs are concretised independently within their bounds.",
)
prop(
    "C09",
    "Backward layers and the composition of their bounds are sound",
    "Each backward layer returns affine bounds, as functions of the flattened input of the original layer, that enclose its "
    "flattened output for every input value allowed by the given input bounds (exactly for linear layers); for merging layers "
    "this holds for the bounds returned for each input; composing bounds with those of the previous layer and turning them "
    "into constants over the domain keeps them sound and loses nothing beyond the composition itself.",
    ["inputs", "configurations"],
    "every backward layer, configuration, weights, mode, domain, slope, input bounds and incoming backward bounds",
    "Tests compare backward bounds on a dozen of fixed one-dimensional or tiny image inputs with exact bounds; layouts "
    "(kernel, stride, data format, axis, rank), loose bounds and diagonal or sign-mixed matrices are not varied.",
    ["backward_layers/backward_layers.py", "backward_layers/backward_merge.py", "backward_layers/utils.py", "models/crown.py",
     "backward_layers/utils_conv.py", "backward_layers/activations.py"],
    [
        ("backward layers", "backward_layers/backward_layers.py"),
        ("backward merges", "backward_layers/utils.py"),
        ("composition", "models/crown.py:merge_with_previous"),
    ],
    "property-based testing (hypothesis): generated abstract states and backward bounds, concretisation samples against the Keras layer",
    "Random exploration; backward concatenation, dot and max pooling are documented as not implemented and excluded.",
)
prop(
    "C10",
    "Optimising an affine function over a domain is exact",
    "On a box and on balls of norm 1, 2 and infinity, the upper and lower values of any affine function returned by a domain are its "
    "exact maximum and minimum; with extra bounds cutting a ball they stay sound for every splitting parameter; the constant bounds deduced "
    "from a state are the best of its constants and of its affine bounds, for each merged input.",
    ["inputs", "configurations"],
    "every domain, dimension, coefficient tensor of any rank (mixed signs, zeros), bias, batch and propagation mode",
    "Tests use boxes in one or two dimensions and never compare a ball with its closed-form optimum; a dropped sign, a wrong dual norm or "
    "a wrong axis is only visible for mixed signs in higher dimensions.",
    ["core.py"],
    [
        ("box", "core.py:get_upper_box, get_lower_box"),
        ("ball", "core.py:get_upper_ball, get_lower_ball, get_lq_norm"),
        ("constants of a state", "core.py:InputsOutputsSpec"),
    ],
    "property-based testing (hypothesis): differential against the vertices of the domain / the dual norm in numpy",
    "Random exploration with an exact oracle (enumeration of vertices, or closed form for the 2-norm).",
)

prop(
    "C11",
    "Bounds are exact where nothing has to be relaxed",
    "On a domain reduced to a point (network of relu, sigmoid, tanh, softsign activations) upper and lower bounds equal the "
    "prediction; for an affine network, or a relu network on a domain where every relu is stable, affine-capable methods return "
    "the exact extrema over the domain, attained in it; hybrid forward bounds are never looser than interval ones.",
    ["inputs", "configurations"],
    "every network of those classes, method, domain, slope",
    "A sound but needlessly loose bound passes every enclosure test of the suite; the loss only shows against the exact extrema.",
    ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "core.py", "utils.py", "layers/decomon_layers.py", "backward_layers/backward_layers.py"],
    [
        ("conversion", "models/convert.py:clone"),
        ("concretisation", "core.py:get_upper_box, get_lower_box, get_upper_ball, get_lower_ball"),
        ("linear hulls", "utils.py:get_linear_hull_relu"),
    ],
    "property-based testing (hypothesis): differential against exact extrema computed from the composed affine map of the network",
    "Random exploration; extrema are obtained from the Keras gradients, stability from an interval arithmetic of the harness.",
)

prop(
    "C12",
    "Interval bounds are monotone: a smaller domain never gets looser bounds",
    "With interval propagation, bounds over a domain included in another one (nested boxes, nested balls, sub-boxes of a "
    "split, refined boxes) are never looser than the bounds over the larger domain.",
    ["inputs", "histories"],
    "every network, pair of nested domains, number of splits",
    "Tests evaluate one box at a time; a branch & bound user relies on monotonicity over every chain of boxes.",
    ["models/forward_cloning.py", "layers/decomon_layers.py", "layers/utils.py", "utils.py", "wrapper.py", "core.py"],
    [
        ("interval propagation", "layers/decomon_layers.py"),
        ("refinement", "wrapper.py:refine_box"),
        ("domains", "core.py:BoxDomain, BallDomain"),
    ],
    "property-based testing (hypothesis): metamorphic relation over chains of nested domains",
    "Random exploration.",
)

prop(
    "C13",
    "Conversion leaves the network as it was, and follows its weights",
    "Converting, evaluating, freezing or querying the range of a network never changes its predictions, weights, configuration, "
    "layer names or trainability; after any change of its weights an already converted network returns the bounds a new "
    "conversion would; preprocessing keeps the function and shares the weights; a final softmax is bounded through its logits.",
    ["histories", "configurations"],
    "every network and every history of conversions, weight changes, evaluations, freezing, finetuned conversions",
    "Tests convert once and look at bounds only; side effects on the given model and stale weights need histories.",
    ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "layers/decomon_layers.py", "layers/convert.py", "layers/utils.py", "models/models.py", "backward_layers/backward_layers.py"],
    [
        ("preprocessing", "models/convert.py:preprocess_keras_model, split_activations_in_keras_model"),
        ("weight sharing", "layers/decomon_layers.py:share_weights"),
        ("softmax", "layers/utils.py:softmax_to_linear"),
    ],
    "property-based testing (hypothesis): model-based histories, snapshot of the network and differential against a new conversion",
    "Random exploration of histories of up to 8 steps.",
)

prop(
    "C14",
    "Final modes of the bounds agree with each other",
    "Whatever final mode is asked (final_ibp / final_affine), a conversion announces it, returns that many tensors, and the "
    "constant and affine bounds are the same in every mode: constants are the extrema of the affine bounds over the domain "
    "(or better if constants were propagated as well), and get_range_box, get_upper_box, get_lower_box, get_range_noise agree.",
    ["configurations", "inputs"],
    "every network, method, slope, domain and final mode",
    "Tests check shapes or the enclosure of one mode at a time; a mode that quietly drops or swaps a bound is still an enclosure.",
    ["models/convert.py", "models/forward_cloning.py", "models/utils.py", "models/models.py", "core.py", "wrapper.py"],
    [
        ("change of mode", "models/utils.py:Convert2Mode, convert_outputs_to_mode"),
        ("constants from affine bounds", "core.py:PerturbationDomain.get_upper, get_lower"),
        ("ranges", "wrapper.py:get_range_box, get_upper_box, get_lower_box, get_range_noise"),
    ],
    "property-based testing (hypothesis): differential between the modes and against extrema of affine functions computed in numpy",
    "Random exploration.",
)

prop(
    "C15",
    "Bounds of a linear objective of the outputs are sound",
    "A conversion given back_bounds (a matrix of coefficients, or an affine upper and lower objective) returns, with every method "
    "and final mode, sound bounds of the objective over the domain, for any value of the coefficients; the identity objective "
    "gives the bounds of the conversion without objective.",
    ["inputs", "configurations"],
    "every network, method, slope, domain, objective",
    "Tests feed one objective and look at shapes; a sign or transposition error shows only for some coefficients.",
    ["models/convert.py", "models/backward_cloning.py", "models/utils.py", "models/crown.py", "backward_layers/backward_layers.py", "backward_layers/backward_merge.py"],
    [
        ("objective", "models/convert.py:convert, clone"),
        ("composition", "models/crown.py:Fuse, MergeForwardWithBackBounds, merge_with_previous"),
        ("backward propagation", "models/backward_cloning.py:crown_model"),
    ],
    "property-based testing (hypothesis): enclosure of the objective at sampled and extremal points, differential with the identity objective",
    "Random exploration; enclosure is checked at a finite number of points.",
)

prop(
    "C16",
    "Finetuning parameters never make bounds unsound",
    "With finetuning parameters of any value in [0, 1], bounds stay sound; their initial value and reset_finetuning give the bounds "
    "of a conversion without them; they are projected to [0, 1]; freezing them takes all of them and nothing else out of the "
    "trainable weights; optimising them through the losses leaves the (frozen) network as it was.",
    ["histories", "inputs"],
    "every network, method, domain, value of the parameters and history of changes",
    "Tests only convert with finetune=True and keep the initial value; parameters in the interior appear only after optimisation.",
    ["layers/decomon_layers.py", "backward_layers/backward_layers.py", "backward_layers/utils.py", "utils.py", "layers/utils.py", "models/models.py", "metrics/loss.py", "wrapper_with_tuning.py"],
    [
        ("parameters", "layers/decomon_layers.py:DecomonActivation, backward_layers/backward_layers.py:BackwardActivation"),
        ("relaxation with parameters", "utils.py:relu_, backward_layers/utils.py:backward_relu_"),
        ("reset, freezing", "models/models.py:DecomonModel"),
    ],
    "property-based testing (hypothesis): model-based histories, enclosure at sampled and extremal points, differential against a conversion without finetuning",
    "Random exploration of histories of up to 5 steps. Known findings: get_*_box_tuning and freeze_weights do not work with Keras 3.",
)

prop(
    "C17",
    "A layer rebuilt from its configuration computes the same bounds",
    "Any decomon layer (forward, merge, backward, composition, mode conversion) or domain rebuilt by from_config(get_config()), "
    "with the same weights, has the same configuration and the same outputs on every input, hence stays sound.",
    ["configurations", "inputs"],
    "every layer class, configuration, mode, domain and abstract state",
    "Tests look at the presence of keys in get_config, never rebuild a layer; a parameter left out falls back silently on its default.",
    ["layers/core.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "layers/decomon_reshape.py", "layers/maxpooling.py", "backward_layers/core.py", "backward_layers/backward_layers.py", "backward_layers/backward_merge.py", "models/crown.py", "models/utils.py", "core.py"],
    [
        ("forward layers", "layers/core.py:DecomonLayer"),
        ("backward layers", "backward_layers/core.py:BackwardLayer"),
        ("domains", "core.py:PerturbationDomain, BallDomain"),
    ],
    "property-based testing (hypothesis): round trip through the configuration, differential with the original layer and enclosure oracle",
    "Random exploration. Known finding: a whole converted model cannot be rebuilt from its configuration.",
)

prop(
    "C18",
    "The difference of convex functions carried by a propagation is one, and equals the network",
    "With dc_decomp=True, the pair (h, g) propagated beside the bounds satisfies h + g = f everywhere on the domain, h is convex and g "
    "is concave in the input along any segment, and asking for the pair leaves the bounds as they are without it.",
    ["inputs", "configurations"],
    "every chain of dense, convolution, relu, reshaping layers and of sum, difference, maximum, minimum, every mode, domain, pair of points",
    "Tests check h + g at the corners of a few states and never convexity; an exchange of the parts for negative weights keeps the sum right.",
    ["layers/decomon_layers.py", "layers/decomon_reshape.py", "layers/utils.py", "utils.py"],
    [
        ("affine layers", "layers/decomon_layers.py:DecomonDense, DecomonConv2D"),
        ("relu", "utils.py:relu_"),
        ("operators", "utils.py:add, minus, subtract, maximum, minimum"),
    ],
    "property-based testing (hypothesis): value oracle, midpoint convexity along segments of the domain, differential with dc_decomp=False",
    "Random exploration; convexity is checked at a finite number of points of a segment.",
)

prop(
    "C19",
    "Training losses and metrics over bounds dominate their true value on the whole domain",
    "The losses (get_upper_loss, get_lower_loss, get_adv_loss), the fused models (cross-entropy, asymptotic, radius) and the metrics "
    "(AdversarialScore, UpperScore) computed from the bounds of a converted network are at least the same quantity computed from the "
    "network at every point of the domain, for every mode, label, asymptote and weighting.",
    ["inputs", "configurations"],
    "every network, method, final mode, domain, label, point of the domain",
    "Tests compile the models and look at shapes or at one comparison; a loss which underestimates trains an unsound network silently.",
    ["metrics/loss.py", "metrics/utils.py", "metrics/metric.py"],
    [
        ("losses", "metrics/loss.py:get_upper_loss, get_lower_loss, get_adv_loss"),
        ("fused models", "metrics/loss.py:build_crossentropy_model, build_asymptotic_crossentropy_model, build_radius_asymptotic_model"),
        ("metrics", "metrics/metric.py:AdversarialScore, UpperScore"),
    ],
    "property-based testing (hypothesis): enclosure of the numpy value of the loss at sampled and extremal points of the domain",
    "Random exploration. Known findings: the three build_formal_* models always raise. AdversarialCheck has no documented value and is left out.",
)

prop(
    "C20",
    "Every operator of the library of relaxed operations is sound, on every axis",
    "add, subtract, multiply, maximum, minimum, max_, min_, sum, sort, split, permute_dimensions, broadcast, expand_dims, minus, abs, exp, "
    "pow, log, frac_pos(_hull), softplus_, relu_ and categorical_cross_entropy, applied to sound bounds of their operands in any mode, "
    "return sound bounds of the operation applied to the operands, on any axis, positive or negative.",
    ["inputs", "configurations"],
    "every operator, shape, axis, mode, domain and abstract state",
    "Tests run most operators on one flat toy state and the last axis; list-valued arguments and affine modes are mostly not run.",
    ["layers/utils.py", "utils.py", "metrics/utils.py", "core.py"],
    [
        ("operators", "layers/utils.py"),
        ("relaxations", "utils.py:add, subtract, maximum, minimum, max_, min_"),
        ("cross-entropy", "metrics/utils.py:categorical_cross_entropy"),
    ],
    "property-based testing (hypothesis): abstract states generated with known witnesses, enclosure of the numpy value of the operator",
    "Random exploration; enclosure is checked at a finite number of points.",
)

prop(
    "C21",
    "The answer for one domain does not depend on the rest of the batch",
    "Bounds, verdicts, adversarial scores, noise bounds, fused losses and objectives computed for one row of a batch of domains do not "
    "change when the batch is permuted, cut, or has rows repeated or alone, whether or not boxes are subdivided.",
    ["inputs", "histories"],
    "every network, method, entry point, domain, batch and way of cutting it",
    "Tests use one fixed batch; a reduction on the wrong axis or a mask shared between rows shows only by comparing batches.",
    ["wrapper.py", "core.py", "utils.py", "layers/decomon_layers.py", "layers/maxpooling.py", "backward_layers/backward_layers.py", "backward_layers/utils.py", "metrics/loss.py", "models/utils.py"],
    [
        ("entry points", "wrapper.py"),
        ("concretisation", "core.py:get_upper, get_lower"),
        ("relaxations", "utils.py, backward_layers/utils.py"),
    ],
    "property-based testing (hypothesis): metamorphic relation between the batch and permuted, cut or duplicated batches",
    "Random exploration; ties of a discontinuous slope choice are separated by shaking the weights before a difference is reported.",
)

prop(
    "C22",
    "Bounds are at least as tight as an independent implementation of the method",
    "Interval methods are no looser than interval arithmetic, linear relaxation methods (forward-affine, hybrid, crown and its variants) no "
    "looser than the textbook forward or backward propagation with the documented slopes of relu, written in numpy.",
    ["inputs", "configurations"],
    "every network of the supported layers, method, slope and domain",
    "Loose bounds are still sound, so no enclosure test sees them; a relaxation which silently falls back on intervals loses the precision users pay for.",
    ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "backward_layers/backward_layers.py", "backward_layers/utils.py", "utils.py", "core.py"],
    [
        ("slopes", "utils.py:get_linear_hull_relu, relu_"),
        ("backward", "backward_layers/backward_layers.py, models/crown.py"),
        ("refinement by affine bounds", "models/backward_cloning.py:crown_model"),
    ],
    "property-based testing (hypothesis): one-sided differential against a reference implementation in numpy",
    "Random exploration; about 2 % of the cases (pooling in affine modes) have no reference and are skipped.",
)

prop(
    "C23",
    "A decomon layer in a Keras graph announces its shapes and gives the values of its direct call",
    "Forward, merge and backward layers called on symbolic tensors announce the shapes (compute_output_shape included) that a direct call "
    "returns, and the model so built computes the same bounds as the direct call.",
    ["configurations", "inputs"],
    "every layer class, configuration, mode, domain and shape",
    "Tests build some graphs and compare numbers to bounds, not announced shapes to actual ones; a wrong announced shape breaks the next layer only.",
    ["layers/core.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "layers/decomon_reshape.py", "layers/maxpooling.py", "backward_layers/core.py", "backward_layers/backward_layers.py", "keras_utils.py"],
    [
        ("forward shapes", "layers/core.py:DecomonLayer.compute_output_shape"),
        ("backward shapes", "backward_layers/core.py:BackwardLayer.compute_output_shape"),
    ],
    "property-based testing (hypothesis): differential between symbolic and direct use",
    "Random exploration. Backward merge layers are only used directly.",
)

prop(
    "C24",
    "A network is either refused or bounded soundly, whatever its layers",
    "For every Keras network - any built-in layer, configuration of a layer (data format, padding, dilation, groups, axes, normalization), "
    "activation (name, function or layer), operator on tensors or subclass - and every conversion method, the conversion (or the first "
    "prediction) either raises an exception or gives bounds that enclose the network on the domain; it never returns silently bounds of "
    "another network, and in both cases it leaves the given network unchanged.",
    ["configurations", "inputs"],
    "every network that Keras accepts on a vector reshaped to any rank, every method, slope and domain",
    "The tests convert a few supported layers in their usual configuration; an option that is read by Keras and ignored by the conversion "
    "gives bounds of another function without any error.",
    ["layers/convert.py", "backward_layers/convert.py", "models/convert.py", "models/utils.py", "models/forward_cloning.py", "models/backward_cloning.py", "layers/decomon_layers.py", "layers/decomon_merge_layers.py", "backward_layers/backward_layers.py"],
    [
        ("refusal of unknown layers", "layers/convert.py:_to_decomon_wo_input_init"),
        ("refusal of unknown backward layers", "backward_layers/convert.py:to_backward"),
        ("activations", "layers/activations.py:get"),
    ],
    "property-based testing (hypothesis): random networks including unsupported layers, differential against the Keras network",
    "Random exploration. Layers of a final softmax are excluded (dropped by the conversion, as documented), as well as layers called with "
    "training=True and classes of the user named as a Keras class. Known finding: a function of the user named as a Keras activation.",
)

prop(
    "C25",
    "Bounds are differentiable",
    "The bounds of a converted model can be differentiated automatically with respect to the weights of the network, the finetuning "
    "parameters and the domain: gradients are finite, on every network and domain (null weights, ties, domains reduced to a point "
    "included), and where the bounds are smooth they are the derivatives of the bounds as computed.",
    ["inputs", "configurations"],
    "every network, method, slope, domain, final mode and differentiation variable",
    "The documentation promises an automatically differentiable implementation; the tests never differentiate bounds. A detached tensor, a "
    "copied weight or an unsafe division leaves all values right and makes certified training silently wrong.",
    ["core.py", "utils.py", "layers/decomon_layers.py", "layers/activations.py", "backward_layers/backward_layers.py", "models/convert.py", "models/crown.py"],
    [
        ("norm of slopes", "core.py:get_lq_norm"),
        ("relaxation of relu", "utils.py:get_linear_hull_relu"),
        ("shared weights", "layers/core.py:DecomonLayer.share_weights"),
    ],
    "property-based testing (hypothesis): differential between automatic and numerical differentiation",
    "Random exploration. Values are compared in double precision, at points where left and right derivatives agree, for weights without ties; with ties, only finiteness is checked.",
)
