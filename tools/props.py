"""Definitions of the properties; writes properties.jsonl and MANIFEST.json (run after any change)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt.config import CONFIG  # noqa: E402

PROPS = []


def prop(pid, title, statement, over, quant, why, files, mechanism, technique, note):
    PROPS.append(
        dict(
            technique=technique,
            note=note,
            json=dict(
                id=pid,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=quant),
                why_tests_cant=why,
                anchors=dict(
                    files=["src/decomon/" + f for f in files],
                    mechanism=[dict(name=n, where="src/decomon/" + w) for n, w in mechanism],
                ),
            ),
        )
    )


prop(
    "C01",
    "Converted networks give sound bounds on every box",
    "For every supported Keras network, weights, conversion method, slope and final output mode, the constant upper and "
    "lower bounds computed by the converted model enclose the outputs of the network at every point of the given input "
    "box, for every box of the batch.",
    ["programs", "inputs", "configurations"],
    "every network of supported layers (sequential, functional, nested, shared layers, merges, images), every box batch, "
    "method in {ibp, forward-*, crown*}, slope strategy, backend and float precision",
    "Tests convert a handful of small fixed networks with fixed weights and boxes; soundness is a claim over all "
    "architectures, weights and boxes, and most defects need a particular combination (shared layer under crown, "
    "multi-dimensional intermediate layer, bounds exactly at 0).",
    ["models/convert.py", "models/forward_cloning.py", "models/backward_cloning.py", "models/crown.py", "core.py"],
    [
        ("forward propagation", "models/forward_cloning.py"),
        ("backward (CROWN) propagation", "models/backward_cloning.py"),
        ("conversion driver", "models/convert.py:clone"),
    ],
    "property-based testing (hypothesis): generated networks and boxes, sampling + local search oracle against the Keras model",
    "Random exploration: networks of <= ~6 nodes and small widths, points of the box sampled at corners, faces, "
    "gradient-extremal points and refined by local search. A violation is a concrete network, box and point.",
)
prop(
    "C02",
    "Affine bounds enclose the network at every point",
    "When a converted model returns affine bounds, at every point of the input domain the affine upper bound evaluated at "
    "that point is above the network output and the affine lower bound is below it; the returned domain is the one that was given.",
    ["programs", "inputs", "configurations"],
    "every supported network, box or Lp ball, method, slope and output mode containing affine bounds",
    "Tests check affine bounds on a few fixed one-dimensional inputs; a wrong coefficient is compensated by the bias at "
    "most sampled points and shows only at particular corners of particular domains.",
    ["models/convert.py", "models/crown.py", "backward_layers/utils.py", "layers/decomon_layers.py", "utils.py"],
    [
        ("linear relaxations", "utils.py"),
        ("composition of affine bounds", "backward_layers/utils.py:merge_with_previous"),
        ("final mode conversion", "models/forward_cloning.py"),
    ],
    "property-based testing (hypothesis): pointwise affine enclosure over sampled domain points, differential against the Keras model",
    "Random exploration of networks, domains and points; the enclosure is checked pointwise, which is stronger than the "
    "concretised constants.",
)
prop(
    "C03",
    "Bounds are sound on Lp balls, whatever the history of domain changes",
    "For balls of norm 1, 2 and infinity the constant and affine bounds enclose the network on every ball, also after the "
    "domain of a converted model was changed any number of times, and the functions bounding a network under noise of a "
    "given norm and size enclose every noisy output.",
    ["programs", "inputs", "histories", "configurations"],
    "every supported network, norm in {1, 2, inf}, radius, centers and sequence of domain changes",
    "Tests use one or two radii on fixed networks and hardly ever change the domain of a model after conversion.",
    ["core.py", "models/models.py", "wrapper.py", "models/utils.py"],
    [
        ("domain concretisation", "core.py:BallDomain"),
        ("changing the domain", "models/models.py:DecomonModel.set_domain"),
        ("noise API", "wrapper.py:get_range_noise"),
    ],
    "stateful property-based testing (hypothesis): histories of domain changes, sampling oracle on Lp balls",
    "Random exploration; points of the balls: center, sphere, vertices, gradient-extremal points, local search.",
)
prop(
    "C04",
    "Box bounding functions: sound, whatever sub-boxes, batches and refinement",
    "The functions returning the upper bound, the lower bound or the range of a network over boxes enclose its outputs on "
    "every box, do not depend on how the boxes are cut into mini-batches, and stay sound when each box is split into "
    "sub-boxes or refined; box refinement returns sub-boxes that cover the original box exactly.",
    ["programs", "inputs", "configurations"],
    "every network, batch of boxes, batch size, number of sub-boxes and refinement strategy",
    "Tests use one box split and compare few points on fixed one-dimensional functions.",
    ["wrapper.py"],
    [
        ("bounds over boxes", "wrapper.py:get_range_box"),
        ("splitting", "wrapper.py:refine_boxes"),
        ("greedy refinement", "wrapper.py:refine_box"),
    ],
    "property-based testing (hypothesis): sampling oracle, batch-split metamorphic relation, covering check of sub-boxes",
    "Random exploration of networks, boxes, batch sizes and splits.",
)
prop(
    "C05",
    "A robustness certificate excludes every adversarial example",
    "The adversarial score of a box or of a noisy sample bounds, on the whole domain, the largest gap between a target class "
    "score and a source class score: when it is negative, no point of the domain gets a target class score above a source "
    "class score; a positive existence score means that an adversarial example does exist; the "
    "scores do not depend on mini-batching.",
    ["programs", "inputs", "configurations"],
    "every network, domain, source and target label masks (one or several classes), batch size and norm",
    "Tests check one source class on fixed networks; masks with several targets, several sources, labels per sample, "
    "batches and norms interact.",
    ["wrapper.py"],
    [
        ("adversarial score on a box", "wrapper.py:get_adv_box"),
        ("existence of an adversarial example", "wrapper.py:check_adv_box"),
        ("noise certificate", "wrapper.py:get_adv_noise"),
    ],
    "property-based testing (hypothesis): sampled attack + local search against the certificate",
    "Random exploration; an attack by sampling and local search tries to contradict each certificate.",
)
prop(
    "C06",
    "Activation relaxations enclose the function on every interval",
    "For every activation, slope strategy and pre-activation interval, including degenerate, one-sided, huge and "
    "zero-touching intervals, the linear upper and lower bounds enclose the activation on the whole interval, in forward "
    "and in backward propagation and in every mode.",
    ["inputs", "configurations"],
    "every interval [l, u] and, for the layers, every abstract state (mode, domain, affine and constant bounds)",
    "Tests sample a few intervals; the relaxations switch between cases depending on signs, tangency points and equality of bounds.",
    ["utils.py", "layers/activations.py", "backward_layers/activations.py"],
    [
        ("hulls", "utils.py:get_linear_hull_relu, get_linear_hull_s_shape, get_linear_softplus_hull"),
        ("forward", "layers/activations.py"),
        ("backward", "backward_layers/activations.py"),
    ],
    "property-based testing (hypothesis): generated intervals and abstract states, dense grid of each interval against the real function",
    "Random exploration; each interval is swept by a dense grid refined at its ends.",
)

# ------------------------------------------------------------------------------------------------ more below
exec(open(os.path.join(HERE, "tools", "props_more.py")).read())

NOT_APPLICABLE = []


def main():
    claimed = [p for p in PROPS if p["json"]["id"] in CONFIG]
    missing = [k for k in CONFIG if k not in [p["json"]["id"] for p in PROPS]]
    assert not missing, missing
    claimed.sort(key=lambda p: p["json"]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in claimed:
            f.write(json.dumps(p["json"]) + "\n")
    manifest = dict(
        version=1,
        setup_cmd="./setup.sh",
        checks=[
            dict(
                property=p["json"]["id"],
                quick_cmd=f"./check.sh {p['json']['id']} quick",
                thorough_cmd=f"./check.sh {p['json']['id']} thorough",
                technique=p["technique"],
                level="exploration",
                level_note=p["note"],
            )
            for p in claimed
        ],
        not_applicable=NOT_APPLICABLE,
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")
    print([p["json"]["id"] for p in claimed])


main()
