"""Driving one check in one process: hypothesis generation, shrinking, classification."""
import hashlib
import json
import os
import time
import traceback

from . import boot


class Violation(Exception):
    """The property does not hold for this case."""


class Skip(Exception):
    """The generated case is outside of the domain of the property (counted apart)."""


class Expected(Exception):
    """raised by a check to say: this configuration is documented as not implemented and was cleanly rejected"""


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def from_decomon(exc) -> bool:
    """Does the traceback of exc go through decomon's code?"""
    src = os.path.realpath(boot.SRC) + os.sep
    e = exc
    while e is not None:
        for frame, _ in traceback.walk_tb(e.__traceback__):
            if os.path.realpath(frame.f_code.co_filename).startswith(src):
                return True
        e = e.__cause__ or e.__context__
    return False


def execute(check, case):
    """Run one case. Returns (status, info): ok | skip | violation | error"""
    import numpy as np

    np.random.seed(0)
    try:
        info = check.run_case(case) or {}
        return "ok", info
    except Skip as e:
        return "skip", {"why": str(e)}
    except Violation as e:
        return "violation", {"message": str(e)}
    except MemoryError:
        raise
    except Exception as e:  # noqa
        if from_decomon(e):
            tb = traceback.format_exc()
            return "violation", {"message": f"unexpected exception {type(e).__name__}: {str(e)[:400]}", "traceback": tb[-3000:]}
        return "error", {"message": traceback.format_exc()[-4000:]}


class _Found(Exception):
    pass


class Stats:
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []
        self.skips = 0
        self.truncated = 0

    def record(self, case, status, info):
        self.evaluations += 1
        if status == "skip":
            self.skips += 1
            k = "skip:" + info.get("why", "")[:60]
            self.labels[k] = self.labels.get(k, 0) + 1
            return
        if status == "ok":
            for l in info.get("labels", []):
                self.labels[l] = self.labels.get(l, 0) + 1
            if info.get("nontrivial", False):
                h = case_hash(case)
                if h not in self.nontrivial:
                    self.nontrivial.add(h)
                    if len(self.samples) < 4:
                        self.samples.append({"case": case, "note": info.get("note", "")})


def run_shard(check, seed, count, budget_s, tier, shrink_s=60.0):
    """Generate `count` cases with hypothesis, stop generating when the soft budget is used up."""
    import warnings

    import hypothesis
    from hypothesis import HealthCheck, Phase, settings
    from hypothesis.errors import HypothesisWarning

    warnings.simplefilter("ignore", HypothesisWarning)

    stats = Stats()
    t0 = time.time()
    best = {"case": None, "info": None, "size": None, "t": None}
    error = {}

    strategy = check.strategy(tier)

    @hypothesis.seed(seed)
    @settings(
        max_examples=count,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        print_blob=False,
    )
    @hypothesis.given(strategy)
    def test(case):
        case = json.loads(json.dumps(case))
        if error:
            return
        if best["t"] is None:
            if time.time() - t0 > budget_s:
                stats.truncated += 1
                return
        elif time.time() - best["t"] > shrink_s:
            return
        status, info = execute(check, case)
        if best["t"] is None:
            stats.record(case, status, info)
        if status == "violation":
            size = len(json.dumps(case))
            if best["t"] is None:
                best["t"] = time.time()
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, info=info, size=size)
            raise _Found()
        if status == "error":
            error.update(case=case, message=info["message"])

    try:
        test()
    except _Found:
        pass
    except BaseException as e:  # Flaky & co, after the shrinking budget is exhausted
        if isinstance(e, (KeyboardInterrupt, SystemExit, MemoryError)):
            raise
        if best["case"] is None and not error:
            raise
    return stats, best, error
