"""Parent process of a check: shards, aggregation, evidence, verdict."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (backend, floatx) of the eight parallel processes
LAYOUT = [
    ("torch", "float64"),
    ("torch", "float64"),
    ("torch", "float32"),
    ("tensorflow", "float64"),
    ("torch", "float64"),
    ("torch", "float64"),
    ("torch", "float64"),
    ("tensorflow", "float32"),
]


def load_known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid and d["kind"] == "known":
                    out.append(d)
    return out






def ncpu():
    try:
        return max(1, len(os.sched_getaffinity(0)))
    except AttributeError:
        return 8


def replay(path):
    with open(path) as f:
        d = json.load(f)
    shard = dict(d["shard"], count=0, replays=[{"name": path, "case": d["case"]}], known=[])
    with tempfile.TemporaryDirectory(prefix="decomon_pbt_") as tmp:
        out = os.path.join(tmp, "o.json")
        subprocess.run([sys.executable, "-m", "pbt.worker", d["property"], json.dumps(shard), out], cwd=HERE, check=True)
        res = json.load(open(out))
    print(json.dumps(res, indent=1)[:6000])
    if res["violation"]:
        print(res["violation"]["info"].get("traceback", ""))
        print(f"VIOLATION property={d['property']} replay={path}")
        return 1
    return 2 if res["error"] else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from . import boot

    boot.add_hypothesis()
    from .config import CONFIG

    cfg = CONFIG[pid]
    t0 = time.time()
    tcfg = cfg[tier]
    layout = cfg.get("layout", LAYOUT)
    if tier == "thorough":
        layout = cfg.get("thorough_layout", layout)
    replays = []
    for p in sorted(glob.glob(os.path.join(HERE, "corpus", pid, "*.json"))):
        d = json.load(open(p))
        replays.append({"name": os.path.basename(p), "case": d["case"], "backend": d.get("backend", "torch")})
    known = load_known(pid)
    shards = []
    for i, (backend, floatx) in enumerate(layout):
        weight = tcfg.get("tf_weight", 0.3) if backend == "tensorflow" else 1.0
        shards.append(
            dict(
                index=i,
                backend=backend,
                floatx=floatx,
                seed=(seed * 1009 + i * 7919 + (0 if tier == "quick" else 500009)) % (2**31),
                count=max(1, int(tcfg["count"] * weight)),
                budget=tcfg["budget"],
                tier=tier,
                replays=[],
                known=[],
            )
        )
    firsts = {}
    for s in shards:
        if s["floatx"] == "float64":
            firsts.setdefault(s["backend"], []).append(s)
    for j, r in enumerate(replays):
        pool = firsts.get(r["backend"]) or shards
        pool[j % len(pool)]["replays"].append({"name": r["name"], "case": r["case"]})
    for j, k in enumerate(known):
        pool = firsts.get(k.get("backend", "torch")) or shards
        pool[j % len(pool)]["known"].append({"id": k["id"], "what": k["what"], "case": k["case"]})

    tmp = tempfile.mkdtemp(prefix="decomon_pbt_")
    results, problems = [], []
    try:
        procs = []
        pending = list(shards)
        limit = tcfg["budget"] + tcfg.get("grace", 240)
        maxp = min(len(shards), 8)
        running = []
        while pending or running:
            while pending and len(running) < maxp:
                s = pending.pop(0)
                out = os.path.join(tmp, f"{s['index']}.json")
                err = open(os.path.join(tmp, f"{s['index']}.log"), "w")
                env = dict(os.environ, KERAS_BACKEND=s["backend"])
                p = subprocess.Popen(
                    [sys.executable, "-m", "pbt.worker", pid, json.dumps(s), out],
                    cwd=HERE, env=env, stdout=err, stderr=subprocess.STDOUT,
                )
                running.append((s, p, out, time.time()))
            time.sleep(0.1)
            for item in list(running):
                s, p, out, ts = item
                if p.poll() is None and time.time() - ts > limit:
                    p.kill()
                    p.wait()
                    problems.append(f"shard {s['index']} exceeded its hard time limit")
                    running.remove(item)
                elif p.poll() is not None:
                    running.remove(item)
                    if p.returncode != 0 or not os.path.exists(out):
                        log = open(os.path.join(tmp, f"{s['index']}.log")).read()[-3000:]
                        problems.append(f"shard {s['index']} ended with {p.returncode}:\n{log}")
                    else:
                        results.append(json.load(open(out)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    evaluations = sum(r.get("evaluations", 0) + len(r["regression"]) + len(r["known"]) for r in results)
    distinct = set()
    labels = {}
    samples = []
    truncated = 0
    skips = 0
    for r in sorted(results, key=lambda r: r["shard"]["index"]):
        distinct.update(r.get("nontrivial", []))
        for k, v in r.get("labels", {}).items():
            labels[k] = labels.get(k, 0) + v
        samples += r.get("samples", [])[:1]
        truncated += r.get("truncated", 0)
        skips += r.get("skips", 0)
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]

    code = 0
    lines = []
    for r in results:
        for k in r["known"]:
            if k["status"] == "violation":
                lines.append(f"KNOWN-FINDING: property={pid} {k['id']}: {k['what']}")
            else:
                lines.append(f"note: known finding {k['id']} does not reproduce any more ({k['status']})")
    replay_path = None
    if violations:
        code = 1
        v = min(violations, key=lambda r: len(json.dumps(r["violation"]["case"])))
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        replay_path = os.path.join(HERE, "evidence", "replay", f"{pid}.json")
        shard = {k: v["shard"][k] for k in ("backend", "floatx", "seed", "tier", "budget", "index")}
        with open(replay_path, "w") as f:
            json.dump({"property": pid, "shard": shard, "case": v["violation"]["case"], "info": v["violation"]["info"], "from": v["violation"]["from"]}, f, indent=1)
        lines.append("  " + v["violation"]["info"]["message"][:1500])
        lines.append(f"VIOLATION property={pid} replay={replay_path}")
    elif errors or problems or not results:
        code = 2
    for e in errors:
        lines.append("HARNESS ERROR " + json.dumps(e["error"]["case"])[:1500] + "\n" + e["error"]["message"])
    for p in problems:
        lines.append("PROBLEM " + p)

    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": cfg["rule"],
            "samples": samples[:8],
            "labels": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:120]),
            "skipped": skips,
            "not_run_soft_budget": truncated,
            "regression_cases": len(replays),
            "shards": [f"{s['backend']}/{s['floatx']}:{s['count']}" for s in shards],
        },
        "assumptions": cfg.get("assumptions", []),
        "violations": [
            {"message": v["violation"]["info"]["message"][:1500], "from": v["violation"]["from"]} for v in violations
        ],
        "known_findings": [k for r in results for k in r["known"]],
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print(f"{pid} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct non-trivial, "
          f"{skips} skipped, {truncated} not run (budget), {time.time()-t0:.1f}s")
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    main()
