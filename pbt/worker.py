"""One process of a check: python -m pbt.worker CHECK SHARD_JSON OUT_JSON"""
import importlib
import json
import os
import sys
import time


def main():
    check_id, shard, out = sys.argv[1], json.loads(sys.argv[2]), sys.argv[3]
    from . import boot

    t0 = time.time()
    boot.boot(shard["backend"], shard["floatx"])
    from . import engine

    check = importlib.import_module("pbt.checks." + check_id.lower())
    res = {"shard": shard, "regression": [], "known": [], "violation": None, "error": None}

    for item in shard.get("replays", []):
        status, info = engine.execute(check, item["case"])
        res["regression"].append({"name": item["name"], "status": status})
        if status == "violation":
            res["violation"] = {"case": item["case"], "info": info, "from": item["name"]}
        elif status == "error":
            res["error"] = {"case": item["case"], "message": info["message"]}
    for item in shard.get("known", []):
        status, info = engine.execute(check, item["case"])
        res["known"].append({"id": item["id"], "status": status, "what": item["what"], "message": info.get("message", "")})
        if status == "error":
            res["error"] = {"case": item["case"], "message": info["message"]}
    if shard.get("count") and not res["violation"]:
        stats, best, error = engine.run_shard(
            check, shard["seed"], shard["count"], shard["budget"], shard["tier"]
        )
        res.update(
            evaluations=stats.evaluations,
            nontrivial=sorted(stats.nontrivial),
            labels=stats.labels,
            samples=stats.samples,
            skips=stats.skips,
            truncated=stats.truncated,
        )
        if best["case"] is not None:
            res["violation"] = {"case": best["case"], "info": best["info"], "from": "generated"}
        if error:
            res["error"] = error
    res["wall"] = time.time() - t0
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.replace(tmp, out)


if __name__ == "__main__":
    main()
