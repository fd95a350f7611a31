#!/usr/bin/env python3
"""replay.py FILE: runs the recorded execution again in a fresh process. Exit 1: violation reproduced, 0: not."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

import check
from dst import minimise as mini


def main():
    rec = json.load(open(sys.argv[1]))
    repo = os.environ.get("DST_REPO") or "/repo"
    cache = tempfile.mkdtemp(prefix="dst-pyc-")
    try:
        env = check.environment(repo, cache)
        if rec["mode"] == "scenario":
            ex = mini.Exec(rec["property"], repo, rec["hashseed"], env)
            try:
                r = ex.run(rec["scenario"])
            finally:
                ex.close()
            viol, same = r["viol"], r["trace"] == rec["trace"]
        else:
            # the whole search of this shard up to the recorded run
            cfg = {"mode": "search", "prop": rec["property"], "repo": repo, "seed": rec["seed"], "tier": rec["tier"], "shard": rec["shard"], "nshards": check.SHARDS,
                   "quota": (rec["index"] - rec["shard"]) // check.SHARDS + 1, "time": 1e9, "hashseed": rec["hashseed"], "recheck": 50, "sample": 3}
            out = subprocess.run([check.python(), "-m", "dst.worker", json.dumps(cfg)], env=dict(env, PYTHONHASHSEED=str(rec["hashseed"])), stdin=subprocess.DEVNULL,
                                 stdout=subprocess.PIPE).stdout
            ms = [json.loads(x) for x in out.splitlines()]
            viol = [v for m in ms if m["t"] == "violation" and m["i"] == rec["index"] for v in m["viol"]]
            same = bool(viol)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    hit = [v for v in viol if v["kind"] == rec["kind"]]
    if hit:
        print("reproduced: %s: %s" % (hit[0]["kind"], hit[0]["detail"][:2000]))
        print("event log identical to the recorded one: %s" % same)
        sys.exit(1)
    print("not reproduced (found: %s)" % [v["kind"] for v in viol])
    sys.exit(0)


if __name__ == "__main__":
    main()
