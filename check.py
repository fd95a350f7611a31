#!/usr/bin/env python3
"""check.py <property>: searches simulated runs for a violation of one property.

Exit 0: none found.  Exit 1: "VIOLATION property=<id> replay=<path>" was printed.  Exit 2: the check itself failed.
Environment: VERIF_SEED, VERIF_TIER (quick|thorough), DST_REPO (default /repo), DST_TIME (seconds of search), DST_WORKERS.
"""
import hashlib
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VENV = "/opt/venv/bin/python"


def python():
    return VENV if os.path.exists(VENV) else sys.executable


if sys.executable != python() and os.environ.get("DST_EXEC") != "1" and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.environ["DST_EXEC"] = "1"
    os.execv(python(), [python()] + sys.argv)

from dst import minimise as mini  # noqa: E402

TIMES = {"quick": 40.0, "thorough": 840.0}
SHARDS = 8


def hash_seed(prop, seed, shard):
    # one per check, so that the workers can share what they learn about calls; the replicas of C16 differ anyway
    if prop not in ("C16", "C18") and shard < SHARDS:
        shard = 0
    return 1 + (seed * 7919 + shard * 104729) % 4000000000


def environment(repo, cache):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["PYTHONPATH"] = os.path.join(repo, "src") + ":" + HERE
    env["PYTHONPYCACHEPREFIX"] = cache
    env["PYTHONNOUSERSITE"] = "1"
    return env


def load_known():
    out = []
    try:
        for line in open(os.path.join(HERE, "KNOWN_FINDINGS.jsonl")):
            line = line.strip()
            if line.startswith("{"):
                e = json.loads(line)
                if e.get("status") == "known":
                    out.append(e)
    except FileNotFoundError:
        pass
    return out


def matches(entry, prop, viol):
    return entry["property"] == prop and entry["kind"] == viol["kind"] and entry.get("detail", "") in viol["detail"]


def main():
    if sys.argv[1] == "--selftest":
        # nothing has to be built: pure Python, compiled in memory by every check
        import compileall

        sys.exit(0 if compileall.compile_dir(os.path.join(HERE, "dst"), quiet=1, force=True) else 2)
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in TIMES:
        tier = "quick"
    repo = os.environ.get("DST_REPO") or "/repo"
    limit = float(os.environ.get("DST_TIME") or TIMES[tier])
    nw = int(os.environ.get("DST_WORKERS") or min(SHARDS, os.cpu_count() or 8))
    t0 = time.monotonic()
    cache = tempfile.mkdtemp(prefix="dst-pyc-")
    try:
        code = run(prop, seed, tier, repo, limit, nw, cache, t0)
    finally:
        shutil.rmtree(cache, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def run(prop, seed, tier, repo, limit, nw, cache, t0):
    env = environment(repo, cache)
    print("seed=%d tier=%s property=%s repo=%s shards=%d search=%ss" % (seed, tier, prop, repo, nw, limit), flush=True)
    q = queue.Queue()
    procs = []
    for shard in range(nw):
        hs = hash_seed(prop, seed, shard)
        cfg = {"mode": "search", "prop": prop, "repo": repo, "seed": seed, "tier": tier, "shard": shard, "nshards": SHARDS, "quota": int(os.environ.get("DST_QUOTA") or 10 ** 9),
               "time": limit, "hashseed": hs, "cache": cache, "recheck": 50, "sample": 3}
        e = dict(env, PYTHONHASHSEED=str(hs))
        p = subprocess.Popen([python(), "-m", "dst.worker", json.dumps(cfg)], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, start_new_session=True)
        procs.append(p)

        def reader(p=p, shard=shard):
            for line in p.stdout:
                try:
                    q.put((shard, json.loads(line)))
                except ValueError:
                    q.put((shard, {"t": "error", "error": "bad line %r" % line[:300]}))
            q.put((shard, None))

        threading.Thread(target=reader, daemon=True).start()

    def stop():
        for p in procs:
            if p.poll() is None or True:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            p.wait()

    known = load_known()
    stats, errors, mismatches, checks = {}, [], [], []
    confirmed = None
    unstable = []
    seen_known = {}
    open_ = nw
    hard = time.monotonic() + limit + 400
    lastprog = {}
    while open_ and confirmed is None:
        try:
            shard, m = q.get(timeout=max(0.1, hard - time.monotonic()))
        except queue.Empty:
            errors.append("workers did not finish in time")
            break
        if m is None:
            open_ -= 1
            continue
        t = m["t"]
        if t == "stats":
            stats[shard] = m
        elif t == "error":
            errors.append(m["error"])
        elif t == "mismatch":
            mismatches.append({"i": m["i"], "shard": shard})
        elif t == "sample":
            checks.append((shard, m))
        elif t == "violation":
            new = []
            for v in m["viol"]:
                k = [e for e in known if matches(e, prop, v)]
                if k:
                    seen_known[k[0]["what"]] = True
                else:
                    new.append(v)
            if not new:
                continue
            if not m.get("stable", True):
                unstable.append({"shard": shard, "i": m["i"], "viol": new})
                continue
            confirmed = (shard, m, new)
    stop()
    if confirmed is not None:
        shard, m, new = confirmed
        path = report(prop, seed, tier, repo, env, shard, m, new, nw)
        evidence(prop, seed, tier, stats, mismatches, 1, time.monotonic() - t0, unstable, None, [new])
        print("%s: %s" % (new[0]["kind"], new[0]["detail"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors or not stats:
        for e in errors[:3]:
            print("CHECK ERROR: " + e, file=sys.stderr)
        if not stats:
            evidence(prop, seed, tier, stats, mismatches, 0, time.monotonic() - t0, unstable, None, [])
            return 2
    cross = cross_process(prop, repo, env, seed, checks)
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for u in unstable:
        print("note: not reproducible, ignored: shard %d scenario %d %s" % (u["shard"], u["i"], u["viol"][0]["kind"]))
    n = evidence(prop, seed, tier, stats, mismatches, 0, time.monotonic() - t0, unstable, cross, [])
    print("held on %d simulated runs (%d nontrivial), %.1f s" % (n[0], n[1], time.monotonic() - t0), flush=True)
    if errors:
        return 2
    return 0


def cross_process(prop, repo, env, seed, checks):
    """re-execute some runs in a fresh process with another hash seed; the event logs must be identical"""
    if not checks:
        return None
    done = same = 0
    diffs = []
    try:
        ex = mini.Exec(prop, repo, hash_seed(prop, seed, 99), env)
    except RuntimeError as e:
        return {"error": str(e)}
    end = time.monotonic() + 12
    try:
        for shard, m in checks:
            if time.monotonic() > end:
                break
            r = ex.run(m["scen"])
            done += 1
            if r["trace"] == m["trace"]:
                same += 1
            else:
                diffs.append({"shard": shard, "i": m["i"]})
    except RuntimeError as e:
        return {"error": str(e), "done": done, "same": same}
    finally:
        ex.close()
    return {"reexecuted_in_fresh_process_with_other_hash_seed": done, "identical": same, "different": diffs[:5]}


def report(prop, seed, tier, repo, env, shard, m, new, nw):
    """minimise, verify in a fresh process, write the replay file"""
    hs = hash_seed(prop, seed, shard)
    kind = new[0]["kind"]
    kinds = [v["kind"] for v in new]
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rec = {"property": prop, "seed": seed, "shard": shard, "index": m["i"], "hashseed": hs, "kind": kind, "detail": new[0]["detail"], "mode": "search", "tier": tier}
    found = None
    try:
        ex = mini.Exec(prop, repo, hs, env)
        try:
            for cand in (m["scen"], m["orig"]):
                r = ex.run(cand)
                ks = [v["kind"] for v in r["viol"] if v["kind"] in kinds]
                if ks:
                    found = cand
                    kind = kind if kind in ks else ks[0]
                    break
            if found is not None:
                small = mini.minimise(found, kind, ex, float(os.environ.get("DST_MIN") or 40))
        finally:
            ex.close()
        if found is not None:
            for cand in (small, found):
                ex = mini.Exec(prop, repo, hs, env)
                try:
                    r = ex.run(cand)
                    r2 = ex.run(cand)
                finally:
                    ex.close()
                vs = [v for v in r["viol"] if v["kind"] == kind]
                if vs and r["trace"] == r2["trace"]:
                    rec.update(mode="scenario", scenario=cand, kind=kind, detail=vs[0]["detail"], trace=r["trace"],
                               original_size=len(json.dumps(m["scen"])), size=len(json.dumps(cand)), minimisation_runs=ex.runs)
                    break
    except Exception as e:
        rec["note"] = "minimisation failed: %r" % (e,)
    rec["replay"] = "python3 /verif/replay.py <this file>"
    if rec["mode"] == "search":
        rec["scenario"] = m["scen"]
    name = "%s-%s.json" % (prop, hashlib.sha1(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(HERE, "replays", name)
    with open(path, "w") as f:
        json.dump(rec, f, indent=1, sort_keys=True)
    return path


REAL = "fcsql package (all modules), ANTLR runtime, CPython interpreter, logging, real threads released one at a time by the simulator"
INFO = {
    "C13": "real: everything; the garbage collector and allocator are observed",
    "C14": "real: import system, module bodies, ANTLR runtime; stub: failing file reads",
    "C18": "real: the library in separate interpreters, pickle and copy; stub: delivery of the pickled results and crash timing",
    "C16": "real: the library in separate interpreters; stub: network, router and crash timing",
}


def evidence(prop, seed, tier, stats, mismatches, nviol, wall, unstable, cross, viols):
    tot = {"runs": 0, "nontrivial": 0, "events": 0, "switches": 0, "vt": 0.0, "rechecks": 0, "mismatch": 0, "ops": 0}
    counters = {}
    ctx, fl = set(), set()
    samples = []
    search = 0.0
    per = {}
    base = 0
    for shard, m in sorted(stats.items()):
        for k in tot:
            tot[k] += m["st"][k]
        for k, v in m["st"]["stats"].items():
            counters[k] = counters.get(k, 0) + v
        ctx.update(m["ctxs"])
        fl.update(m["faultlocs"])
        samples += m["samples"][:1]
        search = max(search, m["st"]["wall"])
        base += m["real"]
        per[str(shard)] = {"runs": m["st"]["runs"], "hashseed": hash_seed(prop, seed, shard)}
    faults = {k: v for k, v in sorted(counters.items()) if k.startswith(("fault", "net:", "crash", "stream_fault", "nested", "log_level", "clock", "preemption", "slow", "short", "interruptions", "stall", "wall_clock", "replica_stalled", "replica_clock", "machine"))}
    from dst import props

    P = props.PROPS[prop]
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": "seeded simulated runs (scenario i of VERIF_SEED, generator and non-triviality rule in dst/props.py:%s); a run counts if it is non-trivial (%s) and its "
                "event log, switch contexts and fault places differ from every other run of its shard" % (prop, props.RULES.get(prop, "a fault, switch or probe really happened")),
        "samples": samples[:2] or [{"none": "search stopped at a violation"}],
        "simulated_runs_per_hour": int(tot["runs"] / search * 3600) if search else 0,
        "seeds": {"VERIF_SEED": seed, "shards": per},
        "simulated_seconds_covered": round(tot["vt"], 3),
        "watched_events": tot["events"],
        "calls_judged": tot["ops"],
        "thread_switches": tot["switches"],
        "faults_injected": faults,
        "other_counters": {k: v for k, v in sorted(counters.items()) if k not in faults},
        "distinct_states": {"measure": "switch contexts: (operation, code location) left and entered" if prop not in ("C16", "C18") else "(settings, last served requests, request) triples",
                            "switch_contexts": len(ctx), "fault_places": len(fl)},
        "reference_outcomes_computed_in_cold_processes": base,
        "determinism": {"rechecked_in_process": tot["rechecks"], "different": tot["mismatch"], "fresh_process": cross},
        "unreproducible_reports_ignored": unstable[:3],
        "real_and_stub_components": INFO.get(prop, "real: %s; stub: locks, clocks, sleeping, and the streams/handlers/callbacks a scenario installs" % REAL),
    }
    if viols:
        cov["violation"] = viols[0]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.level, "coverage": cov, "assumptions": props.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return tot["runs"], tot["nontrivial"]


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
