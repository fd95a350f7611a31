"""Worker process.  `python -m dst.worker '<json>'`

mode "search": run scenarios shard, shard+n, ... of (seed, property); mode "exec": run the scenarios given on stdin.
Everything is reported as JSON lines on the original stdout.
"""
import json
import os
import sys
import time

real_mono = time.monotonic


def backend(prop, repo):
    if prop == "C14":
        from . import importsim

        return importsim.boot(repo)
    if prop in ("C16", "C18"):
        from . import replicas

        return replicas.boot(repo)
    from . import zygote

    return zygote.boot(repo)


def props():
    from . import props as p

    return p


def explicit(scen, res):
    """the same run with every policy decision written out"""
    s = json.loads(json.dumps(scen))
    if not res["gen"] and not (s.get("policy") and s["policy"]["kind"] != "probe"):
        return s
    byid = {}
    for ph in s["phases"]:
        for t in ph["threads"]:
            for o in t:
                byid[o["id"]] = o
    for g in res["gen"]:
        if isinstance(g["op"], str):
            # a thread of the library
            s.setdefault("libacts", {}).setdefault(g["op"], []).append({k: g[k] for k in ("n", "lock", "do") if k in g})
            continue
        byid[g["op"]].setdefault("acts", []).append({k: g[k] for k in ("n", "lock", "do") if k in g})
    if s.get("policy") and s["policy"]["kind"] != "probe":
        s["policy"] = None
    s.pop("locks", None)
    return s


def run_one(P, z, scen):
    res = z.run(scen)
    v = P.judge(scen, res, z)
    return res, v


def main():
    cfg = json.loads(sys.argv[1])
    fd = os.dup(1)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    os.dup2(devnull, 0) if cfg["mode"] == "search" else None

    def emit(o):
        data = (json.dumps(o) + "\n").encode()
        while data:
            data = data[os.write(fd, data):]

    from . import zygote

    zygote.mount()
    try:
        z = backend(cfg["prop"], cfg["repo"])
        if cfg.get("cache"):
            z.share(os.path.join(cfg["cache"], "out%d" % cfg["hashseed"]))
        p = props()
        P = p.PROPS[cfg["prop"]]
        (search if cfg["mode"] == "search" else execute)(cfg, z, p, P, emit)
    except BaseException:
        import traceback

        emit({"t": "error", "error": traceback.format_exc()[-6000:]})
        os._exit(3)
    os._exit(0)


def search(cfg, z, p, P, emit):
    ctx = p.Ctx(cfg["prop"], cfg["seed"], z, cfg["tier"], cfg["shard"])
    t0 = real_mono()
    st = {"runs": 0, "nontrivial": 0, "events": 0, "switches": 0, "vt": 0.0, "stats": {}, "rechecks": 0, "mismatch": 0, "ops": 0, "fired_ops": 0}
    ctxs, sigs, faultlocs = set(), set(), set()
    samples = []
    i = cfg["shard"]
    nviol = nsample = 0
    recheck = cfg.get("recheck", 40)
    if cfg["shard"] == 0 and cfg["prop"] not in ("C13", "C14", "C16", "C18"):
        # a process forked from one that has done nothing but import the library can do one simple call
        scen = {"prop": cfg["prop"], "phases": [{"threads": [[{"id": 0, "call": {"k": "can", "q": '"a"'}}]]}], "env": {}, "watch": {"set": "locs"}, "policy": None,
                "hashseed": cfg["hashseed"]}
        res = z.run(scen)
        if res["viol"] and res["dead"]:
            emit({"t": "violation", "i": i, "scen": scen, "orig": scen, "viol": res["viol"][:5], "stable": True})
    if cfg["shard"] == 0:
        # the histories of the findings recorded in KNOWN_FINDINGS.jsonl
        for scen in P.KNOWN:
            scen = dict(scen, prop=cfg["prop"], hashseed=cfg["hashseed"])
            res, v = run_one(P, z, scen)
            if v:
                emit({"t": "violation", "i": i, "scen": scen, "orig": scen, "viol": v[:5], "stable": True})
    while st["runs"] < cfg["quota"] and real_mono() - t0 < cfg["time"]:
        scen = ctx.scenario(i)
        scen["hashseed"] = cfg["hashseed"]
        res, v = run_one(P, z, scen)
        st["runs"] += 1
        if P.nontrivial(scen, res):
            sig = hash_of([res["trace"], res["ctx"], res["fl"]])
            if sig not in sigs:
                sigs.add(sig)
                st["nontrivial"] += 1
        for k in ("events", "switches", "vt"):
            st[k] += res[k]
        for k, n in res["stats"].items():
            st["stats"][k] = st["stats"].get(k, 0) + n
        st["ops"] += len(res["ops"])
        if len(ctxs) < 300000:
            ctxs.update(res["ctx"])
        faultlocs.update(res["fl"])
        if len(samples) < 1 and st["runs"] > 3 and P.nontrivial(scen, res):
            samples.append({"index": i, "scenario": clip(scen), "outcome": clip({k: {a: b for a, b in r.items() if a != "fired"} for k, r in res["ops"].items()}),
                            "faults_fired": [[f[0], f[1]] for r in res["ops"].values() for f in r.get("fired") or () if isinstance(f, list)][:6]})
        if st["runs"] % recheck == 1 and not v:
            again = z.run(scen)
            st["rechecks"] += 1
            if again["trace"] != res["trace"]:
                st["mismatch"] += 1
                if st["mismatch"] <= 2:
                    emit({"t": "mismatch", "i": i, "scen": scen, "a": res, "b": again})
        if cfg.get("traces"):
            emit({"t": "trace", "i": i, "trace": res["trace"], "events": res["events"]})
        if v:
            nviol += 1
            # (a run that hangs has been repeated already)
            again = v if res["trace"] == "hang" else run_one(P, z, scen)[1]
            stable = bool({x["kind"] for x in v} & {x["kind"] for x in again})
            emit({"t": "violation", "i": i, "scen": explicit(scen, res), "orig": scen, "viol": v[:5], "stable": stable})
            if nviol >= 20:
                break
        elif nsample < cfg.get("sample", 0) and (st["runs"] % 11 == 3 or nsample == 0):
            nsample += 1
            emit({"t": "sample", "i": i, "scen": scen, "trace": res["trace"]})
        i += cfg["nshards"]
    st["wall"] = real_mono() - t0
    st["sigs"] = len(sigs)
    emit({"t": "stats", "st": st, "ctxs": sorted(ctxs), "faultlocs": sorted(faultlocs), "samples": samples, "real": getattr(z, "nbase", 0)})


def hash_of(x):
    import zlib

    return zlib.crc32(json.dumps(x).encode())


def clip(x, n=160):
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "..."
    if isinstance(x, dict):
        return {k: clip(v, n) for k, v in list(x.items())[:24]}
    if isinstance(x, list):
        return [clip(v, n) for v in x[:12]]
    return x


def execute(cfg, z, p, P, emit):
    z.patience = (15.0,)
    emit({"t": "ready"})
    for line in sys.stdin:
        scen = json.loads(line)
        res, v = run_one(P, z, scen)
        emit({"t": "done", "viol": v, "gen": res["gen"], "events": res["events"], "trace": res["trace"]})


if __name__ == "__main__":
    main()
