"""Shrinks a violating scenario while it keeps violating in the same way."""
import copy
import json
import os
import select
import subprocess
import sys
import time


class Exec:
    """a fresh process that runs scenarios given to it"""

    def __init__(self, prop, repo, hashseed, env):
        e = dict(env)
        e["PYTHONHASHSEED"] = str(hashseed)
        cfg = {"mode": "exec", "prop": prop, "repo": repo, "seed": 0, "tier": "quick", "hashseed": hashseed}
        self.p = subprocess.Popen([sys.executable, "-m", "dst.worker", json.dumps(cfg)], env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0,
                                  start_new_session=True)
        self.buf = b""
        r = self.read(180)
        if not r or r.get("t") != "ready":
            raise RuntimeError("exec worker: %s" % (r,))
        self.runs = 0

    def read(self, timeout):
        end = time.monotonic() + timeout
        while b"\n" not in self.buf:
            t = end - time.monotonic()
            if t <= 0 or not select.select([self.p.stdout], [], [], t)[0]:
                return None
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b:
                return None
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def run(self, scen, timeout=200):
        data = (json.dumps(scen) + "\n").encode()
        while data:
            data = data[os.write(self.p.stdin.fileno(), data):]
        r = self.read(timeout)
        if r is None or r.get("t") != "done":
            raise RuntimeError("exec worker: %s" % (r,))
        self.runs += 1
        return r

    def close(self):
        import signal

        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()


def ddmin(items, test, deadline):
    """smallest sublist (greedy) for which test(sublist) holds; test(items) is known to hold"""
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        done = True
        i = 0
        while i < len(items):
            if time.monotonic() > deadline:
                return items
            cand = items[:i] + items[i + size:]
            if test(cand):
                items = cand
                done = False
            else:
                i += size
        if size == 1 and done:
            break
        n = min(len(items), n * 2) if size > 1 else max(2, len(items))
    return items


def all_ops(s):
    return [o for ph in s["phases"] for t in ph["threads"] for o in t]


def minimise(scen, kind, ex, budget):
    """scen is known to violate with this kind in ex"""
    deadline = time.monotonic() + budget
    best = [copy.deepcopy(scen)]

    def holds(s):
        try:
            r = ex.run(s)
        except RuntimeError:
            return False
        return any(v["kind"] == kind for v in r["viol"])

    def attempt(s):
        if time.monotonic() > deadline:
            return False
        if holds(s):
            best[0] = s
            return True
        return False

    def with_ops(keep):
        s = copy.deepcopy(best[0])
        for ph in s["phases"]:
            ph["threads"] = [[o for o in t if o["id"] in keep] for t in ph["threads"]]
        s["phases"] = [ph for ph in s["phases"] if any(ph["threads"])] or s["phases"][:1]
        return s

    def with_acts(keep):
        s = copy.deepcopy(best[0])
        for o in all_ops(s):
            if o.get("acts"):
                o["acts"] = [a for j, a in enumerate(o["acts"]) if (o["id"], j) in keep]
        return s

    def tag_acts():
        return [(o["id"], j) for o in all_ops(best[0]) for j in range(len(o.get("acts") or ()))]

    def list_at(path, keep):
        s = copy.deepcopy(best[0])
        d = s
        for k in path[:-1]:
            d = d[k]
        d[path[-1]] = [x for j, x in enumerate(d[path[-1]]) if j in keep]
        return s

    for rnd in range(2):
        before = json.dumps(best[0])
        for path in (("attempts",), ("steps",), ("env", "warm"), ("env", "cbcalls"), ("env", "probes")):
            d = best[0]
            for k in path:
                d = (d or {}).get(k)
            if d:
                base = best[0]
                ddmin(list(range(len(d))), lambda keep, base=base, path=path: _try(attempt, base, path, keep), deadline)
        ids = [o["id"] for o in all_ops(best[0])]
        if len(ids) > 1:
            base = best[0]
            ddmin(ids, lambda keep: _try_ops(attempt, base, keep), deadline)
        tags = tag_acts()
        if tags:
            base = best[0]
            ddmin(tags, lambda keep: _try_acts(attempt, base, set(keep)), deadline)
        for o in all_ops(best[0]):
            if len(o["call"].get("js") or ()) > 1:
                base = best[0]
                ddmin(list(o["call"]["js"]), lambda keep: _try_js(attempt, base, o["id"], keep), deadline)
        # options and environment
        s = best[0]
        for k in list((s.get("env") or {})):
            if k in ("trees", "probes", "parsers"):
                continue
            c = copy.deepcopy(best[0])
            c["env"].pop(k, None)
            attempt(c)
        for o in all_ops(best[0]):
            for k in ("opts", "vopts", "re", "wae", "ver", "loc", "passq", "how", "custom", "stop_at", "raise_at", "peek"):
                if k in o["call"] and not (k == "loc" and o["call"].get("tree") is not None):
                    c = copy.deepcopy(best[0])
                    oo = [x for x in all_ops(c) if x["id"] == o["id"]][0]
                    oo["call"].pop(k)
                    if k == "opts":
                        oo["call"]["opts"] = {}
                    if oo["call"] != o["call"]:
                        attempt(c)
        # shorter queries
        for o in list(all_ops(best[0])):
            q = o["call"].get("q")
            if not q or o["call"].get("tree") or o["call"].get("shallow"):
                continue
            for cand in ('"a"', "[]", '[word = "a"]'):
                if len(cand) < len(q) and attempt(set_q(best[0], o["id"], cand)):
                    q = cand
                    break
            size = max(1, len(q) // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(q):
                    cand = q[:i] + q[i + size:]
                    if attempt(set_q(best[0], o["id"], cand)):
                        q = cand
                    else:
                        i += size
                size //= 2
        if json.dumps(best[0]) == before or time.monotonic() > deadline:
            break
    return best[0]


def set_q(s, oid, q):
    c = copy.deepcopy(s)
    for o in all_ops(c):
        if o["id"] == oid:
            o["call"]["q"] = q
    return c


def _try(attempt, base, path, keep):
    s = copy.deepcopy(base)
    d = s
    for k in path[:-1]:
        d = d[k]
    d[path[-1]] = [x for j, x in enumerate(d[path[-1]]) if j in set(keep)]
    return attempt(s)


def _try_ops(attempt, base, keep):
    keep = set(keep)
    s = copy.deepcopy(base)
    for ph in s["phases"]:
        ph["threads"] = [[o for o in t if o["id"] in keep] for t in ph["threads"]]
    s["phases"] = [ph for ph in s["phases"] if any(ph["threads"])]
    if not s["phases"]:
        return False
    return attempt(s)


def _try_js(attempt, base, oid, keep):
    s = copy.deepcopy(base)
    for o in all_ops(s):
        if o["id"] == oid:
            o["call"]["js"] = list(keep)
    return attempt(s)


def _try_acts(attempt, base, keep):
    s = copy.deepcopy(base)
    for o in all_ops(s):
        if o.get("acts"):
            o["acts"] = [a for j, a in enumerate(o["acts"]) if (o["id"], j) in keep]
    return attempt(s)
