"""Simulated set of replicas with different interpreter settings behind an unreliable network (C16)."""
import hashlib
import json
import os
import select
import subprocess
import sys
import zlib

from . import seams, zygote
from .zygote import Harness, Zygote

# [hash seed, interpreter options, environment, in-process settings]
CONFIGS = [
    {"hash": "0", "opt": [], "env": {}, "gc": "default"},
    {"hash": "1", "opt": ["-O"], "env": {"LC_ALL": "C", "COLUMNS": "30", "TERM": "dumb", "HOME": "/nonexistent"}, "gc": "off"},
    {"hash": "h1", "opt": ["-OO"], "env": {"LC_ALL": "C.UTF-8", "TZ": "Pacific/Kiritimati", "COLUMNS": "250", "LANGUAGE": "de", "NO_COLOR": "1"}, "gc": "always", "cwd": "/tmp"},
    {"hash": "h2", "opt": [], "env": {"PYTHONUTF8": "0", "LC_ALL": "POSIX"}, "gc": "always"},
    {"hash": "h3", "opt": ["-O"], "env": {"PYTHONMALLOC": "malloc"}, "gc": "default", "freeze": True},
]


class Server:
    def __init__(self, repo, cfg, base):
        self.cfg = cfg
        h = cfg["hash"]
        if h.startswith("h"):
            h = str((base * 7919 + int(h[1:]) * 104729 + 17) % 4294967291)
        env = dict(os.environ)
        env.update(cfg["env"])
        env["PYTHONHASHSEED"] = h
        self.p = subprocess.Popen([sys.executable] + cfg["opt"] + ["-m", "dst.replica", json.dumps(dict(cfg, repo=repo))], env=env,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = b""

    def read(self, timeout=90):
        end = seams.real_monotonic() + timeout
        while b"\n" not in self.buf:
            t = end - seams.real_monotonic()
            if t <= 0:
                return {"hang": True}
            if select.select([self.p.stdout], [], [], t)[0]:
                b = os.read(self.p.stdout.fileno(), 1 << 20)
                if not b:
                    raise Harness("replica server %s died: %s" % (self.cfg, self.p.wait()))
                self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line.decode("utf-8", "surrogatepass"))

    def ask(self, m, timeout=90):
        data = (json.dumps(m) + "\n").encode()
        while data:
            data = data[os.write(self.p.stdin.fileno(), data):]
        return self.read(timeout)


class Replicas(Zygote):
    def __init__(self, repo, base):
        Zygote.__init__(self)
        self.servers = [Server(repo, c, base) for c in CONFIGS]
        for s in self.servers:
            r = s.read(120)
            if not r.get("ready"):
                raise Harness("replica server %s: %s" % (s.cfg, r))

    def ship(self, step, m, srv, call, shelf, viol, answers, stat):
        """something handed out is packed by one process, or what arrived is opened by another"""
        what, rep, rid, x = step

        def wrong(kind, detail):
            viol.append({"kind": kind, "op": rid, "detail": "%s: replica with settings %d, %s: %s" % (json.dumps(call, sort_keys=True)[:200], CONFIGS.index(srv.cfg), what, detail)})

        def same(name, got, want):
            if got != want:
                wrong("copy-differs", "%s: got %s, original %s" % (name, first_difference(got, want), first_difference(want, got)))

        if what != "pack":
            if not shelf.get(rid):
                return
            orig, payload = shelf[rid][x["i"] % len(shelf[rid])]
            m["unpack"] = dict(x, payload=payload)
        else:
            m["pack"] = x
        if what == "stranger":
            p = subprocess.run([sys.executable] + srv.cfg["opt"] + ["-m", "dst.goods", self.repo], input=json.dumps(dict(m["unpack"], call=call)), capture_output=True, text=True, timeout=120)
            if p.returncode:
                raise Harness("goods: %s" % p.stderr[-2000:])
            r = json.loads(p.stdout)
        else:
            r = srv.ask(m)
        if "harness" in r:
            raise Harness("replica: %s" % r["harness"])
        if r.get("hang") or r.get("crashed"):
            wrong("process-died" if r.get("crashed") else "no-progress", "no answer")
            return
        if r.get("toodeep"):
            stat("too_deep_for_pickle")
            return
        if r.get("refused"):
            wrong("not-copyable", r["refused"])
            return
        stat({"pack": "packed", "unpack": "opened", "stranger": "opened_without_import"}[what])
        answers.append([rid, rep, what, r["form"], r["works"]])
        if what == "pack":
            orig = [r["form"], r["works"]]
            if "twin" in r:
                stat("deep_copies")
                same("copy.deepcopy", r["twin"], r["form"])
                same("work on the deep copy", r["twinworks"], r["works"])
            same("after copying and changing the copy", r["after"], r["form"])
        else:
            same("unpickled", r["form"], orig[0])
            same("work on the copy", r["works"], orig[1])
            same("after working on it", r["after"], r["form"])
            same("unpickled again, after changing the first copy", r["again"], orig[0])
        if r.get("payload"):
            shelf.setdefault(rid, []).append((orig, r["payload"]))

    def run(self, scen, timeout=None):
        if "steps" not in scen or scen.get("unforked"):
            return Zygote.run(self, scen)
        zygote.blank()
        calls = {}
        for ph in scen["phases"]:
            for t in ph["threads"]:
                for o in t:
                    calls[o["id"]] = o["call"]
        st = {}

        def stat(k):
            st[k] = st.get(k, 0) + 1

        live = {}
        age = {}
        n = 0
        shelf = {}      # what was packed, and how it looked to the one who did
        answers = []
        viol = []
        served = {}
        ctx = []
        for step in scen["steps"]:
            what = step[0]
            if what == "note":
                # what happened to a message on the simulated network
                stat("net:" + step[1])
                continue
            rep = step[1]
            if what == "age":
                age[rep] = [age.get(rep, [0, 0])[0] + step[2], age.get(rep, [0, 0])[1] + step[3]]
                stat("machine_time_passed")
                if step[3]:
                    stat("wall_clock_set_back" if step[3] < 0 else "wall_clock_set_on")
                continue
            srv = self.servers[scen["replicas"][rep] % len(self.servers)]
            if what == "crash":
                if rep in live:
                    srv.ask({"c": "kill", "id": live.pop(rep)})
                    stat("crash_between_requests")
                continue
            if rep not in live:
                n += 1
                r = srv.ask({"c": "start", "id": n})
                live[rep] = n
                served[rep] = []
                stat("replica_start")
            rid = step[2]
            if rid not in calls:
                continue
            m = {"c": "req", "id": live[rep], "call": calls[rid]}
            if what in ("pack", "unpack", "stranger"):
                self.ship(step, m, srv, calls[rid], shelf, viol, answers, stat)
                ctx.append(zlib.crc32(json.dumps([what, scen["replicas"][rep], served[rep][-3:], calls[rid]]).encode()))
                continue
            if what == "die":
                m["crash"] = step[3]
                stat("crash_inside_request")
            elif len(step) > 3:
                m["acts"] = step[3]
                for a in step[3]:
                    stat("replica_" + ("stalled" if a["do"][0] == "stall" else "clock_jump") + "_inside_request")
            if rep in age:
                m["clock"] = age[rep]
            r = srv.ask(m)
            if "harness" in r:
                raise Harness("replica: %s" % r["harness"])
            if r.get("hang"):
                viol.append({"kind": "no-progress", "detail": "replica %s does not answer" % srv.cfg, "op": rid})
                break
            if what == "die":
                live.pop(rep)
                if not r.get("crashed"):
                    srv.ask({"c": "kill", "id": m["id"]})
                continue
            if r.get("crashed"):
                live.pop(rep)
                viol.append({"kind": "process-died", "detail": "replica %s died serving %s" % (srv.cfg, json.dumps(calls[rid], sort_keys=True)[:300]), "op": rid})
                continue
            stat("served")
            answers.append([rid, rep, scen["replicas"][rep] % len(self.servers), len(served[rep]), r["r"], r["errs"]])
            ctx.append(zlib.crc32(json.dumps([scen["replicas"][rep], served[rep][-3:], calls[rid]]).encode()))
            served[rep].append(calls[rid])
        for s in self.servers:
            s.ask({"c": "reset"})
        return {"ops": {}, "viol": viol, "gen": [], "stats": st, "events": len(scen["steps"]), "switches": 0, "vt": scen.get("vt", 0.0), "ctx": ctx, "errs_seen": [],
                "dead": bool(viol), "fl": [], "answers": answers, "trace": hashlib.sha1(json.dumps([answers, viol]).encode()).hexdigest()[:16]}


def first_difference(a, b):
    """the part of a that is not in b"""
    while isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        d = [(x, y) for x, y in zip(a, b) if x != y]
        if not d:
            break
        a, b = d[0]
    if isinstance(a, str) and isinstance(b, str) and "\n" in a:
        d = [x for x, y in zip(a.split("\n"), b.split("\n")) if x != y]
        if d:
            a = d[0]
    return repr(a)[:300]


def boot(repo):
    z = zygote.boot(repo)
    r = Replicas(repo, int(os.environ.get("PYTHONHASHSEED") or 0))
    r.fork = z.fork
    r.repo = repo
    return r
