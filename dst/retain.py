"""Runs for C13: what is still alive once the caller has dropped its results."""
import array
import gc
import random
import sys
import types

from . import api, engine, gen, sim
from .api import P, V

SRC = None


def marker(rng):
    l = list("abcdabcdab")
    rng.shuffle(l)
    return "M" + "".join(l)


def subst(call, m):
    c = dict(call)
    c["q"] = c["q"].replace("@M", m)
    return c


class RetainRun(sim.Run):
    incleanup = False

    def op_sweep(self, th, op, c):
        for j in c["js"]:
            rng, q = gen.sweep_query(c["seed"], j)
            call = gen.sweep_call(rng, gen.with_marker(rng, q, self.marker))
            api.run_call(call, api.Env())
            self.stat("swept")
        rng = q = call = None

    def execute(self, th, op):
        if op["call"]["k"] == "sweep":
            self.eng.op_end(th)
            self.op_sweep(th, op, op["call"])
            return
        if op["call"]["k"] == "look":
            self.eng.op_end(th)
            self.look()
            return
        th_op = dict(op)
        th_op["call"] = subst(op["call"], self.marker)
        sim.Run.execute(self, th, th_op)
        r = self.recs.get(op["id"])
        if r is not None:
            self.incleanup = self.incleanup or bool(r.get("incleanup"))
            # only facts that do not contain the query text
            self.recs[op["id"]] = {"n": r["n"], "fired": [f[0] for f in r.get("fired", ())], "exc": r.get("exc")}


def allowed_strings(env):
    ok = []
    for p in env.parsers.values():
        ok += [p.errors]
    for v in env.validators.values():
        ok += [v.errors, v.warnings, v.query]
    s = set()
    todo = list(ok)
    seen = set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, str):
            s.add(id(x))
        elif isinstance(x, (list, tuple)):
            todo.extend(x)
        elif isinstance(x, P.ErrorDetail):
            todo += [x.message, x.fragment, x.type]
    return s


def run_drop(scen):
    gc.disable()
    rng = random.Random(scen.get("mseed", 7))
    # warm everything that is created on first use with one ordinary call
    api.run_call({"k": "validate", "q": '[word = "warm"]', "re": True}, api.Env())
    gc.collect()
    kt = sim.keep_types()
    before = {id(o) for o in sim.live_objects(kt)}
    scen = dict(scen, phases=[{"threads": [t + [{"id": "look", "call": {"k": "look"}}] for t in ph["threads"]]} for ph in scen["phases"]])
    r = RetainRun(scen)
    r.marker = m = marker(rng)
    viol = []

    def search():
        live = [o for o in sim.live_objects(kt) if id(o) not in before]
        ok = allowed_strings(r.env)
        left = [s for s in sim.marked_strings(m, sim.OLD) if id(s) not in ok and s is not m]
        return live, left

    def look():
        gc.collect()
        live, left = search()
        if (live or left) and r.incleanup:
            # a second failure struck the clean-up of a call that had already ended (no Python code can
            # exclude that): what is left must go with the next call on the object at the latest
            live = left = None
            for p in r.env.parsers.values():
                p.parse('"w"')
            for v in r.env.validators.values():
                v.is_valid(P.QueryParser().parse('"w"'))
            gc.collect()
            live, left = search()
            r.stat("after_next_call")
        if live:
            t = sorted({type(o).__name__ for o in live})
            viol.append({"kind": "retained:objects", "detail": "%d live objects: %s; referrers %s" % (len(live), t, referrers(live)), "op": None})
        elif left:
            viol.append({"kind": "retained:text", "detail": "%d strings with the query text, e.g. %r held by %s" % (len(left), left[0][:80], sim.holder(left[0])), "op": None})
        live = left = None

    # first while the thread that made the calls still lives (what is kept for a thread is still there), then when it has gone
    r.look = look
    res = r.run()
    r.eng.threads = []
    engine._cur = None
    if not viol:
        look()
    viol = res["viol"] + viol
    res["viol"] = viol
    res["stats"]["checked"] = 1
    res["trace"] = sim.sha(repr((sorted(map(repr, res["ops"].items())), [v["kind"] for v in viol])))
    return res


def referrers(live):
    out = set()
    skip = {id(live)}
    ids = {id(o) for o in live}
    for o in live[:3]:
        for r in gc.get_referrers(o):
            if id(r) in skip or isinstance(r, types.FrameType) or id(r) in ids:
                continue
            out.add(type(r).__name__)
    return sorted(out)[:6]


def run_growth(scen):
    gc.disable()
    rng = random.Random(scen.get("mseed", 7))
    calls = [o["call"] for ph in scen["phases"] for t in ph["threads"] for o in t]
    blocks = array.array("q", [0] * scen["rounds"])
    env = api.Env()
    n = 0
    for r in range(scen["rounds"]):
        for c in calls:
            o = api.run_call(subst(c, marker(rng)), env)
            o = None
            n += 1
        gc.collect()
        sys._clear_type_cache()     # CPython's bounded attribute-lookup cache keeps recently used names alive
        blocks[r] = sys.getallocatedblocks()
    w = scen["rounds"] // 2
    d = [b - a for a, b in zip(blocks[w:], blocks[w + 1:])]
    viol = []
    # a leak of anything per call adds at least one block per call in every round
    if min(d) >= 1 and sum(d) >= len(d) * 1:
        viol.append({"kind": "growth", "detail": "allocated blocks keep growing: +%s per round of %d calls" % (d, len(calls)), "op": None})
    return {"ops": {}, "viol": viol, "gen": [], "stats": {"checked": 1, "rounds": scen["rounds"], "calls": n}, "events": 0, "switches": 0, "vt": 0, "ctx": [],
            "trace": sim.sha(repr([bool(viol)])), "errs_seen": [], "dead": False, "fl": [], "dbg": list(blocks)}


def run(scen):
    return run_growth(scen) if scen["mode"] == "growth" else run_drop(scen)
