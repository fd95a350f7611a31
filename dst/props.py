"""Per property: how scenarios are generated from a seed, and how the facts of a run are judged."""
import ast
import copy
import json
import random
import re

from . import engine
from .engine import CANCELS, ERRORS, FAILURES, GENERATED, JUMPS, pause
from .gen import Gen, JUNK, flood_plan, popts, sweep_call, sweep_query, vopts

ANY = (CANCELS + FAILURES) * 3 + ERRORS
SPECIAL = ("gc", "tick", "probe", "dropparser", "mutate", "fork", "mktree", "readerrs", "edit", "sweep")


# short queries that use many features at once: what any statement of the library does shows in their outcome
DENSE = [
    '"a\u0308" /id', '"o\u0308\\x41\\u030a"{2,3} within s', "[q:x-lay != 'e\u0301' /c]+", '[word = "a\u0308\\."] | "b"{2,}', '[text = "\u212b" & pos = "nn"]{,3}',
    '([lemma = "\ufb01"/C | norm != "b"] ("c" | [])*)? within paragraph', '[!(pos:pos = "N" | nolayer = "x")]', '[z:text = "u\u0308"/l & !word="b"]',
    "('a\u0308'{1} | [pos='x'])+ 'c' within u", '[pos="noun"] [word="a"/dI] [x-a="o\u0308"]', '[foo = "a" | bar = "b\u0308" | word = "c"]{0,2}',
    '[word="a"] [word="b"] [x-c="d"] [word="e"] [zz="1"] [y="2"]', '[pos = "ADJECTIVE" | text:pos = "X" | pos="NOUN.*"] [post = "a"]', '[x-b="1"] [x-c="2" | word="3"]+ [x-d="4"]',
    '[ud17:pos = "VERBAL" & lemma != "Haus"] "some longer words here" "x" within text', '([stts:pos="NN"] | [pos="PRONOUN"]){2,3} [word="b" | word="c" | x-z="d"]',
    '"a\u0308"{3,1}', '"\\U0010FFFF\\x4a" /iI', '[a = "b\u0308" &&]', '"a" "b" |', '[pos = "o\u0308"/lid]', '"\\}\u0308"', '[text="a"}{2', '"x" # $ "y"',
]


# repeated often, at the start of a check, to see whether anything is done only now and then
AGED = [
    {"k": "parse", "q": '[word = "a\\x41"/ci & !(x-l = "b" | q:pos != "c")]{1,2} [] within s'},
    {"k": "validate", "q": '[pos = "x" & (lemma = "b" | x-y != "c")] "d"+', "re": True},
    {"k": "pparse", "q": '"a', "slot": 0, "opts": {}},
    {"k": "pparse", "q": '("a" | [q:lemma = "b" /d])? "c"*', "slot": 0, "opts": {"enableSourceLocations": True}},
    {"k": "vval", "q": '[word = "a" & word = "b"] [foo = "c"]', "slot": 0, "vopts": {"raise_at_first_violation": False}, "custom": True},
    {"k": "validate", "q": '"a"{2,1}', "re": True, "wae": True},
    {"k": "antlr", "q": '"a" "b"/i'},
    {"k": "vval", "q": '[foo = "c"]', "slot": 0, "vopts": {}, "how": "is_valid"},
]


class Ctx:
    """what a generator may draw on; everything is a function of (seed, property)"""

    def __init__(self, prop, seed, z, tier, shard=0):
        self.prop, self.seed, self.z, self.tier = prop, seed, z, tier
        self._calls = {}
        self._groups = {}
        self._aged = None
        self.shard = shard
        self.orders = {}
        self.lazy = 0       # calls seen so far that do something only the first time

    def aged(self):
        """calls that do something only when they are repeated for the n-th time, and where"""
        if self._aged is None:
            P = PROPS[self.prop]
            self._aged = self.z.aged(AGED, 600, self.shard) if P.AGED else []
            if self.prop == "C02":
                self._aged = [a for a in self._aged if a[0]["k"] == "pparse"]
        return self._aged

    def aged_call(self, rng):
        """(call, the calls before it, its rarely executed locations)"""
        a = self.aged()
        if not a:
            return None
        call, n, es = rng.choice(a[:40])
        return dict(call), {"k": "repeat", "call": call, "n": n - 1, "rare": es[:300]}

    def rng(self, *what):
        return random.Random("/".join(map(str, (self.seed, self.prop) + what)))

    # Runs are organised in groups that share a small set of queries and calls, so that the
    # "alone" outcomes and the fault-point profiles of a group are computed once per check.
    def slot(self, i, g, block):
        """(group number, how often this group was used before); block: runs of one worker before all move on to g new groups"""
        sh, t = i % 8, i // 8
        b, u = divmod(t, block)
        return b * g + (u + sh * g // 8) % g, u // g * 8 + sh

    def set_group(self, i):
        P = PROPS[self.prop]
        self.g, self.t = self.slot(i, P.G, P.BLOCK)
        if self.g not in self._groups:
            if len(self._groups) > 64:
                self._groups.clear()
            rng = self.rng("group", self.g)
            qs = []
            nth = int(self.g * P.BIG)
            if int((self.g + 1) * P.BIG) > nth:
                # (the kinds of large queries in turn)
                qs = [Gen(rng).big(self.rng("big").randrange(12) + nth * 5)]
                if rng.random() < 0.7:
                    qs.append(Gen(rng).twin(qs[0]))
            while len(qs) < P.NQ:
                for q in make_query_set(rng, rng.choice([2, 3, 4])):
                    if q not in qs:
                        qs.append(q)
            self._groups[self.g] = qs
        self.qs = self._groups[self.g]

    def family(self, q, k=4):
        return Gen(self.rng("fam", self.g, q)).family(q, k)

    def scenario(self, i):
        rng = self.rng(i)
        self.set_group(i)
        s = PROPS[self.prop].generate(self, rng, i)
        s["prop"] = self.prop
        if any(len(ph["threads"]) > 1 for ph in s["phases"]) and rng.random() < 0.3:
            # threads are also preempted right after they have taken a lock
            s["locks"] = {"p": rng.choice([0.1, 0.4, 1.0]), "seed": rng.randrange(1 << 30), "stall": rng.choice([0, 0, 0.3, 0.8])}
        pol = s.get("policy")
        if pol and pol["kind"] != "probe" and rng.random() < 0.2:
            pol["stall"] = rng.choice([0.01, 0.05, 0.3])
        x = rng.random()
        if x < 0.55:
            s["intern"] = True
        elif x < 0.8:
            # every call has a text of its own that is gone afterwards (its address is used again)
            s["fresh"] = True
            if self.prop in ("C03", "C09") and rng.random() < 0.6:
                s["env"]["gc"] = rng.choice([[700, 10, 10], [60, 3, 3]])
        n = 0
        for ph in s["phases"]:
            for t in ph["threads"]:
                for op in t:
                    op["id"] = n
                    n += 1
        return s

    def query(self, rng):
        return rng.choice(self.qs)

    def first_time(self, call):
        """code locations that only the first execution of a call passes (lazy initialisation, filling of caches)"""
        key = "first" + json.dumps(call, sort_keys=True)
        r = self._calls.get(key)
        if r is None:
            cold, warm = self.z.profile(call), self.z.profile(call, [call])
            n = {json.dumps(e[:3]): e[3] for k in ("L", "I") for e in warm[k]}
            r = [e for k in ("L", "I") for e in cold[k] if loc_class(e[0]) == "core" and e[3] > n.get(json.dumps(e[:3]), 0)]
            if len(self._calls) > 4000:
                self._calls.clear()
            self._calls[key] = r
            self.lazy += bool(r)
        return r


# ------------------------------------------------------------ calls

KINDS = [("parse", 3), ("pparse", 3), ("validate", 4), ("can", 2), ("antlr", 1.2), ("raw", 0.5), ("vval", 1.5), ("render", 0.7), ("visit", 0.7)]
NEEDS_TREE = ("vval", "render", "visit", "copy")


def pick(rng, table):
    t = sum(w for _, w in table)
    x = rng.random() * t
    for k, w in table:
        x -= w
        if x < 0:
            return k
    return table[-1][0]


def valid_for_tree(ctx, rng, q):
    """a query that surely parses, for calls that need a tree"""
    b = ctx.z.baseline({"k": "can", "q": q})
    if b[0] == "True":
        return q
    g = Gen(ctx.rng("valid", ctx.g, q))
    for _ in range(6):
        q = g.valid()
        if ctx.z.baseline({"k": "can", "q": q})[0] == "True":
            return q
    return '[word = "a"] "b"'


def gen_call(ctx, rng, q=None, kinds=KINDS):
    """one of the few calls of this group (same for everyone who draws the same number)"""
    if q is None:
        q = ctx.query(rng)
    rng = ctx.rng("gcall", ctx.g, q, json.dumps(kinds), rng.randrange(PROPS[ctx.prop].V))
    return make_call(ctx, rng, q, kinds)


def make_call(ctx, rng, q, kinds):
    k = pick(rng, kinds)
    c = {"k": k, "q": q}
    if k == "parse":
        if rng.random() < 0.3:
            c["loc"] = False
    elif k == "validate":
        if rng.random() < 0.65:
            c["re"] = True
        if rng.random() < 0.5:
            c["wae"] = True
        if rng.random() < 0.2:
            c["ver"] = rng.choice(["2.2", "2.2", "x.1", "x.1", "x.1", "2.0", "1.2", ""])
    elif k == "pparse":
        c["opts"] = popts(rng)
    elif k == "vval":
        c["q"] = valid_for_tree(ctx, rng, q)
        c["vopts"] = vopts(rng, c["q"])
        if rng.random() < 0.3:
            c["loc"] = False
        if rng.random() < 0.3:
            c["passq"] = False
        if rng.random() < 0.35:
            c["how"] = "is_valid"
        if rng.random() < 0.5:
            c["custom"] = True
    elif k in ("render", "visit", "copy"):
        c["q"] = valid_for_tree(ctx, rng, q)
        if k == "copy":
            c["how"] = rng.choice(["deepcopy", "pickle", "pypickle"])
            c["proto"] = rng.choice([2, 3, 4, 5])
        if k == "visit":
            if rng.random() < 0.3:
                c["how"] = "accept"
            if rng.random() < 0.3:
                c["stop_at"] = rng.randrange(1, 6)
            if rng.random() < 0.2:
                c["raise_at"] = rng.randrange(1, 5)
            if rng.random() < 0.4:
                c["peek"] = True
    if k in NEEDS_TREE and rng.random() < 0.08:
        c["holes"] = rng.randrange(1 << 20)
    if k in NEEDS_TREE and rng.random() < 0.12:
        c["part"] = rng.randrange(1, 12)
    return c


def make_query_set(rng, n):
    """a few queries: often a family of near-identical texts"""
    g = Gen(rng)
    q = g.query() if rng.random() < 0.75 else rng.choice(DENSE)
    x = rng.random()
    if x < 0.22:
        return [q]
    if x < 0.64:
        return g.family(q, n)
    if x < 0.74:
        return g.layered(n)
    return [q] + [g.query() for _ in range(n - 1)]


def query_set(ctx, rng, n):
    """queries of one run"""
    if rng.random() < 0.3:
        return [rng.choice(ctx.qs)]
    i = rng.randrange(len(ctx.qs))
    return [ctx.qs[(i + j) % len(ctx.qs)] for j in range(n)]


# ------------------------------------------------------------ fault and switch points


def loc_class(key):
    f = key[0]
    if f in GENERATED:
        return "gen"
    return "core" if f.startswith("fcsql/") else "antlr"


def entries(prof, cls, gran):
    src = prof["L"] if gran == "line" else prof["I"]
    return [e for e in src if loc_class(e[0]) == cls]


CLASSES = [(("core", "line"), 50), (("core", "instr"), 25), (("gen", "line"), 12), (("antlr", "line"), 13)]


def pick_k(rng, n):
    x = rng.random()
    if n <= 1 or x < 0.35:
        return 1
    if x < 0.5:
        return n
    return rng.randrange(1, n + 1)


def pick_loc(rng, prof, classes=CLASSES, kmax=None):
    if prof.get("R") and rng.random() < 0.6:
        e = rng.choice(prof["R"])
        return {"loc": e[:3], "k": pick_k(rng, e[3])}
    if rng.random() < 0.15:
        es = [e for e in prof["I"] if (tuple(e[0]), e[2]) in engine.HOTKEYS]
        if es:
            e = rng.choice(es)
            return {"loc": [e[0], e[1], e[2]], "k": pick_k(rng, e[3])}
    for _ in range(8):
        cls, gran = pick(rng, classes)
        es = entries(prof, cls, gran)
        if es:
            e = rng.choice(es)
            return {"loc": [e[0], e[1], e[2]], "k": pick_k(rng, e[3])}
    e = rng.choice(prof["L"])
    return {"loc": [e[0], e[1], e[2]], "k": pick_k(rng, e[3])}


def sweep_loc(ctx, rng, prof, tag, t):
    """t-th location of a seeded permutation of all hand-written-code locations (no repeats before all are used)"""
    if prof.get("R") and rng.random() < 0.6:
        return pick_loc(rng, dict(prof, L=prof["R"], I=[]))
    ls, ins = entries(prof, "core", "line"), entries(prof, "core", "instr")
    if not ls and not ins:
        return pick_loc(rng, prof)
    key = (tag, len(ls), len(ins))
    order = ctx.orders.get(key)
    if order is None:
        # lines are gone through first, instructions are mixed in
        r = ctx.rng("order", tag)
        a, b = list(range(len(ls))), list(range(len(ls), len(ls) + len(ins)))
        r.shuffle(a)
        r.shuffle(b)
        order = []
        while a or b:
            order += a[:2] + b[:1]
            del a[:2], b[:1]
        if len(ctx.orders) > 200:
            ctx.orders.clear()
        ctx.orders[key] = order
    e = order[t % len(order)]
    e = ls[e] if e < len(ls) else ins[e - len(ls)]
    return {"loc": [e[0], e[1], e[2]], "k": pick_k(rng, e[3])}


def add_schedule(ctx, rng, scen, main=0):
    """decide how the threads of a scenario are interleaved"""
    x = rng.random()
    seed = rng.randrange(1 << 30)
    threads = scen["phases"][-1]["threads"]
    if rng.random() < (0.35 if ctx.lazy else 0.07) and race_first(ctx, rng, scen, threads):
        return scen
    if engine.HOT and rng.random() < 0.2:
        # only where state that outlives a call is accessed
        scen["watch"] = {"set": "hot", "gran": "instr"}
        if rng.random() < 0.75:
            scen["policy"] = {"kind": "gap", "gap": rng.choice([0, 1, 2, 4, 8]), "seed": seed}
        elif rng.random() < 0.5:
            scen["policy"] = {"kind": "rr", "q": rng.choice([1, 1, 2, 3]), "seed": seed}
        else:
            scen["policy"] = {"kind": "pct", "d": rng.randrange(1, 6), "est": rng.choice([20, 60, 150]), "seed": seed}
        return scen
    if x < 0.30:
        # a few preemptions at chosen points of chosen operations
        scen["watch"] = {"set": "locs"}
        scen["policy"] = None
        for _ in range(rng.choice([1, 1, 2, 3])):
            t = rng.randrange(len(threads))
            op = rng.choice(threads[t])
            if op["call"]["k"] in SPECIAL:
                continue
            prof = ctx.z.profile(strip(op["call"]))
            if not prof["L"]:
                continue
            a = pick_loc(rng, prof)
            a["do"] = ["switch", (t + rng.randrange(1, len(threads))) % len(threads)] if rng.random() < 0.9 else pause(rng)
            op.setdefault("acts", []).append(a)
        return scen
    if x < 0.50:
        scen["watch"] = {"set": "core", "gran": "line"}
        scen["policy"] = {"kind": "gap", "gap": rng.choice([1, 3, 10, 40]), "seed": seed}
    elif x < 0.62:
        scen["watch"] = {"set": "core", "gran": "instr"}
        scen["policy"] = {"kind": "gap", "gap": rng.choice([2, 8, 40, 150]), "seed": seed}
    elif x < 0.74:
        trim(threads)
        scen["watch"] = {"set": "all", "gran": "line"}
        scen["policy"] = {"kind": "gap", "gap": rng.choice([30, 300, 3000, 20000]), "seed": seed, "limit": 1000}
    elif x < 0.80:
        scen["watch"] = {"set": "fcsql", "gran": "instr"}
        scen["policy"] = {"kind": "gap", "gap": rng.choice([20, 100, 700]), "seed": seed, "limit": 1500}
    elif x < 0.88:
        scen["watch"] = {"set": "core", "gran": rng.choice(["line", "instr"])}
        scen["policy"] = {"kind": "rr", "q": rng.choice([1, 2, 3, 7, 19]), "seed": seed, "limit": 2500}
    elif x < 0.94:
        scen["watch"] = {"set": "core", "gran": "line"}
        scen["policy"] = {"kind": "pct", "d": rng.randrange(1, 6), "est": rng.choice([500, 2000, 5000]), "seed": seed}
    else:
        trim(threads)
        scen["watch"] = {"set": "all", "gran": "line"}
        scen["policy"] = {"kind": "pct", "d": rng.randrange(1, 6), "est": rng.choice([20000, 100000, 300000]), "seed": seed}
    return scen


def race_aged(ctx, rng, nt=2, kinds=None):
    """what is done only now and then is interrupted by another thread that needs the same"""
    a = ctx.aged_call(rng)
    if not a or (kinds and a[0]["k"] not in kinds):
        return None
    call, rep = strip(a[0]), dict(a[1], call=strip(a[1]["call"]))
    if rng.random() < 0.2:
        rep["n"] = max(1, rep["n"] - rng.choice([1, 2]))
    threads = [[op(dict(call))] for _ in range(nt)]
    scen = {"phases": [{"threads": threads}], "env": {"warm": [rep]}, "watch": {"set": "locs"}, "policy": None}
    if engine.HOT and rng.random() < 0.3:
        scen["watch"] = {"set": "hot", "gran": "instr"}
        scen["policy"] = {"kind": "gap", "gap": rng.choice([0, 1, 2, 4]), "seed": rng.randrange(1 << 30)}
        return scen
    threads[0][0]["acts"] = [{"loc": rng.choice(rep["rare"])[:3], "k": 1, "do": ["switch", rng.randrange(1, nt)]} for _ in range(rng.choice([1, 1, 2]))]
    return scen


def race_first(ctx, rng, scen, threads):
    """the first execution of something in the process is interrupted by another thread that needs the same"""
    c = rng.choice([o["call"] for t in threads for o in t])
    if c["k"] in SPECIAL or c.get("tree") is not None:
        return False
    es = ctx.first_time(strip(c))
    if not es:
        return False
    scen["env"].pop("warm", None)
    scen["watch"] = {"set": "locs"}
    scen["policy"] = None
    n = len(threads)
    first = {"call": dict(c), "acts": []}
    for _ in range(rng.choice([1, 1, 2])):
        e = rng.choice(es)
        first["acts"].append({"loc": e[:3], "k": pick_k(rng, e[3]), "do": ["switch", rng.randrange(1, n)] if rng.random() < 0.9 else pause(rng)})
    threads[0].insert(0, first)
    for t in threads[1:]:
        if rng.random() < 0.7:
            t.insert(0, op(dict(c)))
    return True


def pauses(ctx, rng, ops):
    """the processor is taken away, or the wall clock set, in the middle of some of the calls"""
    for o in rng.sample(ops, min(len(ops), rng.choice([1, 1, 2, 5]))):
        if o["call"]["k"] in SPECIAL + ("flood", "census", "repeat"):
            continue
        prof = ctx.z.profile(strip(o["call"]))
        if prof["L"]:
            for _ in range(rng.choice([1, 1, 2])):
                a = pick_loc(rng, prof)
                a["do"] = pause(rng)
                o.setdefault("acts", []).append(a)


def trim(threads):
    """watching every line of the runtime is expensive: keep such runs small"""
    del threads[3:]
    for t in threads:
        del t[1:]


def strip(c):
    return {k: v for k, v in c.items() if k not in ("slot", "shared", "tree", "cb")}


def op(call, acts=None):
    o = {"call": call}
    if acts:
        o["acts"] = acts
    return o


def warmers(ctx, rng, calls):
    x = rng.random()
    if x < 0.5:
        return []
    if x < 0.75:
        return [strip(c) for c in calls if c["k"] not in SPECIAL]
    return [{"k": "can", "q": ctx.query(rng)} for _ in range(rng.randrange(1, 6))]


# ------------------------------------------------------------ judging


def all_ops(scen):
    for ph in scen["phases"]:
        for t in ph["threads"]:
            for o in t:
                yield o


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + "..."


def overtaken(rec, alone, z):
    """a call nested after this one had already published its error list on the same parser object published its own"""
    for nc, r, e, pre in rec.get("nested", ()):
        if pre == alone and rec["errs"] == e:
            return True
    return False


def recount(c, r, seen, oid):
    """every call of a census has the outcome it has in all other censuses"""
    try:
        got = ast.literal_eval(r)
    except (ValueError, SyntaxError):
        return [{"kind": "result-differs", "op": oid, "detail": "census: %s" % short(r)}]
    out = []
    for j, h in got.items():
        if seen.setdefault((c["seed"], j), h) != h:
            r, q = sweep_query(c["seed"], j)
            out.append({"kind": "result-differs", "op": oid, "detail": "%s: different outcomes before and after other calls" % short(sweep_call(r, q))})
    return out[:3]


def compare(scen, res, z, errs=True, faulted=False):
    """every operation without a fired fault has the outcome it has alone"""
    out = list(res["viol"])
    seen = {}
    for o in all_ops(scen):
        c = o["call"]
        if c["k"] in SPECIAL:
            continue
        rec = res["ops"].get(str(o["id"]))
        if rec is None:
            if not res["dead"]:
                out.append({"kind": "lost", "detail": "no outcome", "op": o["id"]})
            continue
        if rec.get("fired"):
            continue
        b = z.baseline(c if c["k"] != "census" else dict(c, js=sorted(c["js"])))
        if c["k"] == "flood" and "inconsistent" in rec["r"]:
            out.append({"kind": "result-differs", "op": o["id"], "detail": "%s: %s" % (short(c, 200), short(rec["r"]))})
        if c["k"] == "repeat" and len(ast.literal_eval(rec["r"]) if rec["r"].startswith("[") else ()) != 1:
            out.append({"kind": "result-differs", "op": o["id"], "detail": "%s: not always the same outcome: %s" % (short(c, 200), short(rec["r"]))})
        if c["k"] == "census":
            for r in (rec["r"], b[0]):
                out += recount(c, r, seen, o["id"])
        elif rec["r"] != b[0]:
            out.append({"kind": "result-differs", "op": o["id"], "detail": "%s: got %s, alone %s" % (short(c, 200), short(rec["r"]), short(b[0]))})
        elif errs and not c.get("shared") and rec["errs"] != b[1] and not overtaken(rec, b[1], z):
            out.append({"kind": "errors-differ", "op": o["id"], "detail": "%s: got %s, alone %s" % (short(c, 200), short(rec["errs"]), short(b[1]))})
        for nc, r, e, pre in rec.get("nested", ()):
            nb = z.baseline(nc)
            if r != nb[0]:
                out.append({"kind": "nested-differs", "op": o["id"], "detail": "nested %s: got %s, alone %s" % (short(nc, 200), short(r), short(nb[0]))})
            elif e != nb[1] and not nc.get("shared"):
                out.append({"kind": "nested-errors-differ", "op": o["id"], "detail": "nested %s: got %s, alone %s" % (short(nc, 200), short(e), short(nb[1]))})
    return out


def unforked(ctx, rng, kinds):
    """calls for a process that was never forked: their outcomes in a forked one must be the same"""
    ops = [op(strip(gen_call(ctx, rng, q, kinds))) for q in query_set(ctx, rng, 8) for _ in range(3)]
    return {"unforked": True, "phases": [{"threads": [ops]}], "env": {}, "policy": None, "watch": {"set": "locs"}, "steps": [], "replicas": []}


def judge_unforked(scen, res, z):
    """an outcome in the fork of an idle process is the one in a process that was never forked"""
    out = list(res["viol"])
    calls = {o["id"]: o["call"] for o in all_ops(scen)}
    for rid, got in res["outs"]:
        b = z.baseline(calls[rid])
        if got == b:
            continue
        # alone, to keep the history of that process out of it
        alone = z.run_fresh({"phases": [{"threads": [[{"id": rid, "call": calls[rid]}]]}]})
        if alone["outs"] and alone["outs"][0][1] != b:
            out.append({"kind": "fork-differs", "op": rid, "detail": "%s: in a process forked while idle %s, in one that was never forked %s" % (
                short(calls[rid], 200), short(b), short(alone["outs"][0][1]))})
    return out


def sweep(rng, what, n):
    """many different queries, each gone through once"""
    return op({"k": "sweep", "what": what, "seed": rng.randrange(1 << 30), "js": list(range(n))})


def repeat(call, n):
    return {"k": "repeat", "call": {k: v for k, v in call.items() if k not in ("prevq", "tree", "raise_at", "raise_exc")}, "n": n}


def census(ctx, rng, n, which=None):
    """many different calls in some order; their outcomes are noted one by one (a few fixed sets of them for each group)"""
    js = list(range(n))
    rng.shuffle(js)
    return op({"k": "census", "seed": ctx.rng("census", ctx.g, rng.randrange(2) if which is None else which).randrange(1 << 30), "js": js})


def around(ctx, rng, ops, n):
    """a census before and one after (or one only after)"""
    k = rng.randrange(2)
    a, b = census(ctx, rng, n, k), census(ctx, rng, n, k)
    return ([a] if rng.random() < 0.6 else []) + ops + [b]


class Prop:
    level = "exploration"
    KNOWN = ()
    AGED = True
    kinds = KINDS
    G = 16
    BLOCK = 160
    NQ = 6      # queries per group
    BIG = 0.5   # groups with a large query
    V = 4       # call variants per query

    def judge(self, scen, res, z):
        return compare(scen, res, z)

    def nontrivial(self, scen, res):
        return res["events"] > 0 or res["switches"] > 0 or bool(res["fl"])


# ------------------------------------------------------------ C01


TABLES = ['"a"{@,9@}', '"w@"', '[x-l@ = "a"]', '[q@:word = "b"]', '"\\x5@ c\\n"', '"a" [lemma = "o\u0308@"]', '[pos = "T@"]', '"w@', '[foo@ = "b"]', '"y"{@} within s']


def table_case(ctx, rng, scen, threads, make):
    """texts of one shape: the process has met some of them (a table may be nearly full), the threads ask for known and new ones"""
    shape = rng.choice(TABLES)
    n = rng.choice([1, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33]) if rng.random() < 0.6 else rng.randrange(1, 40)
    if rng.random() < 0.1:
        n = rng.choice([63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257])
    scen["env"]["warm"] = [dict(make(""), q=shape.replace("@", str(j))) for j in range(n)]
    for t in threads:
        for o in t:
            o["call"] = dict(make(shape.replace("@", "0")), q=shape.replace("@", str(max(0, n + rng.choice([-1, -1, -2, -n, 0, 0, 1, 2])))))


class C01(Prop):
    G = 32

    def generate(self, ctx, rng, i):
        if rng.random() < 0.25:
            scen = race_aged(ctx, rng, rng.choice([2, 2, 3]))
            if scen:
                return scen
        if rng.random() < 0.04:
            # every thread goes through many calls, all in their own order
            k = rng.randrange(2)
            threads = [[census(ctx, rng, 12, k if rng.random() < 0.8 else None)] for _ in range(rng.choice([2, 2, 3]))]
            scen = {"phases": [{"threads": threads}], "env": {}}
            hot = engine.HOT and rng.random() < 0.5
            scen["watch"] = {"set": "hot", "gran": "instr"} if hot else {"set": "core", "gran": "line"}
            scen["policy"] = {"kind": "gap", "gap": rng.choice([1, 3, 10] if hot else [20, 100, 600]), "seed": rng.randrange(1 << 30), "limit": 1500}
            return scen
        qs = query_set(ctx, rng, rng.choice([1, 2, 3]))
        nt = rng.choice([2, 2, 2, 3, 3, 4]) if rng.random() < 0.95 else rng.choice([6, 9, 12, 17])
        kinds = KINDS if rng.random() < 0.7 else [(rng.choice(["parse", "validate", "pparse", "vval", "antlr", "can"]), 1)]
        threads = [[op(gen_call(ctx, rng, rng.choice(qs), kinds)) for _ in range(rng.choice([1, 1, 2, 3] if nt < 4 else [1, 1, 2] if nt == 4 else [1]))] for _ in range(nt)]
        scen = {"phases": [{"threads": threads}], "env": {}}
        w = warmers(ctx, rng, [o["call"] for t in threads for o in t])
        if w:
            scen["env"]["warm"] = w
        if rng.random() < (0.25 if engine.HOT else 0.04):
            table_case(ctx, rng, scen, threads, lambda q: {"k": rng.choice(["can", "parse", "pparse", "validate"]), "q": q})
        return add_schedule(ctx, rng, scen)

    def nontrivial(self, scen, res):
        return res["switches"] >= 2


# ------------------------------------------------------------ C02


class C02(Prop):
    G = 32

    def generate(self, ctx, rng, i):
        if rng.random() < 0.25:
            scen = race_aged(ctx, rng, rng.choice([2, 2, 3]))
            if scen:
                for o in all_ops(scen):
                    o["call"].update(slot=0, shared=True)
                scen["env"].update(probes=["errs"], parsers={"0": o["call"]["opts"]})
                return scen
        nt = rng.choice([2, 2, 3, 3, 4]) if rng.random() < 0.96 else rng.choice([6, 9, 12])
        qs = query_set(ctx, rng, 4)
        if rng.random() < 0.7:
            r = ctx.rng("bad", ctx.g, rng.randrange(4))
            qs.append(Gen(r).main(r.choice([1, 2]), bad=r.choice(["esc", "flags", "quant"])))
            qs.append(r.choice(JUNK))
        opts = popts(rng)
        threads = [[op({"k": "pparse", "slot": 0, "shared": True, "opts": opts, "q": rng.choice(qs)}) for _ in range(rng.choice([1, 2, 2, 3]))] for _ in range(nt)]
        scen = {"phases": [{"threads": threads}], "env": {"probes": ["errs"], "parsers": {"0": opts}}}
        if rng.random() < 0.4:
            scen["env"]["warm"] = [{"k": "pparse", "opts": opts, "q": rng.choice(qs)}]
        if rng.random() < 0.25:
            scen["watch"] = {"set": "core", "gran": "line"}
            scen["policy"] = {"kind": "gap", "gap": rng.choice([2, 5]), "seed": rng.randrange(1 << 30)}
            return scen
        return add_schedule(ctx, rng, scen)

    def judge(self, scen, res, z):
        out = compare(scen, res, z)
        calls = []
        for o in all_ops(scen):
            rec = res["ops"].get(str(o["id"])) or {}
            b, e = rec.get("span") or (0, 1 << 60)
            calls.append((b, e, z.baseline(o["call"])[1]))
        for t, s in res["errs_seen"]:
            over = [b for b, e, _ in calls if e <= t]
            if s == "" and not over:
                continue
            mine = [(b, e) for b, e, errs in calls if errs == s and b <= t]
            if not mine:
                out.append({"kind": "errors-mixed", "op": None, "detail": "error list %s is not the list of any one call made so far (%s)" % (short(s), short(sorted({c[2] for c in calls})))})
            elif all(any(b2 > e for b2 in over) for b, e in mine):
                out.append({"kind": "errors-outdated", "op": None, "detail": "error list %s of a call that was over before one began that is over, too (%s)" % (short(s), short(calls))})
        return out

    def nontrivial(self, scen, res):
        return res["switches"] >= 2


# ------------------------------------------------------------ C03


class C03(Prop):
    def generate(self, ctx, rng, i):
        long = rng.random() < 0.05
        n = rng.choice([140, 300]) if long else rng.choice([3, 5, 8, 12, 20, 40])
        qs = []
        while len(qs) < (n if long else max(2, n // 2)):
            qs += query_set(ctx, rng, rng.choice([2, 3, 4]))
        slots = {}
        ops = []
        if rng.random() < 0.4:
            # texts that differ a little, asked in the same way
            q = ctx.query(rng)
            g = Gen(ctx.rng("near", q, rng.randrange(6)))
            near = [q] + [g.near(q) for _ in range(rng.choice([1, 2, 4]))]
            c = gen_call(ctx, rng, q)
            near = [op(dict(c, q=v)) for v in near if c["k"] not in NEEDS_TREE]
            rng.shuffle(near)
            ops += near
        flood = True
        for j in range(n):
            x = rng.random()
            if x < 0.04:
                ops.append(op({"k": "tick", "dt": rng.choice([0.1, 5, 100, 4000, 1e6])} if rng.random() < 0.6 else {"k": "tick", "dt": rng.choice([0, 1, 50]), "wall": rng.choice(JUMPS)}))
                continue
            if x < 0.06:
                ops.append(op({"k": "gc"}))
                continue
            if x > 0.985 and not long and rng.random() < (0.45 if flood else 0):
                flood = False
                ops.append(op({"k": "flood", "n": rng.choice([70, 130, 260, 520, 1100]), "seed": rng.randrange(40), "shapes": rng.choice([1, 2, 4]), "slot": rng.choice([None, 0])}))
                continue
            q = rng.choice(qs)
            if long and rng.random() < 0.4 and j > 20:
                q = qs[rng.randrange(min(10, len(qs)))]
            c = gen_call(ctx, rng, q if rng.random() < 0.85 else None, [("can", 1), ("parse", 1), ("validate", 1)] if long else KINDS)
            if c["k"] == "pparse" and rng.random() < 0.75:
                c["slot"] = rng.randrange(2)
                if rng.random() < 0.5 and ("p", c["slot"]) in slots:
                    c["opts"] = slots["p", c["slot"]]
                slots["p", c["slot"]] = c["opts"]
            if c["k"] == "vval" and rng.random() < 0.6:
                reuse_validator(rng, slots, c, rng.randrange(2))
            ops.append(op(c))
        if not long and rng.random() < 0.08:
            ops = around(ctx, rng, ops, 20)
        a = ctx.aged_call(rng) if rng.random() < 0.2 else None
        if a:
            ops[:0] = [op(a[1]), op(a[0]), op(dict(a[0])), op(strip(a[0]))]
        elif not long and rng.random() < 0.05:
            ops.insert(rng.randrange(len(ops)), op(repeat(rng.choice([o["call"] for o in ops if o["call"]["k"] not in SPECIAL + ("flood", "census", "repeat")] or [{"k": "can", "q": '"a"'}]),
                                                          rng.choice([20, 40, 70, 140, 270]))))
        if rng.random() < 0.15:
            pauses(ctx, rng, ops)
        scen = {"phases": [{"threads": [ops]}], "env": {"gc": [700, 10, 10]} if rng.random() < 0.2 else {}, "watch": {"set": "locs"}, "policy": None}
        return share_trees(scen, rng)

    def nontrivial(self, scen, res):
        return len(res["ops"]) >= 3


def share_trees(scen, rng, p=0.5):
    """calls that work on a tree use one and the same tree object again"""
    trees = {}
    for o in all_ops(scen):
        c = o["call"]
        if c["k"] in NEEDS_TREE and c.get("tree") is None and rng.random() < p:
            spec = {"q": c["q"], "loc": c.get("loc", True)}
            if c.get("holes") is not None:
                spec["holes"] = c["holes"]
            key = json.dumps(spec, sort_keys=True)
            c["tree"] = trees.setdefault(key, ("t%d" % len(trees), spec))[0]
    if trees:
        scen["env"]["trees"] = {slot: spec for slot, spec in trees.values()}
    return scen


def reuse_validator(rng, slots, c, slot):
    """route a vval call through a validator object kept under a slot: the accepted layers and qualifiers are fixed when it
    is created, how violations are treated is at times changed by the caller between two validations"""
    c["slot"] = slot
    key = ("v", slot)
    if key in slots:
        o, custom, prevq = slots[key]
        if rng.random() < 0.3:
            o = dict(o or {})
            o[rng.choice(["raise_at_first_violation", "warnings_as_errors"])] = rng.random() < 0.5
        c["vopts"] = o
        c.pop("custom", None)
        if custom:
            c["custom"] = True
    else:
        prevq = None
    c.pop("prevq", None)
    if c.get("passq", True):
        prevq = c["q"]
    elif prevq is not None:
        c["prevq"] = prevq
    slots[key] = (c["vopts"], c.get("custom"), prevq)


# ------------------------------------------------------------ fault-injected calls


FAULT_KINDS = [("parse", 3), ("pparse", 4), ("validate", 6), ("can", 2), ("antlr", 1.5), ("raw", .5), ("vval", 4), ("visit", 1.5), ("render", .7)]


def verbose(rng, scen, sure=False):
    """some runs have the library's debug messages on"""
    if rng.random() < 0.1 or sure:
        scen["env"]["log"] = {"raise": False, "level": 10 if sure else rng.choice([10, 10, 20]), "logger": "fcsql", "stream": "ok"}
    return scen


class FaultPool:
    """calls whose fault points are swept: a worker cycles through G of them at a time"""
    kinds = FAULT_KINDS
    G = 32
    BLOCK = 800

    MORE = 9        # further injected calls of a run (cheap: the process is warm by then)

    def debug(self, ctx):
        """does this group of runs have debug messages on? (then the code that writes them is swept, too)"""
        return ctx.g % 6 == 2

    def pool_call(self, ctx):
        j = ctx.g
        c = ctx._calls.get(j)
        if c is None:
            rng = ctx.rng("call", j)
            if j % 3 == 1:
                a = ctx.aged_call(rng)
                if a and a[0]["k"] in [k for k, w in self.kinds]:
                    ctx._calls[j] = c = (a[0], [a[1]])
                    return c
            x = rng.random()
            q = Gen(rng).main(rng.choice([1, 1, 2]), depth=1) if x < 0.25 else rng.choice(DENSE) if x < 0.75 else rng.choice(ctx.qs)
            if j % 12 == 5:
                q = Gen(rng).big(ctx.rng("pool").randrange(12) + j // 12 * 5)
            # kinds in turn, so that every kind of call is swept
            seq = [k for k, w in self.kinds for _ in range(max(1, round(w)))]
            c = make_call(ctx, rng, q, [(seq[j % len(seq)], 1)])
            w = [strip(c)] if rng.random() < 0.5 else []
            ctx._calls[j] = c = (c, w)
        return c

    def faulty(self, ctx, rng, names, extra=0.1):
        """(call, warm, acts) of this injected run"""
        call, warm = self.pool_call(ctx)
        prof = ctx.z.profile(call, warm, self.debug(ctx))
        if not prof["L"]:
            return call, warm, []
        first = ctx.first_time(strip(call)) if not warm and rng.random() < (0.5 if ctx.lazy else 0.1) else ()
        if first and rng.random() < 0.5:
            e = rng.choice(first)
            a = {"loc": e[:3], "k": pick_k(rng, e[3])}
        elif rng.random() < 0.7:
            a = sweep_loc(ctx, rng, prof, ctx.g, ctx.t * (1 + self.MORE))
        else:
            a = pick_loc(rng, prof)
        a["do"] = ["fault", rng.choice(names)]
        acts = [a]
        while rng.random() < extra:
            b = pick_loc(rng, prof)
            b["do"] = ["fault", rng.choice(names)]
            acts.append(b)
        return call, warm, acts

    def further(self, ctx, rng, names, n=None):
        """more injected calls of the same kind for the same run, at the next points of the sweep"""
        call, warm = self.pool_call(ctx)
        prof = ctx.z.profile(call, warm, self.debug(ctx))
        out = []
        if prof["L"]:
            for j in range(1, 1 + (self.MORE if n is None else n)):
                a = sweep_loc(ctx, rng, prof, ctx.g, ctx.t * (1 + self.MORE) + j)
                a["do"] = ["fault", rng.choice(names)]
                out.append(op(dict(call), [a]))
        return out


# ------------------------------------------------------------ C04


class C04(FaultPool, Prop):
    kinds = [("parse", 3), ("pparse", 5), ("validate", 5), ("can", 2), ("antlr", 2), ("raw", .5), ("vval", 2)]

    def generate(self, ctx, rng, i):
        names = ANY
        call, warm, acts = self.faulty(ctx, rng, names, 0.15)
        call = dict(call)
        slots = {}
        if call["k"] == "pparse" and rng.random() < 0.8:
            call["slot"] = 0
        if call["k"] == "vval" and rng.random() < 0.7:
            c2 = dict(call, passq=True)
            reuse_validator(rng, slots, c2, 0)
            call = c2
        ops = [op(call, acts)]
        for o in self.further(ctx, rng, names, rng.choice([0, 2, 4, self.MORE]) if rng.random() < 0.97 else 70):
            if "slot" in call:
                o["call"] = dict(call)
            ops.append(o)
            if rng.random() < 0.4:
                ops.append(op(dict(call)))
        if rng.random() < 0.25:
            c2 = gen_call(ctx, rng, None, self.kinds)
            p2 = ctx.z.profile(strip(c2))
            if p2["L"]:
                a2 = pick_loc(rng, p2)
                a2["do"] = ["fault", rng.choice(names)]
                ops.append(op(c2, [a2]))
        fam = ctx.family(call["q"], 3)
        for _ in range(rng.choice([1, 2, 3, 4])):
            x = rng.random()
            if x < 0.35:
                c = dict(call)
            else:
                c = gen_call(ctx, rng, rng.choice(fam) if x < 0.6 else None, self.kinds)
                if c["k"] == "pparse" and rng.random() < 0.7:
                    c["slot"] = 0
                elif c["k"] == "vval" and rng.random() < 0.7:
                    c["passq"] = True
                    reuse_validator(rng, slots, c, 0)
            ops.append(op(c))
        if rng.random() < 0.05:
            ops = around(ctx, rng, ops, 20)
        scen = {"phases": [{"threads": [ops]}], "env": {"warm": warm} if warm else {}, "watch": {"set": "locs"}, "policy": None}
        if rng.random() < 0.3:
            # other threads are in the middle of their calls when this one is abandoned
            other = [op(gen_call(ctx, rng, rng.choice(fam), self.kinds)) for _ in range(rng.choice([1, 2]))]
            scen["phases"] = [{"threads": [ops, other]}]
            if rng.random() < 0.5:
                o = other[0]
                a = pick_loc(rng, ctx.z.profile(strip(o["call"])))
                a["do"] = ["switch", 0]
                o["acts"] = [a]
                scen["phases"] = [{"threads": [other, ops]}]
                a["do"] = ["switch", 1]
            else:
                scen["watch"] = {"set": "core", "gran": "line"}
                scen["policy"] = {"kind": "gap", "gap": rng.choice([5, 30, 100]), "seed": rng.randrange(1 << 30)}
        if rng.random() < 0.3:
            tail = [op(gen_call(ctx, rng, rng.choice(fam + [call["q"]]), self.kinds)) for _ in range(2)]
            scen["phases"].append({"threads": [[t] for t in tail]})
        return verbose(rng, share_trees(scen, rng), self.debug(ctx))

    def nontrivial(self, scen, res):
        return bool(res["fl"])


# ------------------------------------------------------------ C05


def under_parse(stack):
    """was the failure raised inside tokenizing, parsing or tree building of a QueryParser.parse call?"""
    seen = False
    for f, q in stack:
        if q == "QueryParser.parse" and f.startswith("fcsql/"):
            seen = True
            continue
        if seen and (f.startswith("antlr4/") or f in GENERATED or q.startswith("ExpressionTreeBuilder.")):
            # constructing the machinery, and listener registration, is not yet tokenizing or parsing
            return not (q.endswith("__init__") or "ErrorListener" in q or q.endswith(("getNumberOfSyntaxErrors", "toStringTree")))
    return False


class C05(FaultPool, Prop):
    MORE = 24
    kinds = [("parse", 3), ("pparse", 3), ("validate", 7), ("can", 2), ("vval", 3)]

    def pool_call(self, ctx):
        c, w = super().pool_call(ctx)
        c = dict(c)
        if c["k"] == "vval":
            c["custom"] = False
            r = ctx.rng("verdict", ctx.g)
            c["how"] = r.choice(["is_valid", "validate"])
            c["vopts"] = dict(c["vopts"], raise_at_first_violation=r.random() < 0.65, warnings_as_errors=r.random() < 0.6)
        return c, w

    def generate(self, ctx, rng, i):
        call, warm, acts = self.faulty(ctx, rng, FAILURES, 0.15)
        env = {"wrap_parse": True}
        if warm:
            env["warm"] = warm
        ops = [op(dict(call), acts)] + self.further(ctx, rng, FAILURES)
        return verbose(rng, {"phases": [{"threads": [ops]}], "env": env, "watch": {"set": "locs"}, "policy": None}, self.debug(ctx))

    def judge(self, scen, res, z):
        out = compare(scen, res, z)
        for o in all_ops(scen):
            rec = res["ops"].get(str(o["id"]))
            if not rec or not rec.get("fired"):
                continue
            c = o["call"]
            b = z.baseline(c)[0]
            r = rec["r"]
            raised = r.startswith("raise ")
            inparse = all(under_parse(st) for _, _, st in rec["fired"])

            def bad(kind, detail):
                out.append({"kind": kind, "op": o["id"], "detail": "%s with %s: %s" % (short(c, 200), short([[f[0], f[1]] for f in rec["fired"]], 300), detail)})

            if c["k"] in ("parse", "pparse"):
                if not raised and r != b:
                    bad("different-tree", "got %s, fault-free %s" % (short(r), short(b)))
                if inparse and raised and r != b:
                    if not r.startswith("raise fcsql.parser.QueryParserException:"):
                        bad("not-parse-exception", short(r))
                    elif not rec.get("chain"):
                        bad("cause-lost", "the injected failure is not in the cause chain of %s" % short(r))
            elif c["k"] == "can" or (c["k"] == "validate" and not c.get("re")):
                if r == "True" and b != "True":
                    bad("rejected-becomes-accepted", "got %s, fault-free %s" % (r, short(b)))
                if not raised and r not in ("True", "False"):
                    bad("no-verdict", r)
            elif c["k"] == "validate":
                if not raised and r == "list: " and b != "list: ":
                    bad("rejected-becomes-accepted", "empty error list, fault-free %s" % short(b))
                if not raised and not r.startswith("list: "):
                    bad("no-verdict", r)
                if r == "list: " and rec.get("pr"):
                    bad("failed-parse-without-errors", "the parse failed but the error list is empty")
            elif c["k"] == "vval":
                if r == "True" and b != "True":
                    bad("rejected-becomes-accepted", "got %s, fault-free %s" % (r, short(b)))
        return out

    def nontrivial(self, scen, res):
        return bool(res["fl"])


# ------------------------------------------------------------ C06


class C06(FaultPool, Prop):
    MORE = 24
    KNOWN = [{"phases": [{"threads": [[{"id": 0, "call": {"k": "parse", "q": '"a"{2,1'},
                                        "acts": [{"loc": [["antlr4/LL1Analyzer.py", 110, "LL1Analyzer._LOOK"], "line", 155], "k": 1, "do": ["fault", "KeyboardInterrupt"]}]}]]}],
              "env": {}, "watch": {"set": "locs"}, "policy": None}]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.12:
            # cancellation raised inside a user callback
            c = gen_call(ctx, rng, None, [("vval", 1), ("visit", 1)])
            if c["k"] == "vval":
                c["custom"] = True
            c["raise_at"] = rng.randrange(1, 5)
            c["raise_exc"] = rng.choice(CANCELS)
            return {"phases": [{"threads": [[op(c)]]}], "env": {}, "watch": {"set": "locs"}, "policy": None}
        call, warm, acts = self.faulty(ctx, rng, CANCELS, 0.1)
        ops = [op(dict(call), acts)] + self.further(ctx, rng, CANCELS)
        return verbose(rng, {"phases": [{"threads": [ops]}], "env": {"warm": warm} if warm else {}, "watch": {"set": "locs"}, "policy": None}, self.debug(ctx))

    def judge(self, scen, res, z):
        out = compare(scen, res, z)
        for o in all_ops(scen):
            rec = res["ops"].get(str(o["id"]))
            if not rec:
                continue
            if rec.get("fired") and not rec["same"]:
                out.append({"kind": "cancellation-lost", "op": o["id"], "detail": "%s: %s delivered at %s, outcome %s" % (
                    short(o["call"], 200), rec["fired"][-1][0], short(rec["fired"][-1][1]), short(rec["r"]))})
            if rec.get("cbraised") and not rec.get("fired") and not rec.get("cbsame"):
                out.append({"kind": "cancellation-lost", "op": o["id"], "detail": "%s: raised in callback %d, outcome %s" % (
                    short(o["call"], 200), o["call"]["raise_at"], short(rec["r"]))})
        return out

    def nontrivial(self, scen, res):
        return bool(res["fl"]) or any(o["call"].get("raise_exc") for o in all_ops(scen))


# ------------------------------------------------------------ C07


class C07(Prop):
    G = 8
    BLOCK = 120
    V = 2
    NQ = 4

    def generate(self, ctx, rng, i):
        ops = []
        trees = 0
        kinds = [("parse", 3), ("can", 2), ("validate", 5), ("pparse", 2), ("vval", 3), ("render", .5), ("visit", .7)]
        for _ in range(rng.choice([1, 1, 2, 3])):
            x = rng.random()
            if x < 0.6:
                q, shallow, depth = self.nested(ctx.rng("nest", ctx.g, rng.randrange(8)), [1, 2, 3, 5, 8, 12, 18, 26])
            elif x < 0.65:
                # far deeper than anything else here
                q, shallow, depth = self.nested(ctx.rng("deep", rng.randrange(60)), [40, 60, 90, 130, 130, 200, 300, 400, 600])
                for _ in range(2):
                    c = dict(gen_call(ctx, rng, q, [("validate", 4), ("parse", 1), ("pparse", 1), ("can", 1), ("vval", 2)]))
                    if c["q"] == q and shallow:
                        c.update(shallow=shallow, depth=depth)
                        ops.append(op(c))
                continue
            else:
                q, shallow = ctx.query(rng), None
            for _ in range(rng.choice([1, 2, 3])):
                c = dict(gen_call(ctx, rng, q, kinds))
                if shallow and c["q"] == q:
                    c.update(shallow=shallow, depth=depth)
                need = ctx.z.need({k: v for k, v in c.items() if k not in ("shallow", "depth")})
                if c["k"] in NEEDS_TREE:
                    trees += 1
                    c["tree"] = trees
                    mk = {"k": "mktree", "q": c["q"], "loc": c.get("loc", True), "tree": trees}
                    if c.get("holes") is not None:
                        mk["holes"] = c["holes"]
                    ops.append(op(mk))
                for _ in range(rng.choice([1, 2, 4])):
                    c2 = dict(c)
                    y = rng.random()
                    if y < 0.45:
                        # just around what the call needs
                        c2["headroom"] = max(8, need + rng.randrange(-40, 4))
                    elif y < 0.9:
                        c2["headroom"] = rng.randrange(8, max(10, need + 1))
                    else:
                        c2["headroom"] = rng.randrange(20, 1500)
                    ops.append(op(c2))
            if rng.random() < 0.6:
                ops.append(op(gen_call(ctx, rng, q if rng.random() < 0.5 else None, kinds)))
        ops.append(op(gen_call(ctx, rng, None, KINDS)))
        return {"phases": [{"threads": [ops]}], "env": {}, "watch": {"set": "locs"}, "policy": None}

    MIN = 40

    def nested(self, r, depths):
        """(query, same query nested once or None, depth)"""
        depth = r.choice(depths)
        layer = r.choice(["nolayer", "nolayer", "word", "x-y", "text", "pos"]) if r.random() < (0.5 if depth < 30 else 0.85) else None
        esc = r.random() < 0.1

        def edit(s):
            # the violation is at the very bottom
            if depth > 30 and "[" not in s and "=" not in s:
                s = "[a=" + s.replace("?", "").replace("+", "").replace("*", "").split("{")[0] + "]"
            if layer:
                s = re.sub(r"[a-z0-9A-Z-]+(\s*!?=)", lambda m: layer + m.group(1), s)
            return s.replace('"', '"\\}', 1) if esc else s

        q, shallow = Gen(r).nest(depth, r.choice(["qgroup", "egroup", "mixed"] if depth < 30 else ["qgroup", "egroup"]), edit)
        if r.random() < 0.2 and depth < 30:
            q = q[:-1] + r.choice(["", "/x", "]", '"'])
            shallow = None
        return q, shallow, depth

    def depth_free(self, c, b):
        """an outcome without what nesting is bound to change: positions, and the number of groups in a row"""
        r, errs = b
        if c["k"] in ("parse", "pparse"):
            lines = [re.sub(r"@[^@]*?(!parent)?$", r"\1", re.sub(r"^\d+:", "", l)) for l in r.split("\n")]
            r = [l for l in lines if not re.match("QueryGroup|QuerySequence|ExpressionGroup", l)]
        elif c["k"] == "vval" or c["k"] == "validate":
            r, errs = [re.sub(r"\|\d+:\d+\|", "||", x) if isinstance(x, str) else x for x in (r, errs)]
            if c["k"] == "vval":
                # (a user validator of the harness records every node it saw)
                r, errs = r.split(" <- ")[0].split(" fragment=")[0], errs.split(" / ")[:2]
        return [r, errs]

    def judge(self, scen, res, z):
        out = list(res["viol"])
        for o in all_ops(scen):
            c = o["call"]
            rec = res["ops"].get(str(o["id"]))
            if "shallow" not in c or rec is None or c["k"] in ("render", "visit") or c.get("holes") is not None or c.get("part") or z.baseline({"k": "can", "q": c["shallow"]})[0] != "True":
                continue
            b, s = z.baseline(c), z.baseline(dict(c, q=c["shallow"]))
            if rec["r"] == b[0] and self.depth_free(c, b) != self.depth_free(c, s):
                out.append({"kind": "depth-changes-answer", "op": o["id"], "detail": "%s: got %s, nested once only %s: %s" % (
                    short(c, 300), short(b), short(c["shallow"], 200), short(s))})
        for o in all_ops(scen):
            c = o["call"]
            if c["k"] in SPECIAL:
                continue
            rec = res["ops"].get(str(o["id"]))
            if rec is None:
                out.append({"kind": "lost", "detail": "no outcome", "op": o["id"]})
                continue
            b = z.baseline(c)
            r = rec["r"]
            if r == b[0] and (rec["errs"] == b[1]):
                continue
            if "headroom" not in c:
                out.append({"kind": "later-call-differs", "op": o["id"], "detail": "%s: got %s, alone %s" % (short(c, 200), short([r, rec["errs"]]), short(b))})
                continue
            k = c["k"]
            ok = False
            if k in NEEDS_TREE:
                # working on a parsed tree promises no conversion of the failure, but never another answer
                ok = r.startswith("raise builtins.RecursionError")
            elif r.startswith("raise builtins.RecursionError"):
                ok = c["headroom"] < self.MIN
            elif k in ("parse", "pparse"):
                ok = r.startswith("raise fcsql.parser.QueryParserException:")
            elif k == "can":
                ok = r == "False"
            elif k == "validate":
                ok = r == "False" if not c.get("re") else (r.startswith("list: ") and r != "list: ")
            if not ok:
                out.append({"kind": "wrong-failure", "op": o["id"], "detail": "%s: got %s, with enough stack %s" % (short(c, 300), short(r), short(b[0]))})
        return out

    def nontrivial(self, scen, res):
        return any("headroom" in o["call"] for o in all_ops(scen))


# ------------------------------------------------------------ C08


class C08(Prop):
    kinds = [("parse", 4), ("pparse", 4), ("validate", 4), ("antlr", 1), ("vval", 4)]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.1:
            return {"phases": [{"threads": [[sweep(rng, "mut", rng.choice([20, 40])) if rng.random() < 0.75 else sweep(rng, "crowd", rng.choice([20, 40, 90]))]]}], "env": {}, "watch": {"set": "locs"}, "policy": None}
        n = rng.choice([2, 3, 5, 8])
        qs = query_set(ctx, rng, rng.choice([1, 2, 3]))
        slots = {}
        ops = []
        nm = 0
        for j in range(n):
            c = gen_call(ctx, rng, rng.choice(qs), self.kinds)
            if c["k"] == "pparse" and rng.random() < 0.8:
                c["slot"] = 0
                c["opts"] = slots.setdefault("p", c["opts"])
            if c["k"] == "vval" and rng.random() < 0.8:
                reuse_validator(rng, slots, c, 0)
            ops.append(op(c))
            if rng.random() < 0.6:
                ops.append(op({"k": "mutate", "i": rng.randrange(16), "seed": rng.randrange(1 << 20)}))
                nm += 1
        for q in qs:
            ops.append(op(gen_call(ctx, rng, q, self.kinds)))
        if rng.random() < 0.3:
            # some of the calls fail or are cancelled midway
            for o in ops:
                c = o["call"]
                if c["k"] not in SPECIAL and (c["k"] != "vval" or "slot" not in c) and rng.random() < 0.3:
                    prof = ctx.z.profile(strip(c))
                    if prof["L"]:
                        a = pick_loc(rng, prof)
                        a["do"] = ["fault", rng.choice(ANY)]
                        o["acts"] = [a]
        env = {"snap": True}
        if rng.random() < 0.25:
            # the same with the calls spread over threads
            half = len(ops) // 2
            shared = [dict(o) for o in ops]
            for o in shared:
                o["call"] = {k: v for k, v in o["call"].items() if k not in ("slot", "prevq")}
            scen = {"phases": [{"threads": [shared[:half], shared[half:]]}], "env": env}
            scen["watch"] = {"set": "core", "gran": "line"}
            scen["policy"] = {"kind": "gap", "gap": rng.choice([10, 60, 200]), "seed": rng.randrange(1 << 30)}
            return scen
        return {"phases": [{"threads": [ops]}], "env": env, "watch": {"set": "locs"}, "policy": None}

    def nontrivial(self, scen, res):
        return res["stats"].get("snapshot", 0) >= 2


# ------------------------------------------------------------ C09


class C09(Prop):
    def generate(self, ctx, rng, i):
        if rng.random() < 0.06:
            return {"phases": [{"threads": [[sweep(rng, "reuse", 40)]]}], "env": {}, "watch": {"set": "locs"}, "policy": None}
        slots = {}
        ops = []
        qs = query_set(ctx, rng, 3) + [Gen(ctx.rng("v", ctx.g, rng.randrange(3))).valid()]
        for _ in range(rng.choice([2, 3, 4, 6, 10])):
            c = gen_call(ctx, rng, rng.choice(qs), [("vval", 1)])
            if rng.random() < 0.15:
                c["part"] = ctx.rng("part", ctx.g, c["q"]).randrange(1, 9)
            reuse_validator(rng, slots, c, 0 if rng.random() < 0.8 else 1)
            x = rng.random()
            acts = None
            if c.get("custom") and x < 0.3:
                c["raise_at"] = rng.randrange(1, 6)
                if rng.random() < 0.5:
                    c["raise_exc"] = rng.choice(ANY)
            elif x < 0.55:
                c["passq"] = True
                c.pop("prevq", None)
                s = slots["v", c["slot"]]
                slots["v", c["slot"]] = (s[0], s[1], c["q"])
                prof = ctx.z.profile(strip(c))
                if prof["L"]:
                    a = pick_loc(rng, prof, [(("core", "line"), 60), (("core", "instr"), 40)])
                    a["do"] = ["fault", rng.choice(ANY)]
                    acts = [a]
            ops.append(op(c, acts))
        # after a fault the next validation on that validator gives its own query text
        hot = set()
        for o in ops:
            s = o["call"]["slot"]
            if s in hot and o["call"].get("passq", True) is False:
                o["call"].pop("passq")
                o["call"].pop("prevq", None)
            if o.get("acts"):
                hot.add(s)
        if rng.random() < 0.1:
            # the object has been used very often
            ops.insert(rng.randrange(len(ops)), op(repeat(dict(rng.choice(ops)["call"], passq=True), rng.choice([15, 31, 70, 140]))))
        fix_prevq(ops)
        return share_trees({"phases": [{"threads": [ops]}], "env": {}, "watch": {"set": "locs"}, "policy": None}, rng)

    def judge(self, scen, res, z):
        out = compare(scen, res, z)
        for o in all_ops(scen):
            errs = (res["ops"].get(str(o["id"])) or {}).get("errs") or ""
            if o["call"]["k"] == "vval" and ("FOREIGN-PARENT" in errs or "PARENT-AT-ROOT" in errs):
                out.append({"kind": "foreign-ancestor", "op": o["id"], "detail": "%s: a callback saw an ancestor that is not in the tree being validated: %s" % (short(o["call"], 200), short(errs))})
        return out

    def nontrivial(self, scen, res):
        return len(res["ops"]) >= 2 or bool(res["stats"].get("swept"))


def fix_prevq(ops):
    last = {}
    for o in ops:
        c = o["call"]
        if c["k"] == "repeat":
            last[c["call"]["slot"]] = c["call"]["q"]
            continue
        if c["k"] != "vval" or "slot" not in c:
            continue
        if c.get("passq", True):
            last[c["slot"]] = c["q"]
            c.pop("prevq", None)
        elif last.get(c["slot"]) is not None:
            c["prevq"] = last[c["slot"]]
        else:
            c.pop("prevq", None)


# ------------------------------------------------------------ C10


class C10(FaultPool, Prop):
    kinds = [("parse", 3), ("pparse", 3), ("validate", 4), ("can", 2), ("antlr", 3), ("vval", 2), ("visit", 1), ("render", .5)]

    def generate(self, ctx, rng, i):
        call, warm = self.pool_call(ctx)
        env = {"warm": warm} if warm and warm[0].get("rare") else {}
        ops = [op(dict(call))]
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(op(gen_call(ctx, rng, None, self.kinds if rng.random() < 0.7 else [("validate", 1)])))
        if rng.random() < 0.08:
            ops = [sweep(rng, "out", 30)]
        x = rng.random()
        if x < 0.75:
            stream = rng.choice(["ok", "ok", "slow", "flaky", "short", "full", "eio", "pipe", "closed", "ascii"])
            # (logging reports its own troubles on stderr if asked to: with a working stream there are none)
            log = {"raise": stream in ("ok", "slow", "short") and rng.random() < 0.7, "level": rng.choice([10, 10, 10, 20, 30]), "logger": rng.choice(["fcsql", "fcsql", "fcsql.parser", ""]),
                   "stream": stream}
            env["log"] = log
        y = rng.random()
        if y < 0.35:
            env["std"] = {"capture": True}
        elif y < 0.7:
            env["std"] = {"stderr": rng.choice([None, "ok", "closed", "eio", "pipe", "full"]), "stdout": rng.choice([None, "ok", "closed", "eio", "pipe"])}
        if "log" in env and rng.random() < 0.5:
            # the level is switched in the middle of the call
            for o in ops:
                prof = ctx.z.profile(strip(o["call"])) if o["call"]["k"] not in SPECIAL else {"L": []}
                if not prof["L"]:
                    continue
                for _ in range(rng.choice([1, 2, 4])):
                    a = pick_loc(rng, prof)
                    a["do"] = ["log", rng.choice([10, 10, 20, 40]), env["log"]["logger"]]
                    o.setdefault("acts", []).append(a)
        if rng.random() < 0.2:
            pauses(ctx, rng, ops)
        scen = {"phases": [{"threads": [ops]}], "env": env, "watch": {"set": "locs"}, "policy": None}
        if rng.random() < 0.2:
            scen["phases"] = [{"threads": [ops, [op(gen_call(ctx, rng, None, self.kinds))]]}]
            scen["watch"] = {"set": "core", "gran": "line"}
            scen["policy"] = {"kind": "gap", "gap": rng.choice([20, 100]), "seed": rng.randrange(1 << 30)}
        return scen

    def nontrivial(self, scen, res):
        return bool(scen["env"])


# ------------------------------------------------------------ C11


class C11(FaultPool, Prop):
    kinds = [("parse", 3), ("pparse", 5), ("validate", 4), ("can", 1), ("antlr", 1), ("vval", 3), ("visit", 1), ("render", .5)]

    def nested_call(self, ctx, rng, outer):
        x = rng.random()
        q = outer["q"] if x < 0.3 else (rng.choice(ctx.family(outer["q"], 4)) if x < 0.55 else None)
        c = gen_call(ctx, rng, q, self.kinds)
        if outer.get("slot") is not None and outer["k"] == "pparse" and rng.random() < 0.6:
            c = {"k": "pparse", "slot": outer["slot"], "opts": outer["opts"], "q": c["q"]}
        return c

    def generate(self, ctx, rng, i):
        call, warm = self.pool_call(ctx)
        call = dict(call)
        env = {"warm": warm} if warm else {}
        if call["k"] == "pparse":
            call["slot"] = 0
        x = rng.random()
        acts = []
        prof = ctx.z.profile(strip(call), warm)
        if x < 0.7 or not prof["L"]:
            if prof["L"]:
                for m in range(rng.choice([1, 1, 2, 3])):
                    a = sweep_loc(ctx, rng, prof, ctx.g, ctx.t) if m == 0 and rng.random() < 0.6 else pick_loc(rng, prof)
                    a["do"] = ["call", self.nested_call(ctx, rng, call)]
                    acts.append(a)
        elif x < 0.85:
            env["log"] = {"level": 10, "nest": [self.nested_call(ctx, rng, call) for _ in range(rng.choice([1, 2, 3]))], "every": rng.choice([1, 2, 5, 13]), "raise": False, "depth": rng.choice([1, 1, 2, 3, 5])}
        else:
            call = gen_call(ctx, rng, None, [("vval", 2), ("visit", 1)])
            call["cb"] = True
            if call["k"] == "vval":
                call["custom"] = True
            env.pop("warm", None)
            env["cbcalls"] = [self.nested_call(ctx, rng, call) for _ in range(rng.choice([1, 2, 3]))]
            if rng.random() < 0.5:
                # each nested call nests the next one in its own callback
                deep = []
                for _ in range(rng.choice([1, 2, 3, 4, 8])):
                    c = gen_call(ctx, rng, None, [("vval", 2), ("visit", 1)])
                    c["cb"] = True
                    if c["k"] == "vval":
                        c["custom"] = True
                    deep.append(c)
                env["cbcalls"] = deep + env["cbcalls"]
        ops = [op(call, acts)]
        if call.get("slot") == 0 and call["k"] == "pparse" and rng.random() < 0.5:
            # leaves an error list on the parser object
            ops.insert(0, op({"k": "pparse", "slot": 0, "opts": call["opts"], "q": '[word = "zzz'}))
        after = gen_call(ctx, rng, call["q"] if rng.random() < 0.5 else None, self.kinds)
        ops.append(op(after))
        return {"phases": [{"threads": [ops]}], "env": env, "watch": {"set": "locs"}, "policy": None}

    def nontrivial(self, scen, res):
        return any(r.get("nested") for r in res["ops"].values())


# ------------------------------------------------------------ C12


class C12(FaultPool, Prop):
    def generate(self, ctx, rng, i):
        x = rng.random()
        env = {"probes": ["fp"]}
        if rng.random() < 0.06:
            return {"phases": [{"threads": [[sweep(rng, "fp", rng.choice([25, 25, 25, 50, 110]))]]}], "env": env, "watch": {"set": "locs"}, "policy": None}
        if x < 0.35:
            call, warm = self.pool_call(ctx)
            if rng.random() < 0.3:
                # what is done only for large queries
                n = rng.randrange(48)
                r = ctx.rng("large", n)
                call, warm = make_call(ctx, r, Gen(r).big(n), [("parse", 2), ("pparse", 1), ("validate", 3), ("can", 1), ("vval", 2), ("antlr", .5)]), []
            if warm:
                env["warm"] = warm
            return {"phases": [{"threads": [[op(dict(call))]]}], "env": env, "watch": {"set": "core", "gran": "line"},
                    "policy": {"kind": "probe", "q": rng.choice([1, 1, 2]), "seed": 0, "limit": 3000}}
        if x < 0.85:
            call, warm, acts = self.faulty(ctx, rng, ANY, 0.1)
            if warm:
                env["warm"] = warm
            ops = [op(dict(call), acts), op({"k": "probe"})]
            for o in self.further(ctx, rng, ANY, rng.choice([0, 3, self.MORE])):
                ops += [o, op({"k": "probe"})]
            if rng.random() < 0.4:
                ops.append(op(gen_call(ctx, rng, None)))
            return {"phases": [{"threads": [ops]}], "env": env, "watch": {"set": "locs"}, "policy": None}
        threads = [[op(gen_call(ctx, rng)) for _ in range(rng.choice([1, 2]))] for _ in range(2)]
        return {"phases": [{"threads": threads}], "env": env, "watch": {"set": "core", "gran": "line"},
                "policy": {"kind": "gap", "gap": rng.choice([3, 10, 40]), "seed": rng.randrange(1 << 30), "limit": 800}}

    def nontrivial(self, scen, res):
        return res["stats"].get("fingerprint", 0) > 0


# ------------------------------------------------------------ C13 (see retain.py)


class C13(FaultPool, Prop):
    kinds = [("parse", 3), ("pparse", 4), ("validate", 5), ("can", 2), ("antlr", 1), ("vval", 4), ("visit", 1)]

    def generate(self, ctx, rng, i):
        x = rng.random()
        if x < 0.15:
            calls = [self.template(ctx, rng) for _ in range(rng.choice([2, 3, 4]))]
            return {"kind": "retain", "mode": "growth", "phases": [{"threads": [[op(c) for c in calls]]}], "rounds": 14}
        if x < 0.25:
            return {"kind": "retain", "mode": "drop", "phases": [{"threads": [[sweep(rng, "mark", rng.choice([10, 25, 40, 70, 150]))]]}]}
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            c = self.template(ctx, rng)
            acts = None
            y = rng.random()
            if y < 0.5:
                prof = ctx.z.profile(strip(c))
                if prof["L"]:
                    a = pick_loc(rng, prof)
                    a["do"] = ["fault", rng.choice(ANY)]
                    acts = [a]
            if c["k"] in ("pparse", "vval") and rng.random() < 0.7:
                c["slot"] = 0
                if c["k"] == "vval":
                    c["vopts"] = {"raise_at_first_violation": bool(i % 2)}
                    c["custom"] = True
            ops.append(op(c, acts))
        return {"kind": "retain", "mode": "drop", "phases": [{"threads": [ops]}]}

    def template(self, ctx, rng):
        c = gen_call(ctx, rng, None, self.kinds)
        q = c["q"]
        if rng.random() < 0.5:
            q = rng.choice(['[text = "@M"]', '"@M"', '[pos = "@M" & word = "a"]', '"@M" "b"+', '["x"] "@M"', '[foo = "@M"]', '"@M" within s', '("@M" | "b")',
                            '"@M\\}"', '"@M"/iI', '"@M" #', '"@M"{3,1}'])
            if rng.random() < 0.5 and '"@M"' in q:
                q = q.replace("@M", rng.choice(["^", "(", "x ", ".*", "NN", "\\.", "%", "\\x41", ""]) + "@M" + rng.choice([".*", "$", " x", "?", "\\n", "|b", "1", "_", ""]))
        else:
            q = q + rng.choice([' "@M"', '"@M"', " @M", ""]) if rng.random() < 0.7 else q.replace("a", "@M", 1)
        c["q"] = q
        if c["k"] in ("vval", "visit", "render"):
            b = ctx.z.baseline({"k": "can", "q": q.replace("@M", "Mk")})
            if b[0] != "True":
                c["q"] = '[text = "@M"] [foo = "@M"]'
        return c

    def judge(self, scen, res, z):
        return list(res["viol"])

    def nontrivial(self, scen, res):
        return res["stats"].get("checked", 0) > 0


# ------------------------------------------------------------ C14 (see importsim.py)


class C14(Prop):
    ENTRIES = [["fcsql"], ["fcsql"], ["fcsql"], ["fcsql.parser"], ["fcsql.validation"], ["fcsql.FCSParser"], ["fcsql.FCSLexer"], ["antlr4"], ["antlr4", "fcsql"]]
    EXCS = ["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit", "RecursionError", "Failure", "KeyboardInterrupt/plain", "OSError"]

    def fault(self, ctx, rng, entry, first, i):
        p = ctx.z.import_profile(entry)
        x = rng.random()
        if x < 0.15 and p["io"]:
            return {"read": rng.randrange(1, p["io"] + 1), "exc": rng.choice(["OSError", "OSError", "MemoryError", "KeyboardInterrupt"])}
        if x < 0.22:
            return {"headroom": rng.randrange(6, 90), "exc": "RecursionError"}
        exc = rng.choice(self.EXCS)
        if x < 0.30:
            return {"n": rng.randrange(1, p["n"] // 2), "exc": exc}
        y = rng.random()
        want = "fcsql/" if y < 0.65 else "antlr4/"
        gran = "instr" if rng.random() < 0.35 else "line"
        L = [e for e in p["L"] if e[0][0].startswith(want) and e[0][1] == gran]
        if y < 0.45:
            # module and class bodies of the hand-written modules, in a seeded order without repeats
            L = [e for e in L if e[0][0] in ("fcsql/__init__.py", "fcsql/parser.py", "fcsql/validation.py")] or L
        if not L:
            return {"n": rng.randrange(1, p["n"] // 2 + 2), "exc": exc}
        if first:
            order = list(range(len(L)))
            ctx.rng("order", json.dumps(entry), want, gran, y < 0.45).shuffle(order)
            e = L[order[i % len(L)]]
        else:
            e = rng.choice(L)
        return {"at": e[0], "k": pick_k(rng, e[1]), "exc": exc}

    def generate(self, ctx, rng, i):
        attempts = []
        for n in range(rng.choice([1, 1, 1, 2, 3, 5])):
            entry = rng.choice(self.ENTRIES)
            attempts.append({"entry": entry, "fault": self.fault(ctx, rng, entry, n == 0, i)})
        kinds = [("parse", 3), ("pparse", 2), ("validate", 5), ("can", 1), ("antlr", 1), ("vval", 2), ("visit", 1)]
        ops = [op(gen_call(ctx, rng, None, kinds)) for _ in range(3)]
        s = {"attempts": attempts, "phases": [{"threads": [ops]}]}
        if rng.random() < 0.06:
            s["source"] = True
        return s

    def judge(self, scen, res, z):
        out = compare(scen, res, z)
        if "api" in res:
            want = set(z.api())
            d = sorted(want.symmetric_difference(res["api"]))
            if d:
                out.append({"kind": "module-contents-differ", "op": None, "detail": "after %s: %s" % (short(res["faults"]), d[:5])})
        return out

    def nontrivial(self, scen, res):
        return bool(res["fl"])


# ------------------------------------------------------------ C15


class C15(Prop):
    kinds = [("vval", 5), ("visit", 2), ("render", 2)]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.1:
            return {"phases": [{"threads": [[sweep(rng, "trees", 40)]]}], "env": {}, "watch": {"set": "locs"}, "policy": None}
        trees = {}
        for s in range(rng.choice([1, 1, 2])):
            r = ctx.rng("tree", ctx.g, rng.randrange(4))
            q = valid_for_tree(ctx, r, Gen(r).valid(r.choice([2, 3, 4, 6, 8])))
            trees["t%d" % s] = {"q": q, "loc": r.random() < 0.7}
            if r.random() < 0.4:
                trees["t%d" % s]["holes"] = r.randrange(1 << 20)
        phases = []
        for part in range(rng.choice([1, 1, 2])):
            if part:
                phases.append({"threads": [[op({"k": "edit", "slot": s, "seed": rng.randrange(1 << 20)}) for s in sorted(trees)]]})
            nt = rng.choice([1, 2, 2, 3, 4])
            phases.append({"threads": [self.thread(ctx, rng, trees) for t in range(nt)]})
        scen = {"phases": phases, "env": {"trees": trees, "probes": ["trees"]}}
        if nt == 1 or rng.random() < 0.4:
            scen["watch"] = {"set": "core", "gran": rng.choice(["line", "instr"])}
            scen["policy"] = ({"kind": "probe", "q": rng.choice([1, 3]), "seed": 0, "limit": 3000} if nt == 1 else
                              {"kind": "gap", "gap": rng.choice([1, 2, 5]), "seed": rng.randrange(1 << 30), "limit": 1500})
            return scen
        return add_schedule_trees(ctx, rng, scen)

    def thread(self, ctx, rng, trees):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            s = rng.choice(sorted(trees))
            c = dict(gen_call(ctx, rng, trees[s]["q"], self.kinds))
            c["tree"] = s
            c["loc"] = trees[s]["loc"]
            c.pop("holes", None)
            if trees[s].get("holes") is not None:
                c["holes"] = trees[s]["holes"]
            acts = None
            if rng.random() < 0.3:
                prof = ctx.z.profile(c)
                if prof["L"]:
                    a = pick_loc(rng, prof)
                    a["do"] = ["fault", rng.choice(ANY)]
                    acts = [a]
            elif c["k"] == "vval" and c.get("custom") and rng.random() < 0.2:
                c["raise_at"] = rng.randrange(1, 6)
            ops.append(op(c, acts))
        return ops

    def judge(self, scen, res, z):
        """alone: the same call on a tree of its own that was made (and edited) the same way"""
        scen = copy.deepcopy(scen)
        edits = {}
        for ph in scen["phases"]:
            for t in ph["threads"]:
                for o in t:
                    c = o["call"]
                    if c["k"] == "edit":
                        edits.setdefault(c["slot"], []).append(c["seed"])
                    elif c.get("tree") is not None:
                        spec = scen["env"]["trees"][c["tree"]]
                        c["loc"] = spec.get("loc", True)
                        c.pop("holes", None)
                        if spec.get("holes") is not None:
                            c["holes"] = spec["holes"]
                        if edits.get(c["tree"]):
                            c["edits"] = list(edits[c["tree"]])
        return compare(scen, res, z)

    def nontrivial(self, scen, res):
        return res["stats"].get("tree_sample", 0) > 1


def add_schedule_trees(ctx, rng, scen):
    seed = rng.randrange(1 << 30)
    x = rng.random()
    gran = rng.choice(["line", "instr"])
    scen["watch"] = {"set": "core", "gran": gran}
    if x < 0.5:
        scen["policy"] = {"kind": "gap", "gap": rng.choice([3, 10, 40]), "seed": seed, "limit": 1500}
    elif x < 0.75:
        scen["policy"] = {"kind": "rr", "q": rng.choice([1, 2, 3, 7]), "seed": seed, "limit": 1500}
    else:
        scen["policy"] = {"kind": "pct", "d": rng.randrange(1, 6), "est": rng.choice([100, 400, 1500]), "seed": seed}
    return scen


# ------------------------------------------------------------ C16 (see replicas.py)


class C16(Prop):
    NQ = 8
    kinds = [("parse", 2), ("pparse", 2), ("validate", 4), ("can", 1), ("antlr", 1), ("vval", 4), ("render", 4), ("visit", 1)]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.08:
            return unforked(ctx, rng, self.kinds)
        nrep = rng.choice([2, 3, 4, 5])
        first = rng.randrange(5)
        replicas = [(first + j) % 5 for j in range(nrep)]
        if i < 8:
            for c in AGED:
                ctx.first_time(strip(c))
        if rng.random() < (0.35 if ctx.lazy else 0.02):
            scen = self.torn(ctx, rng, replicas)
            if scen:
                return scen
        calls = []
        for _ in range(rng.choice([3, 5, 8, 14])):
            q = None
            if rng.random() < 0.35:
                # several flags, several layers, several complaints about one query
                r = ctx.rng("flags", ctx.g, rng.randrange(6))
                fl = r.sample("iIcCld", r.choice([2, 3, 4])) if r.random() < 0.6 else r.choices(r.choice(["id", "cd", "l", "Cd", "Id", "iId"]), k=r.choice([4, 5, 6, 7]))
                q = r.choice(['"a"/%s', '[lemma = "x"/%s & pos != "N.*"/i]', '[word = "x"/%s] ("y"/%s | [])', '[foo = "1"/%s] [bar:baz = "2" | q:zap = "3"]'])
                q = q.replace("%s", "".join(fl))
            calls.append(gen_call(ctx, rng, q, self.kinds))
        ops = [op(c) for c in calls]
        if rng.random() < 0.12:
            ops[:1] = [census(ctx, ctx.rng("order", ctx.g), 40)]
            calls[0] = ops[0]["call"]
        steps, vt = self.network(ctx, rng, len(ops), nrep, calls)
        return {"replicas": replicas, "steps": steps, "vt": vt, "phases": [{"threads": [ops]}]}

    def torn(self, ctx, rng, replicas):
        """a process dies in the middle of what is done only once (and may be left on the disk half done); then all the others answer"""
        cands = [c for c in [strip(c) for c in rng.sample(AGED, 3)] + [gen_call(ctx, rng, None, self.kinds)] if ctx.first_time(c)]
        if not cands:
            return None
        c = rng.choice(cands)
        e = rng.choice(ctx.first_time(c))
        calls = [c, census(ctx, ctx.rng("order", ctx.g), 40)["call"]] + [gen_call(ctx, rng, None, self.kinds) for _ in range(rng.choice([0, 2, 4]))]
        steps = [["die", rng.randrange(len(replicas)), 0, {"loc": e[:3], "k": pick_k(rng, e[3])}]]
        for j in rng.sample(range(len(calls)), len(calls)):
            steps.append(["serve", rng.randrange(len(replicas)), j])
        return {"replicas": replicas, "steps": steps, "vt": 0.0, "phases": [{"threads": [[op(c) for c in calls]]}]}

    def network(self, ctx, rng, n, nrep, calls):
        """what a router, an unreliable network and crashing replicas make of n requests: the resulting sequence of events"""
        lossy = rng.choice([0, 0.05, 0.3])
        dup = rng.choice([0, 0.1, 0.5])
        crash = rng.choice([0, 0.05, 0.2, 0.5])
        die = rng.choice([0, 0, 0.1, 0.3])
        aging = rng.choice([0, 0, 0.1, 0.3])
        slow = rng.choice([0, 0, 0.15])
        spread = rng.choice([0, 0.01, 1.0, 30.0])     # delays: how much requests overtake each other
        fan = rng.choice([1, 1, 2, 3])                # copies sent to different replicas on purpose
        ev = []
        seq = 0

        def at(t, *what):
            nonlocal seq
            seq += 1
            ev.append((t, seq) + what)

        for rid in range(n):
            for _ in range(min(fan, nrep)):
                at(rid * 0.01 + rng.random() * spread, "send", rid, 0)
        for rep in range(nrep):
            if rng.random() < crash:
                at(rng.random() * (n * 0.01 + spread), "crash", rep)
        steps = []
        now = 0.0
        while ev and len(steps) < 200:
            ev.sort()
            now, _, what, a, *rest = ev.pop(0)
            if what == "crash":
                steps.append(["crash", a])
                continue
            if what == "send":
                tries = rest[0]
                if tries < 4 and rng.random() < lossy:
                    steps.append(["note", "request_lost"])
                    at(now + 1.0, "send", a, tries + 1)
                    continue
                at(now + rng.random() * spread * 0.5, "deliver", a, tries)
                if rng.random() < dup:
                    steps.append(["note", "request_duplicated"])
                    at(now + rng.random() * spread, "deliver", a, tries)
                continue
            tries = rest[0]
            rep = rng.randrange(nrep)
            if tries < 4 and rng.random() < die:
                prof = ctx.z.profile(strip(calls[a]))
                if prof["L"]:
                    steps.append(["die", rep, a, pick_loc(rng, prof)])
                    at(now + 1.0, "send", a, tries + 1)
                    continue
            if rng.random() < aging:
                # the machine runs on for a while, its wall clock is corrected
                steps.append(["age", rep, rng.choice([0, 1, 100, 4000, 1e5, 3e7]), rng.choice([0, 0] + JUMPS)])
            o = op(calls[a])
            if rng.random() < slow:
                pauses(ctx, rng, [o])
            steps.append(["serve", rep, a] + ([o["acts"]] if o.get("acts") else []))
            if tries < 4 and rng.random() < lossy:
                steps.append(["note", "response_lost"])
                at(now + 1.0, "send", a, tries + 1)
            if rng.random() < crash * 0.3:
                steps.append(["crash", rep])
        return steps, now

    def judge(self, scen, res, z):
        if scen.get("unforked"):
            return judge_unforked(scen, res, z)
        out = list(res["viol"])
        calls = {o["id"]: o["call"] for o in all_ops(scen)}
        bad = set()
        for rid, rep, cfg, nth, r, errs in res["answers"]:
            b = z.baseline(calls[rid])
            if [r, errs] != b and rid not in bad:
                bad.add(rid)
                if calls[rid]["k"] == "census":
                    seen = {}
                    d = recount(calls[rid], b[0], seen, rid) + recount(calls[rid], r, seen, rid)
                    out.append({"kind": "replica-differs", "op": rid, "detail": "replica with settings %d, its request number %d: %s" % (cfg, nth, short([x["detail"] for x in d]))})
                    continue
                out.append({"kind": "replica-differs", "op": rid, "detail": "%s: replica with settings %d, its request number %d: got %s, reference %s" % (
                    short(calls[rid], 200), cfg, nth, short([r, errs]), short(b))})
        return out

    def nontrivial(self, scen, res):
        return len({a[2] for a in res["answers"]}) > 1 or len(res.get("outs") or ()) > 1


# ------------------------------------------------------------ C18 (see goods.py, replicas.py)


class C18(C15):
    AGED = False
    kinds = [("copy", 6), ("vval", 2), ("visit", 1), ("render", 1)]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.35:
            while True:
                s = C15.generate(self, ctx, rng, i)
                if s["phases"][0]["threads"][0][0]["call"]["k"] != "sweep":
                    return s
        nrep = rng.choice([2, 3, 4])
        first = rng.randrange(5)
        calls, works = [], []
        for _ in range(rng.choice([1, 2, 3, 5])):
            q = rng.choice(DENSE) if rng.random() < 0.2 else None
            calls.append(gen_call(ctx, rng, q, [("parse", 4), ("pparse", 5), ("validate", 2), ("vval", 6), ("can", .3), ("render", .3)]))
            if calls[-1]["k"] == "vval" and rng.random() < 0.4:
                calls[-1] = dict(calls[-1], how="validate", vopts=dict(calls[-1]["vopts"] or {}, raise_at_first_violation=True, warnings_as_errors=True))
                calls[-1].pop("custom", None)
            works.append([{k: v for k, v in gen_call(ctx, rng, calls[-1]["q"], [("vval", 3), ("visit", 2), ("render", 1)]).items() if k not in ("holes", "part", "raise_at")}
                          for _ in range(rng.choice([0, 1, 2, 3]))])
        late = []       # [position, order, step]
        steps = []
        for rid in range(len(calls)):
            for _ in range(rng.choice([1, 1, 2])):
                t = rng.random()
                late.append((t, ["pack", rng.randrange(nrep), rid, {"how": self.how(rng), "work": works[rid], "twin": rng.randrange(1 << 20) if rng.random() < 0.5 else None,
                                                                  "edit": rng.randrange(1 << 20) if rng.random() < 0.3 else None}]))
                for d in range(rng.choice([1, 1, 2, 4])):
                    # delivered late, twice, to another replica, after the sender is gone; passed on
                    what = "stranger" if rng.random() < 0.03 else "unpack"
                    late.append((t + rng.random() * rng.choice([0.01, 1]), [what, rng.randrange(nrep), rid, {"how": self.how(rng), "work": works[rid], "seed": rng.randrange(1 << 20),
                                                                                                          "i": rng.randrange(8)}]))
                    if d:
                        late.append((t, ["note", "message_duplicated"]))
            if rng.random() < 0.3:
                late.append((rng.random() * 2, ["serve", rng.randrange(nrep), rid]))
            if rng.random() < 0.4:
                late.append((rng.random() * 1.5, ["crash", rng.randrange(nrep)]))
        late.sort(key=lambda x: x[0])
        steps = [x[1] for x in late]
        return {"replicas": [(first + j) % 5 for j in range(nrep)], "steps": steps, "vt": 2.0, "phases": [{"threads": [[op(c) for c in calls]]}]}

    def how(self, rng):
        return rng.choice([2, 3, 4, 4, 5, 5, -2, -4])

    def judge(self, scen, res, z):
        if "steps" not in scen:
            out = C15.judge(self, scen, res, z)
            for k, rec in res["ops"].items():
                if str(rec["r"]).startswith("COPY DIFFERS") and not rec.get("fired"):
                    out.append({"kind": "copy-differs", "op": int(k), "detail": short(rec["r"])})
            return out
        return list(res["viol"])

    def nontrivial(self, scen, res):
        return bool(res["stats"].get("opened") or res["stats"].get("tree_sample", 0) > 1)


# ------------------------------------------------------------ C19


class C19(Prop):
    kinds = [("parse", 3), ("pparse", 4), ("validate", 5), ("can", 2), ("antlr", 1), ("vval", 4), ("visit", 1), ("render", 1), ("raw", .3)]
    BIG = 0

    def call(self, ctx, rng, reuse):
        c = gen_call(ctx, rng, rng.choice(DENSE) if rng.random() < 0.3 else None, self.kinds)
        if reuse and c["k"] in ("pparse", "vval") and rng.random() < 0.7:
            c["slot"] = 0
            if c["k"] == "vval":
                c["vopts"], c["custom"] = {"raise_at_first_violation": reuse == 1}, True
        return c

    def generate(self, ctx, rng, i):
        reuse = rng.choice([0, 1, 2])
        tests = [self.call(ctx, rng, reuse) for _ in range(rng.choice([2, 3]))]
        rounds = rng.choice([8, 10, 12])
        kinds = rng.sample(["flood", "calls", "faults", "pause"], rng.choice([1, 2, 3]))
        per = rng.choice([2, 4, 8])
        seed = rng.randrange(1 << 20)
        calls = [self.call(ctx, rng, reuse) for _ in range(per)] + tests
        threads = rng.random() < 0.15
        vary = None
        if "flood" in kinds:
            shapes, inner = flood_plan({"seed": seed, "slot": 0 if reuse else None})
            if rng.random() < 0.7:
                # a new text in every round
                vary = rng.choice(shapes)
                tests[0] = dict(inner, q=vary.replace("@", "99999"))
        ops = []
        for r in range(rounds):
            if "flood" in kinds:
                ops.append(op({"k": "flood", "seed": seed, "n": per * 2, "base": r * per * 2, "slot": 0 if reuse else None}))
            if "calls" in kinds:
                ops += [op(dict(c)) for c in calls]
            if "faults" in kinds:
                for c in rng.sample(calls, min(len(calls), per)):
                    prof = ctx.z.profile(strip(c))
                    if prof["L"]:
                        a = pick_loc(rng, prof)
                        a["do"] = ["fault", rng.choice(ANY)]
                        ops.append(op(dict(c), [a]))
            if "pause" in kinds:
                ops.append(op({"k": "tick", "dt": rng.choice([0.01, 1, 100, 4000])}))
            for j, c in enumerate(tests):
                o = op(dict(c))
                if j == 0 and vary:
                    o["call"]["q"] = vary.replace("@", "%05d" % (99999 - r))
                o["meter"] = [j, r]
                ops.append(o)
        return {"phases": [{"threads": [[o]]} for o in ops] if threads else [{"threads": [ops]}], "meter": True, "env": {}, "watch": {"set": "locs"}, "policy": None}

    def judge(self, scen, res, z):
        out = list(res["viol"])
        series = {}
        first = {}
        for o in all_ops(scen):
            rec = res["ops"].get(str(o["id"]))
            if o.get("meter"):
                first.setdefault(o["meter"][0], o["call"])
            if not o.get("meter") or rec is None or rec.get("fired") or "work" not in rec:
                continue
            n, slept = rec["work"]
            alone = z.work(first[o["meter"][0]])
            if slept:
                out.append({"kind": "waits", "op": o["id"], "detail": "%s: the call waited %s s" % (short(o["call"], 200), slept)})
            if n > 2 * alone + 3000:
                out.append({"kind": "slow", "op": o["id"], "detail": "%s: %d lines executed, alone %d" % (short(o["call"], 200), n, alone)})
            series.setdefault(o["meter"][0], []).append((o["meter"][1], n, o))
        for j, s in series.items():
            s = sorted(s, key=lambda x: x[0])[2:]
            w = [x[1] for x in s]
            if len(w) >= 6 and all(b >= a for a, b in zip(w, w[1:])) and sum(b > a for a, b in zip(w, w[1:])) >= len(w) - 2 and w[-1] - w[0] >= 2 * (len(w) - 1):
                out.append({"kind": "slower", "op": s[-1][2]["id"], "detail": "%s: lines executed, round after round: %s" % (short(s[-1][2]["call"], 200), w)})
        return out

    def nontrivial(self, scen, res):
        return res["stats"].get("metered_calls", 0) > 5


# ------------------------------------------------------------ C27 (see extend.py)


class C27(Prop):
    ACTIONS = [("note", 2), ("warn", 3), ("err", 3), ("skip", 1), ("value", 1), ("raise", .5)]

    def spec(self, rng, what, n):
        s = {"tag": "t%d" % n, "base": rng.choice(["fcsql", "fcsql", "fcsql", "validator"] if what != "visit" else ["adapter", "adapter", "visitor"])}
        acts = [a for a in self.ACTIONS if what != "visit" or a[0] not in ("warn", "err")]
        over = {rng.randrange(60): pick(rng, acts) for _ in range(rng.choice([0, 1, 2, 4]))}
        s["over"] = sorted([k, v] for k, v in over.items())
        if rng.random() < 0.25:
            s["sum"] = True
        if rng.random() < 0.15:
            s["limit"] = rng.randrange(1, 6)
        if rng.random() < 0.2:
            s["middle"] = True
        x = rng.random()
        if x < 0.6:
            s["version"] = rng.choice(["2.2", "2.2", "2.0", "e.1", ""])
        return s

    def ops(self, ctx, rng, qs, tid, n):
        """one application thread: it defines classes, registers, replaces and removes them, and uses them"""
        live = {"object": [], "validate": [], "visit": []}
        table = {}      # what is registered as which version
        out = []
        vers = ["e%d.%d" % (tid, j) for j in range(rng.choice([1, 1, 2]))]
        kinds = rng.choice([[("validate", 4), ("object", 3), ("visit", 3), ("define", 1), ("plain", 3)]] * 3 + [[("validate", 1), ("plain", .5)], [("object", 1)], [("visit", 1)]])
        count = 0
        for _ in range(n):
            what = pick(rng, kinds)
            q = rng.choice(qs)
            if what == "plain":
                out.append(op(gen_call(ctx, rng, q, [("validate", 3), ("vval", 2), ("visit", 1), ("parse", 1)])))
                continue
            c = {"k": "ext", "what": what, "q": q}
            if rng.random() < 0.08 and tid == 0:
                c["drop"] = True
                for x in live.values():
                    x.clear()
                table.clear()
            pool = live[what if what != "define" else "object"]
            new = None
            if what == "define" or not pool or rng.random() < 0.3:
                count += 1
                j = rng.randrange(8)
                new = [tid * 1000 + count, self.spec(ctx.rng("spec", ctx.g, what, j), what, j)]
                pool.append(new)
            cid, spec = new or rng.choice(pool)
            c.update(cid=cid, spec=spec)
            if what == "validate":
                c["ver"] = rng.choice(vers)
                if rng.random() < 0.6 and c["ver"] in table and new is None:
                    c["cid"], c["spec"] = table[c["ver"]]
                elif rng.random() < 0.12:
                    c.update(cid=None, spec=None)
                table.pop(c["ver"], None)
                if c["spec"]:
                    table[c["ver"]] = [c["cid"], c["spec"]]
                c["re"], c["wae"] = rng.random() < 0.75, rng.random() < 0.4
            elif what != "define":
                c["loc"] = rng.random() < 0.8
                if what == "object":
                    c["attrs"] = {"raise_at_first_violation": rng.random() < 0.35, "warnings_as_errors": rng.random() < 0.4}
                    if spec["base"] == "fcsql":
                        c["attrs"]["allowed_layer_identifiers"] = rng.choice([None, None, ["text"], ["foo", "word"], ["a", "pos", "x-b"]])
                        c["attrs"]["allowed_layer_qualifiers"] = rng.choice([None, None, [["text", ["q"]], ["pos", ["ud17"]]]])
                    if rng.random() < 0.3:
                        c["how"] = "is_valid"
                elif rng.random() < 0.3:
                    c["how"] = "accept"
                if rng.random() < 0.6:
                    c["obj"] = rng.randrange(2)
            out.append(op(c))
        return out

    def generate(self, ctx, rng, i):
        qs = query_set(ctx, rng, 2) + [Gen(ctx.rng("v", ctx.g, rng.randrange(4))).valid(), ctx.rng("d", ctx.g).choice(DENSE)]
        if rng.random() < 0.3:
            threads = [self.ops(ctx, rng, qs, t, rng.choice([1, 2, 3])) for t in range(rng.choice([2, 2, 3]))]
            for t in threads:
                for o in t:
                    o["call"].pop("drop", None)
            scen = add_schedule(ctx, rng, {"phases": [{"threads": threads}], "env": {}})
            for t, ops in enumerate(scen["phases"][-1]["threads"]):
                for o in ops:
                    # also a call copied from another thread uses classes, objects and versions of its own thread
                    c = o["call"]
                    if c["k"] == "ext":
                        if c.get("cid") is not None:
                            c["cid"] += t * 100000
                        if "ver" in c:
                            c["ver"] = "e%d.%s" % (t, c["ver"].split(".")[1])
            return scen
        ops = self.ops(ctx, rng, qs, 0, rng.choice([4, 8, 16, 24]))
        if rng.random() < 0.4:
            for o in rng.sample(ops, min(len(ops), 3)):
                prof = ctx.z.profile(strip(o["call"]))
                if prof["L"]:
                    a = pick_loc(rng, prof)
                    a["do"] = ["fault", rng.choice(ANY)]
                    o["acts"] = [a]
        return {"phases": [{"threads": [[o]]} for o in ops] if rng.random() < 0.15 else [{"threads": [ops]}], "env": {}, "watch": {"set": "locs"}, "policy": None}

    def nontrivial(self, scen, res):
        return sum(o["call"]["k"] == "ext" for o in all_ops(scen)) >= 2


# ------------------------------------------------------------ C17


class C17(Prop):
    kinds = [("parse", 3), ("pparse", 3), ("validate", 4), ("can", 2), ("antlr", 1), ("vval", 1)]

    def generate(self, ctx, rng, i):
        if rng.random() < 0.02:
            return unforked(ctx, rng, self.kinds)
        if rng.random() < 0.25:
            scen = race_aged(ctx, rng, 2)
            if scen:
                rep = dict(scen["env"]["warm"][0])
                del rep["rare"]
                call = scen["phases"][0]["threads"][0][0]["call"]
                calls = rng.choice([[rep, call], [dict(rep, n=rep["n"] + 3)], [call, rep, rep]])
                scen["phases"][0]["threads"][1] = [op({"k": "fork", "calls": calls})]
                return scen
        nt = rng.choice([1, 1, 2, 3])
        qs = query_set(ctx, rng, 3)
        threads = [[op(gen_call(ctx, rng, rng.choice(qs), self.kinds)) for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
        calls = []
        for _ in range(rng.choice([1, 2, 4])):
            calls.append(gen_call(ctx, rng, rng.choice(qs) if rng.random() < 0.7 else None, self.kinds))
        if rng.random() < 0.05:
            calls.append(census(ctx, ctx.rng("order", ctx.g), 20)["call"])
        f = op({"k": "fork", "calls": calls})
        threads.append([f] if rng.random() < 0.7 else [op(gen_call(ctx, rng, rng.choice(qs), self.kinds)), f])
        scen = {"phases": [{"threads": threads}], "env": {}, "policy": None, "watch": {"set": "locs"}}
        if rng.random() < 0.5:
            scen["env"]["warm"] = warmers(ctx, rng, [o["call"] for t in threads[:-1] for o in t])
        x = rng.random()
        if x < 0.7:
            # fork at one chosen instant of a call in flight
            t = rng.randrange(nt)
            o = threads[t][-1]
            a = pick_loc(rng, ctx.z.profile(strip(o["call"])), [(("core", "line"), 45), (("core", "instr"), 20), (("gen", "line"), 10), (("antlr", "line"), 25)])
            a["do"] = ["switch", nt]
            o.setdefault("acts", []).append(a)
            if t != 0:
                b = pick_loc(rng, ctx.z.profile(strip(threads[0][0]["call"])))
                b["do"] = ["switch", t]
                threads[0][0].setdefault("acts", []).append(b)
        else:
            scen["watch"] = {"set": rng.choice(["core", "all"]), "gran": "line"}
            g = [5, 40, 200] if scen["watch"]["set"] == "core" else [200, 5000]
            scen["policy"] = {"kind": "gap", "gap": rng.choice(g), "seed": rng.randrange(1 << 30), "limit": 600}
        return scen

    def judge(self, scen, res, z):
        if scen.get("unforked"):
            return judge_unforked(scen, res, z)
        out = compare(scen, res, z)
        for o in all_ops(scen):
            if o["call"]["k"] != "fork":
                continue
            rec = res["ops"].get(str(o["id"]))
            if rec is None:
                continue
            f = rec["fork"]
            if f.get("hung") or f.get("deadlock"):
                out.append({"kind": "child-no-progress", "op": o["id"], "detail": "a call in the forked child never ends: %s" % short(o["call"]["calls"])})
                continue
            if "harness" in f:
                out.append({"kind": "child-died", "op": o["id"], "detail": f["harness"]})
                continue
            for c, got in zip(o["call"]["calls"], f["outs"]):
                b = z.baseline(c)
                if got != b:
                    out.append({"kind": "child-result-differs", "op": o["id"], "detail": "%s: got %s, alone %s" % (short(c, 200), short(got), short(b))})
        return out

    def nontrivial(self, scen, res):
        return any(r.get("inflight") for r in res["ops"].values())


PROPS = {c.__name__: c() for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C27)}


RULES = {
    "C01": "at least two thread switches happened between operations in flight",
    "C02": "at least two thread switches happened while a parser was shared",
    "C03": "at least two calls shared a history",
    "C04": "an injected exception really fired inside a call",
    "C05": "an injected failure really fired inside a call",
    "C06": "a cancellation was really delivered inside a call",
    "C07": "a call ran with limited stack",
    "C08": "results were handed out and compared again later",
    "C09": "a validator object was used at least twice",
    "C10": "logging or standard streams were rigged",
    "C11": "a nested call really ran inside another call",
    "C12": "process state was compared at least once during the calls",
    "C13": "the run reached the point where everything droppable was dropped",
    "C14": "an import was really interrupted",
    "C15": "a tree was compared at least twice during the calls",
    "C16": "replicas with at least two different settings served requests",
    "C17": "the fork happened while another call was in flight",
    "C18": "something packed by one process was opened by another, or a shared tree was compared at least twice while it was copied",
    "C27": "at least two calls of the history used classes of the application's own",
    "C19": "the work of at least six calls in the history was measured",
}

ASSUMPTIONS = [
    "CPython 3.12 semantics: threads are preempted between bytecode instructions; interrupts and failures are raised at line or instruction boundaries of library code",
    "the outcome of a call is what the same tree gives for that call alone in a cold process (the properties are about independence, not about the grammar)",
    "sampled search: a clean batch is evidence, not proof",
]
