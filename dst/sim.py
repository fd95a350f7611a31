"""Runs one explicit scenario inside a (forked) process and returns plain facts about it.

Scenario (JSON):
  {"prop": "C01", "phases": [{"threads": [[op, ...], ...]}, ...], "watch": {...}, "policy": {...}|null, "env": {...}}
  op = {"id": n, "call": {"k": kind, ...}, "acts": [...]}
"""
import builtins
import faulthandler
import gc
import hashlib
import json
import logging
import os
import random
import resource
import select
import sys
import tracemalloc
import types
import zlib

from . import api, engine, gen, seams
from .api import P, V, fcsql

antlr4 = api.antlr4


def sha(x):
    return hashlib.sha1(x.encode() if isinstance(x, str) else x).hexdigest()[:16]


def reply(fd, obj):
    data = json.dumps(obj).encode("utf-8", "surrogatepass")
    while data:
        n = os.write(fd, data)
        data = data[n:]


# ---------------------------------------------------------------- fingerprints (C12)


def _runtime():
    """attributes of the ANTLR runtime's classes that fix its behaviour for everyone in the process"""
    import antlr4.error.ErrorListener as el
    import antlr4.error.ErrorStrategy as es

    out = [el.ErrorListener, el.ConsoleErrorListener, el.ProxyErrorListener, es.DefaultErrorStrategy, antlr4.Lexer, antlr4.Parser, antlr4.Lexer.__mro__[1],
           antlr4.ParserRuleContext, antlr4.InputStream, antlr4.CommonTokenStream, antlr4.Token]
    return [(c, k) for c in out for k, v in vars(c).items() if callable(v) or isinstance(v, (bool, staticmethod, classmethod, property))]


RUNTIME = _runtime()


NAMES = [(c, n) for c in (getattr(P, "FCSParser", None), getattr(P, "FCSLexer", None)) for n in ("literalNames", "symbolicNames", "ruleNames", "channelNames", "modeNames")]


def _shallow(obj, name):
    x = getattr(obj, name, None)
    return tuple(x) if isinstance(x, (set, frozenset, list, dict)) else x


def fingerprint(full=False):
    import _signal
    import atexit
    import locale
    import signal
    import threading
    import warnings

    d = {}
    d["recursionlimit"] = sys.getrecursionlimit()
    d["streams"] = (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__), id(sys.__stderr__))
    d["hooks"] = (id(sys.excepthook), id(sys.unraisablehook), id(threading.excepthook), id(sys.displayhook), id(sys.breakpointhook))
    d["trace"] = (id(sys.gettrace()), id(sys.getprofile()), id(threading.gettrace()))
    d["switchinterval"] = sys.getswitchinterval()
    d["intmax"] = sys.get_int_max_str_digits()
    d["gc"] = (gc.isenabled(), gc.get_threshold(), len(gc.callbacks))
    d["warnings"] = (len(warnings.filters), id(warnings.showwarning), tuple(map(id, warnings.filters)))
    d["random"] = hash(random.getstate())
    m = logging.Logger.manager
    d["logging"] = (m.disable, logging.raiseExceptions, id(logging.getLoggerClass()), id(logging.lastResort), id(logging.getLogRecordFactory()))
    for n in ["", "fcsql", "fcsql.parser", "fcsql.validation", "antlr4"] + (sorted(m.loggerDict) if full else []):
        # (not by getLogger: a preempted thread may hold its lock)
        lg = m.loggerDict.get(n) if n else m.root
        if not isinstance(lg, logging.Logger):
            continue
        d["logger:" + n] = (lg.level, tuple(map(id, lg.handlers)), tuple(map(id, lg.filters)), lg.propagate, lg.disabled)
    d["cwd"] = os.getcwd()
    d["import"] = (tuple(sys.path), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks)), sys.dont_write_bytecode)
    d["validators"] = tuple((k, id(v)) for k, v in getattr(fcsql, "VALIDATORS", {}).items())
    d["tables"] = [_shallow(V, n) for n in ("UNIVERSAL_POS_TAGS", "DEFAULT_VALIDATOR_SPECIFICATION_VERSION")] + [
        _shallow(V.FCSQLValidator, n) for n in ("KNOWN_LAYER_IDENTIFIERS", "KNOWN_LEGACY_LAYER_IDENTIFIER", "SPECIFICATION_VERSION")] + [
        _shallow(fcsql, "DEFAULT_VALIDATOR_SPECIFICATION_VERSION")]
    d["defaults"] = [_shallow(P, n) for n in ("DEFAULT_IDENTIFIER", "DEFAULT_OPERATOR", "DEFAULT_UNICODE_NORMALIZATION_FORM", "REP_ZERO_OR_MORE",
                                              "REP_ONE_OR_MORE", "REP_ZERO_OR_ONE", "OCCURS_UNBOUNDED", "EMPTY_STRING")]
    d["kwdefaults"] = (repr(fcsql.parse.__kwdefaults__), repr(fcsql.validate.__kwdefaults__), repr(P.QueryParser.__init__.__kwdefaults__))
    d["flags"] = tuple((f.name, f.char) for f in P.RegexFlag)
    d["environ"] = hash(frozenset(os.environ.items()))
    d["streamconf"] = [(getattr(s, "encoding", 0), getattr(s, "errors", 0), getattr(s, "line_buffering", 0)) for s in (sys.stdin, sys.stdout, sys.stderr)]
    d["names"] = hash(tuple([tuple(getattr(c, n, ())) for c, n in NAMES]))
    if logging.lastResort is not None:
        d["lastresort"] = (logging.lastResort.level, id(logging.lastResort.formatter), len(logging.lastResort.filters))
    d["argv"] = (tuple(sys.argv), getattr(sys, "tracebacklimit", None))
    d["builtins"] = hash(frozenset((k, id(v)) for k, v in vars(builtins).items() if k != "_"))
    d["runtime"] = hash(tuple([id(c.__dict__.get(k)) for c, k in RUNTIME]))
    d["signals"] = tuple(map(id, map(_signal.getsignal, range(1, 32))))
    d["itimer"] = _signal.getitimer(signal.ITIMER_REAL)[0] > 0
    d["sigmask"] = _signal.pthread_sigmask(signal.SIG_BLOCK, [])
    d["locale"] = locale._setlocale(locale.LC_ALL)
    d["levels"] = hash(frozenset(logging._levelToName.items()))
    d["threads"] = sorted(t.name for m in (threading._active, threading._limbo) for t in list(m.values()) if not isinstance(t, threading._DummyThread)) + [threading.stack_size()]
    d["gcmore"] = (gc.get_debug(), gc.get_freeze_count())
    d["debugging"] = (faulthandler.is_enabled(), tracemalloc.is_tracing(), sys.flags.optimize)
    d["limits"] = [resource.getrlimit(r) for r in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE, resource.RLIMIT_CPU)]
    if "decimal" in sys.modules:
        c = sys.modules["decimal"].getcontext()
        d["decimal"] = (c.prec, c.rounding)
    d["atexit"] = atexit._ncallbacks()
    if full:
        # (dearer, or per thread)
        import socket

        d["priority"] = (os.getpriority(os.PRIO_PROCESS, 0), sorted(os.sched_getaffinity(0)))
        d["socket"] = socket.getdefaulttimeout()
        d["umask"] = _umask()
        d["fds"] = len(os.listdir("/proc/self/fd"))
    return d


def _umask():
    u = os.umask(0o22)
    os.umask(u)
    return u


def diff_fp(a, b):
    return sorted(k for k in a if k in b and a[k] != b[k])


# ---------------------------------------------------------------- faulty streams (C10)


class FaultyStream:
    """text stream that fails in a scripted way"""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self, kind, sim):
        self.kind = kind
        self.sim = sim
        self.n = 0
        self.data = []
        self.closed = False

    def write(self, s):
        self.n += 1
        self.sim.stat("stream_write")
        k = self.kind
        if k == "ok":
            self.data.append(s)
            return len(s)
        if k == "slow":
            seams.sim_sleep(0.5)
            self.sim.stat("slow_write")
            return len(s)
        if k == "flaky" and self.n % 3 != 1:
            return len(s)
        if k == "short":
            self.sim.stat("short_write")
            return max(0, len(s) // 2)
        self.sim.stat("stream_fault:" + k)
        if k == "closed":
            raise ValueError("I/O operation on closed file.")
        if k == "ascii":
            s.encode("ascii")
            return len(s)
        import errno

        raise OSError({"full": errno.ENOSPC, "eio": errno.EIO, "pipe": errno.EPIPE, "flaky": errno.EIO}[k], "injected " + k)

    def flush(self):
        if self.kind in ("full", "eio", "pipe"):
            self.write("")

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")


# ---------------------------------------------------------------- retention (C13)

KEEP_TYPES = ("QueryNode", "ParserRuleContext", "Token", "InputStream", "FCSLexer", "FCSParser", "BufferedTokenStream", "ErrorListener",
              "ExpressionTreeBuilder", "TerminalNode", "SourceLocation", "SpecificationValidationError", "QueryParserException",
              "RecognitionException")


def keep_types():
    from antlr4 import BufferedTokenStream, InputStream, ParserRuleContext, TerminalNode, Token
    from antlr4.error.Errors import RecognitionException

    return (P.QueryNode, ParserRuleContext, Token, InputStream, fcsql.FCSLexer, fcsql.FCSParser, BufferedTokenStream.BufferedTokenStream
            if isinstance(BufferedTokenStream, types.ModuleType) else BufferedTokenStream, *[c for c in (getattr(P, n, None) for n in ("ErrorListener", "ExpressionTreeBuilder")) if isinstance(c, type)], TerminalNode, P.QueryParserException,
            V.SpecificationValidationError, RecognitionException)


def live_objects(kt):
    return [o for o in gc.get_objects() if isinstance(o, kt)]


def marked_strings(marker, old):
    """strings containing marker that some container (new, or one of old) refers to"""
    out = {}
    objs = gc.get_objects()
    refs = [gc.get_referents(*objs[i:i + 20000]) for i in range(0, len(objs), 20000)]
    refs += [gc.get_referents(*old[i:i + 20000]) for i in range(0, len(old), 20000)]
    for d in range(3):
        nxt = []
        for l in refs:
            for r in l:
                t = type(r)
                if t is str:
                    if len(r) >= len(marker) and marker in r:
                        out[id(r)] = r
                elif (t is tuple or t is dict) and not gc.is_tracked(r):
                    nxt.append(r)
        if not nxt:
            break
        seen = {}
        for x in nxt:
            seen[id(x)] = x
        refs = [gc.get_referents(*seen.values())]
    return list(out.values())


def holder(s):
    return sorted({type(r).__name__ for r in gc.get_referrers(s)} - {"list", "frame"}) or ["list"]


OLD = []      # all container objects that existed when the zygote was ready


def need(call):
    """deepest stack (frames) the call uses"""
    sys.setrecursionlimit(60000)
    gc.disable()
    env = api.Env()
    if call["k"] in ("vval", "visit", "render", "copy"):
        call = dict(call, tree=0)
        api.run_call(dict(call, k="mktree"), env)
    f = sys._getframe()
    d0 = 0
    while f is not None:
        d0 += 1
        f = f.f_back
    cur = [d0, 0]

    def prof(frame, event, arg):
        if event == "call":
            cur[0] += 1
            if cur[0] > cur[1]:
                cur[1] = cur[0]
        elif event == "return":
            cur[0] -= 1

    sys.setprofile(prof)
    try:
        api.run_call(call, env)
    finally:
        sys.setprofile(None)
    return cur[1] - d0


METER = 3
compared = [0]


class Text(str):
    """a query text that notices being compared (and so searches inside C code: in lists, queues, ...)"""

    __slots__ = ()

    def __eq__(self, other):
        compared[0] += 1
        return str.__eq__(self, other)

    def __ne__(self, other):
        compared[0] += 1
        return str.__ne__(self, other)

    def __hash__(self):
        compared[0] += 1
        return str.__hash__(self)


class Meter:
    """counts the lines of library and runtime code that calls execute"""

    def __init__(self):
        self.n = 0
        self.on = False
        mon = sys.monitoring
        mon.use_tool_id(METER, "meter")
        mon.register_callback(METER, mon.events.LINE, self.line)

    def start(self):
        self.n = 0
        compared[0] = 0
        self.listen(sys.monitoring.events.LINE)
        self.on = True

    def stop(self):
        self.on = False
        self.listen(0)

    def listen(self, events):
        for c in engine.codes:
            sys.monitoring.set_local_events(METER, c, events)

    def line(self, code, line):
        if self.on:
            self.n += 1

    def off(self):
        mon = sys.monitoring
        self.stop()
        mon.register_callback(METER, mon.events.LINE, None)
        mon.free_tool_id(METER)


def work(call):
    """lines the call executes alone, in this (cold, forked) process"""
    sys.setrecursionlimit(60000)
    gc.disable()
    m = Meter()
    env = api.Env()

    def on(x):
        m.on = x

    env.pause, env.unpause = lambda: on(False), lambda: on(True)
    m.start()
    api.run_call(call, env)
    m.stop()
    return m.n


# ---------------------------------------------------------------- the run


class Run:
    def __init__(self, scen, replyfd=None):
        self.scen = scen
        self.envspec = scen.get("env") or {}
        self.env = api.Env()
        self.recs = {}
        self.viol = []
        self.replyfd = replyfd
        self.snaps = []
        self.errs_seen = []
        self.moments = 0    # begins and ends of calls so far
        self.tree_snap = {}
        self.stats = {}
        self.logdepth = {}
        self.logcalls = 0
        self.meter = None

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def violate(self, kind, detail, op=None):
        if len(self.viol) < 20:
            self.viol.append({"kind": kind, "detail": api.HEX.sub("0x?", str(detail))[:2000], "op": op})

    # -- op execution
    def execute(self, th, op):
        call = op["call"]
        k = call["k"]
        eng = self.eng
        h = getattr(self, "op_" + k, None)
        if h is not None:
            eng.op_end(th)
            h(th, op, call)
            return
        nested = []
        th_nested = self.cur_nested
        self.cur_nested[th.tid] = nested
        hr = call.get("headroom")
        old = None
        if hr is not None:
            old = sys.getrecursionlimit()
            d = 0
            f = sys._getframe()
            while f is not None:
                d += 1
                f = f.f_back
            sys.setrecursionlimit(d + hr + 2)
        if self.envspec.get("wrap_parse"):
            self.env.parse_raised = []
        self.moments += 1
        begin = self.moments
        m = self.meter if op.get("meter") else None
        if m:
            m.start()
            vt = eng.vt
        try:
            o = api.run_call(call, self.env)
        finally:
            if m:
                m.stop()
                spent = [m.n + compared[0], round(eng.vt - vt, 6)]
            self.moments += 1
            end = self.moments
            if old is not None:
                sys.setrecursionlimit(old)
            eng.op_end(th)
        pr = self.env.parse_raised
        rec = self.record(th, op, o, nested)
        if pr is not None:
            rec["pr"] = bool(pr and pr[-1])
        if m:
            rec["work"] = spent
            self.stat("metered_calls")
        if call.get("shared"):
            rec["span"] = [begin, end]
        self.recs[op["id"]] = rec
        if self.envspec.get("snap"):
            self.snapshot(op, call, o, bool(rec.get("fired")))
        elif self.envspec.get("hold"):
            self.env.kept.append(o)

    def record(self, th, op, o, nested):
        rec = {"n": th.n}
        e = o.exc
        if th.fired:
            rec["fired"] = [[n, w, st] for _, n, w, st in th.fired]
            rec["same"] = e is th.fired[-1][0]
            if th.incleanup:
                rec["incleanup"] = True
            rec["anyfired"] = any(e is x[0] for x in th.fired)
            if e is not None:
                seen = set()
                todo = [e]
                objs = []
                while todo:
                    x = todo.pop()
                    if x is None or id(x) in seen:
                        continue
                    seen.add(id(x))
                    objs.append(x)
                    # (what a traceback would show)
                    todo.append(x.__context__ if x.__cause__ is None and not x.__suppress_context__ else x.__cause__)
                rec["chain"] = any(x is y[0] for x in objs for y in th.fired)
        if e is not None:
            rec["exc"] = api.exc_name(e)
        if o.cbraised and o.expect is not None:
            rec["cbraised"] = True
            rec["cbsame"] = e is o.expect
        if nested:
            rec["nested"] = nested
        api.finish(op["call"], o)
        rec["r"] = o.r
        rec["errs"] = o.errs
        th.fired = None
        if not (self.envspec.get("snap") or self.envspec.get("hold")):
            o.exc = o.val = o.extra = None
        return rec

    # -- special ops (unwatched)
    def op_gc(self, th, op, c):
        gc.collect()
        self.stat("gc_collect")

    def op_tick(self, th, op, c):
        self.eng.vt += c["dt"]
        self.stat("clock_advance")
        if c.get("wall"):
            seams.offset[1] += c["wall"]
            self.stat("wall_clock_set_back" if c["wall"] < 0 else "wall_clock_set_on")

    def op_probe(self, th, op, c):
        for p in self.eng.probes:
            p(th)

    def op_dropparser(self, th, op, c):
        self.env.parsers.pop(c.get("slot"), None)
        self.env.validators.pop(c.get("slot"), None)

    def op_edit(self, th, op, c):
        """the owner of a shared tree changes it (nobody else uses it then)"""
        t = self.env.trees[c["slot"]]
        self.stat("tree_edit", api.edit_tree(t, c["seed"]))
        self.tree_snap[c["slot"]] = snap_of("tree", t)

    def op_mutate(self, th, op, c):
        """modify a handed-out result the way a caller may; its own snapshot is retaken"""
        if not self.snaps:
            return
        s = self.snaps[c["i"] % len(self.snaps)]
        rng = random.Random(c["seed"])
        done = 0
        for what, obj, _ in s["parts"]:
            done += mutate(what, obj, rng)
        self.stat("mutation", done)
        for p in s["parts"]:
            p[2] = snap_of(p[0], p[1])
        # the objects a snapshot shares with others *by design* are none; any other change is a violation
        self.check_snaps("after-mutation", op["id"])

    def op_fork(self, th, op, c):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = {"outs": []}
            try:
                self.replyfd = None
                self.eng.after_fork_in_child()
                self.eng.on_deadlock = lambda t: (reply(w, {"deadlock": True, "outs": out["outs"]}), os._exit(0))
                env = self.env if c.get("sameenv") else api.Env()
                for call in c["calls"]:
                    o = api.finish(call, api.run_call(call, env))
                    out["outs"].append([o.r, o.errs])
                reply(w, out)
            except BaseException as e:
                reply(w, {"harness": repr(e)})
            os._exit(0)
        os.close(w)
        data = b""
        end = seams.real_monotonic() + 30
        hung = False
        while True:
            t = end - seams.real_monotonic()
            if t <= 0 or not select.select([r], [], [], t)[0]:
                hung = True
                break
            b = os.read(r, 65536)
            if not b:
                break
            data += b
        os.close(r)
        if hung:
            os.kill(pid, 9)
        os.waitpid(pid, 0)
        self.stat("fork")
        rec = {"fork": json.loads(data) if data and not hung else {"hung": hung}}
        rec["inflight"] = sum(1 for t in self.eng.threads if t is not th and t.alive and t.op is not None and t.n > 0)
        self.recs[op["id"]] = rec

    # -- sweeps: one thing is done with many different queries (unwatched)
    def op_sweep(self, th, op, c):
        f = getattr(self, "sweep_" + c["what"])
        st = {}
        for j in c["js"]:
            rng, q = gen.sweep_query(c["seed"], j)
            if f(st, rng, q, op) or len(self.viol) >= 5:
                break
            self.stat("swept")
        if st.get("end"):
            st["end"]()

    def sweep_fp(self, st, rng, q, op):
        """process-wide settings are the same after every one of them"""
        for c in [gen.sweep_call(rng, q) for _ in range(2)]:
            api.finish(c, api.run_call(c, self.env))
            self.stat("fingerprint")
            for k in diff_fp(self.fp0, fingerprint()):
                self.violate("process-state:" + k, "changed by %s" % json.dumps(c)[:600], op["id"])
                return True

    def sweep_out(self, st, rng, q, op):
        """the outcome does not depend on the level of logging; what is printed is looked at in the end"""
        c = gen.sweep_call(rng, q)
        a = api.finish(c, api.run_call(c, self.env))
        names = ["", "fcsql", "fcsql.parser", "fcsql.validation"]
        old = [logging.getLogger(n).level for n in names]
        for n in names:
            logging.getLogger(n).setLevel(100)
        b = api.finish(c, api.run_call(c, self.env))
        for n, l in zip(names, old):
            logging.getLogger(n).setLevel(l)
        if (a.r, a.errs) != (b.r, b.errs):
            self.violate("result-differs", "%s: with logging %s %s, without %s %s" % (json.dumps(c)[:300], str(a.r)[:500], str(a.errs)[:300], str(b.r)[:500], str(b.errs)[:300]), op["id"])
            return True

    def tree_for(self, q):
        try:
            return P.QueryParser().parse(q)
        except P.QueryParserException:
            return None

    def sweep_trees(self, st, rng, q, op):
        """nothing that is done with a tree changes it"""
        t = self.tree_for(q)
        if t is None:
            return
        if rng.random() < 0.3:
            api.edit_tree(t, rng.randrange(1 << 20))
        env = api.Env()
        env.trees[0] = t
        was = snap_of("tree", t)
        for _ in range(5):
            c = {"k": rng.choice(["vval", "vval", "vval", "visit", "render"]), "q": q, "tree": 0}
            if c["k"] == "vval":
                c.update(vopts=gen.vopts(rng, q), custom=rng.random() < 0.4, slot=rng.choice([None, 0, 1]))
            if rng.random() < 0.2:
                c["part"] = rng.randrange(1, 12)
            api.run_call(c, env)
            self.stat("tree_sample")
            now = snap_of("tree", t)
            if now != was:
                self.violate("tree-modified", "by %s: %r -> %r" % (json.dumps(c)[:500], was[:600], now[:600]), op["id"])
                return True

    def sweep_reuse(self, st, rng, q, op):
        """a validator or parser object that was used before does what a new one does"""
        t = self.tree_for(q)
        if "v" not in st or rng.random() < 0.1:
            st["o"], st["c"], st["p"] = gen.vopts(rng, q), rng.random() < 0.4, gen.popts(rng)
            st["v"], st["f"] = api.Env(), None
        elif rng.random() < 0.4:
            # (the caller changes how violations are treated, of the used validator)
            st["o"] = dict(st["o"] or {})
            st["o"][rng.choice(["raise_at_first_violation", "warnings_as_errors"])] = rng.random() < 0.5
        calls = [{"k": "pparse", "q": q, "opts": st["p"], "slot": 0}]
        if t is not None:
            calls += [{"k": "vval", "q": q, "vopts": st["o"], "custom": st["c"], "slot": 0, "tree": 0, "how": rng.choice([None, "is_valid"])}] * 2
            st["v"].trees[0] = t
        for c in calls:
            a = api.finish(c, api.run_call(c, st["v"]))
            e = api.Env()
            if t is not None:
                e.trees[0] = t
            b = api.finish(c, api.run_call(c, e))
            if (a.r, a.errs) != (b.r, b.errs):
                self.violate("result-differs", "%s: used object %s %s, new one %s %s" % (json.dumps(c)[:300], str(a.r)[:500], str(a.errs)[:300], str(b.r)[:500], str(b.errs)[:300]), op["id"])
                return True
        if t is not None:
            st["v"].trees[0] = None

    def sweep_mut(self, st, rng, q, op):
        """what a caller does with a result changes no other result"""
        c = {"k": rng.choice(["parse", "pparse", "validate", "validate", "antlr"]), "q": q}
        if c["k"] == "pparse":
            c.update(opts={}, slot=0)
        elif c["k"] == "validate":
            c.update(re=rng.random() < 0.7, wae=rng.random() < 0.5)
        kept = st.setdefault("kept", [])
        was = None
        for _ in range(2):
            o = api.run_call(c, self.env)
            parts = [["exc", o.exc]] if o.exc is not None else [["tree", o.val]] if isinstance(o.val, P.QueryNode) else [["errs", o.val]] if isinstance(o.val, list) else [["antlr", o.val]] if c["k"] == "antlr" else []
            if isinstance(o.exc, V.SpecificationValidationError):
                parts.append(["tree", root_of(o.exc.node)])
            x = [snap_of(*p) if p[0] != "exc" else api.canon_exc(p[1]) for p in parts]
            if was is not None and x != was:
                self.violate("result-changed", "%s: %s, after the first result was modified %s" % (json.dumps(c)[:300], str(was)[:600], str(x)[:600]), op["id"])
                return True
            was = x
            kept.append((c, parts, [snap_of(*p) for p in parts]))
            for p in parts:
                mutate(p[0], p[1], rng)
            kept[-1] = (c, parts, [snap_of(*p) for p in parts])
            del kept[:-40]
            o = None
        self.stat("snapshot", 2)

        def end():
            for c, parts, was in kept:
                now = [snap_of(*p) for p in parts]
                if now != was:
                    self.violate("result-changed", "%s: handed out as %s, now %s" % (json.dumps(c)[:300], str(was)[:600], str(now)[:600]), op["id"])
                    return

        st["end"] = end

    def sweep_crowd(self, st, rng, q, op):
        """many results are held at once: none of them shares a modifiable part with another one"""
        owner = st.setdefault("owner", {})
        held = st.setdefault("held", [])
        c = {"k": rng.choice(["parse", "pparse", "pparse", "validate", "vval"]), "q": q if rng.random() < 0.3 else rng.choice(['"a"', '"a', '[word = "a"/i]', '[foo = "b"]', '"a"{2,1}'])}
        if c["k"] == "pparse":
            c.update(opts={}, slot=0)
        elif c["k"] == "validate":
            c.update(re=rng.random() < 0.7)
        elif c["k"] == "vval":
            c.update(vopts=gen.vopts(rng, c["q"]), slot=0)
        for _ in range(8):
            env = api.Env()
            try:
                o = api.run_call(c, env)
            except Exception:
                return
            parts = {}
            todo = [o.val, o.exc, o.exc and getattr(o.exc, "node", None), o.extra] + [p.errors for p in env.parsers.values()] + [x for v in env.validators.values() for x in (v.errors, v.warnings)]
            while todo:
                x = todo.pop()
                if id(x) in parts:
                    continue
                if isinstance(x, (list, set, dict, P.QueryNode, BaseException)):
                    parts[id(x)] = x
                if isinstance(x, P.QueryNode):
                    todo += [x.children] + list(x.children) + [getattr(x, "regex_flags", None)]
            held.append((o, env, parts))
            self.stat("snapshot")
            for k, x in parts.items():
                if owner.setdefault(k, len(held)) != len(held):
                    self.violate("results-share", "result %d of %s and result %d share %r" % (len(held), json.dumps(c)[:300], owner[k], type(x)), op["id"])
                    return True

    # -- snapshots (C08)
    def snapshot(self, op, call, o, fired):
        parts = []
        k = call["k"]
        if o.exc is not None:
            parts.append(["exc", o.exc, None])
            if isinstance(o.exc, V.SpecificationValidationError):
                parts.append(["tree", root_of(o.exc.node), None])
        elif isinstance(o.val, P.QueryNode):
            parts.append(["tree", o.val, None])
        elif isinstance(o.val, list):
            parts.append(["errs", o.val, None])
        elif k == "antlr":
            parts.append(["antlr", o.val, None])
        # (after a fault the object may still show what it showed before, which is no new result)
        if k == "pparse" and call.get("slot") is not None and not fired:
            parts.append(["errs", self.env.parsers[call["slot"]].errors, None])
        if k == "vval" and call.get("slot") is not None and not fired:
            v = self.env.validators.get(call["slot"])
            if v is not None:
                parts.append(["errs", v.errors, None])
                parts.append(["errs", v.warnings, None])
            if o.extra is not None:
                parts.append(["tree", o.extra, None])
        for p in parts:
            p[2] = snap_of(p[0], p[1])
        if parts:
            self.snaps.append({"op": op["id"], "parts": parts})
            self.stat("snapshot")

    def check_snaps(self, when, op=None):
        # two *separate* results must not share mutable parts
        for s in self.snaps:
            for p in s["parts"]:
                now = snap_of(p[0], p[1])
                if now != p[2]:
                    self.violate("result-changed", "%s: %s handed out by op %s changed from %r to %r" % (when, p[0], s["op"], p[2][:600], now[:600]), s["op"])
                    p[2] = now

    # -- probes
    def probe_fp(self, th):
        d = diff_fp(self.fp0, fingerprint())
        self.stat("fingerprint")
        for k in d:
            self.violate("process-state:" + k, "changed during op %s" % (th.op and th.op["id"]), th.op and th.op["id"])

    def probe_errs(self, th):
        for slot, p in list(self.env.parsers.items()):
            e = p.errors
            c = api.canon_errors(list(e)) if isinstance(e, (list, tuple)) else "?%r" % (e,)
            self.stat("errors_sample")
            # (the sequence of distinct values, and each of them at least once)
            # (how many calls had begun or ended by then, what was seen)
            x = [self.moments, c]
            if (not self.errs_seen or self.errs_seen[-1] != x) and (len(self.errs_seen) < 600 or x not in self.errs_seen):
                self.errs_seen.append(x)

    def probe_trees(self, th):
        for slot, t in self.env.trees.items():
            self.stat("tree_sample")
            if snap_of("tree", t) != self.tree_snap[slot]:
                self.violate("tree-modified", "tree %s while op %s ran: %r -> %r" % (slot, th.op and th.op["id"], self.tree_snap[slot][:500], snap_of("tree", t)[:500]),
                             th.op and th.op["id"])
                self.tree_snap[slot] = snap_of("tree", t)

    def on_nested(self, th, call):
        nested = self.cur_nested[th.tid]
        pre = None
        outer = th.op and th.op["call"]
        if outer and call["k"] == outer["k"] == "pparse" and call.get("slot") is not None and call.get("slot") == outer.get("slot"):
            p = self.env.parsers.get(call["slot"])
            pre = api.canon_errors(p.errors) if p is not None else None
        o = api.finish(call, api.run_call(call, self.env))
        nested.append([call, o.r, o.errs, pre])

    def on_deadlock(self, th):
        self.violate("no-progress", "deadlock: no thread can run (thread %d waits for a lock in op %s)" % (th.tid, th.op and th.op["id"]), th.op and th.op["id"])
        reply(self.replyfd, self.result(dead=True))
        os._exit(0)

    def on_runaway(self, th):
        self.violate("no-progress", "op %s did not finish within %d steps" % (th.op and th.op["id"], th.n), th.op and th.op["id"])
        reply(self.replyfd, self.result(dead=True))
        os._exit(0)

    # -- logging set-up (C10, C11)
    def setup_log(self):
        spec = self.envspec.get("log")
        if not spec:
            return
        lg = logging.getLogger(spec.get("logger", "fcsql"))
        run = self
        if spec.get("level") is not None:
            lg.setLevel(spec["level"])
        if "raise" in spec:
            logging.raiseExceptions = spec["raise"]
        if spec.get("stream"):
            self.logstream = FaultyStream(spec["stream"], self)
            h = logging.StreamHandler(self.logstream)
            h.setFormatter(logging.Formatter("%(asctime)s %(threadName)s %(name)s %(message)s"))
            lg.addHandler(h)
        if spec.get("nest"):
            calls = list(spec["nest"])

            class Nest(logging.Handler):
                def createLock(self):
                    self.lock = None

                def emit(self, record):
                    run.logcalls += 1
                    th = engine._cur
                    tid = th.tid if th is not None else -1
                    if calls and run.logcalls % spec.get("every", 1) == 0 and run.logdepth.get(tid, 0) < spec.get("depth", 1):
                        run.logdepth[tid] = run.logdepth.get(tid, 0) + 1
                        try:
                            run.stat("nested_in_log_handler")
                            with_paused(run, th, calls.pop(0))
                        finally:
                            run.logdepth[tid] -= 1

            lg.addHandler(Nest())

    def callback(self, node):
        """user callback of visitors / validators: nested library calls"""
        calls = self.cbcalls
        if calls:
            self.stat("nested_in_callback")
            with_paused(self, engine._cur, calls.pop(0))

    # -- main
    def run(self):
        scen, env, spec = self.scen, self.env, self.envspec
        if scen.get("intern"):
            share_texts(scen)
        env.fresh = bool(scen.get("fresh"))
        gc.disable()
        if spec.get("gc"):
            gc.enable()
            gc.set_threshold(*spec["gc"])
        self.cur_nested = {}
        for slot, t in (spec.get("trees") or {}).items():
            env.trees[slot] = api.build_tree(t)
            self.tree_snap[slot] = snap_of("tree", env.trees[slot])
        for c in spec.get("warm") or ():
            api.run_call(c, env)
        for slot, o in (spec.get("parsers") or {}).items():
            env.parser(int(slot) if slot.isdigit() else slot, o)
        self.cbcalls = list(spec.get("cbcalls") or ())
        env.callback = self.callback
        if spec.get("wrap_parse"):
            wrap_parse(env)
        probes = []
        names = spec.get("probes") or ()
        if "errs" in names:
            probes.append(self.probe_errs)
        if "trees" in names:
            probes.append(self.probe_trees)
        if "fp" in names:
            probes.append(self.probe_fp)
        pol = scen.get("policy")
        eng = self.eng = engine.Engine(self.execute, engine.Policy(pol, random.Random(pol["seed"])) if pol else None,
                                       on_deadlock=self.on_deadlock, probes=probes, on_nested=self.on_nested,
                                       locks=(random.Random(scen["locks"]["seed"]), scen["locks"]["p"], scen["locks"].get("stall", 0)) if scen.get("locks") else None)
        eng.libacts = scen.get("libacts") or {}
        eng.on_runaway = self.on_runaway
        env.pause = eng.pause
        env.unpause = eng.unpause
        if scen.get("meter"):
            m = self.meter = Meter()

            def pause():
                eng.pause()
                self.counting, m.on = m.on, False

            def unpause():
                m.on = self.counting
                eng.unpause()

            env.pause, env.unpause = pause, unpause
            env.fresh = Text
        watch = dict(scen.get("watch") or {"set": "locs"})
        locs = {}
        for ph in scen["phases"]:
            for t in ph["threads"]:
                for op in t:
                    for a in op.get("acts", ()):
                        if "loc" in a:
                            locs[tuple(a["loc"][0])] = a["loc"][1]
        watch["locs"] = [[list(k), g] for k, g in locs.items()]
        eng.arm(watch)
        self.setup_log()
        std = spec.get("std") or {}
        saved = sys.stdout, sys.stderr
        memfds = None
        if std.get("capture"):
            memfds = capture_fds()
        if "stdout" in std:
            sys.stdout = None if std["stdout"] is None else FaultyStream(std["stdout"], self)
        if "stderr" in std:
            sys.stderr = None if std["stderr"] is None else FaultyStream(std["stderr"], self)
        streams = sys.stdout, sys.stderr
        if "fp" in names:
            self.fp0 = fingerprint()
            self.fpfull = fingerprint(True)
        try:
            for ph in scen["phases"]:
                eng.run_phase(ph["threads"])
        finally:
            eng.disarm()
            if self.meter:
                self.meter.off()
            cur = sys.stdout, sys.stderr
            sys.stdout, sys.stderr = saved
        if cur != streams:
            self.violate("streams-replaced", "sys.stdout / sys.stderr were replaced")
        if memfds:
            for name, data in restore_fds(memfds).items():
                if data:
                    self.violate("writes-" + name, data.decode("utf-8", "replace")[:500])
        for name, s in (("stdout", streams[0]), ("stderr", streams[1])):
            if isinstance(s, FaultyStream) and s.n:
                self.violate("writes-" + name, "%d writes %r" % (s.n, "".join(s.data)[:300]))
        if "fp" in names:
            for k in diff_fp(self.fpfull, fingerprint(True)):
                self.violate("process-state:" + k, "changed after the calls")
        if "trees" in names:
            self.probe_trees(types.SimpleNamespace(op=None))
        if "errs" in names:
            self.probe_errs(None)
        if spec.get("snap"):
            self.check_snaps("at end")
        return self.result()

    def result(self, dead=False):
        eng = self.eng
        st = dict(self.stats)
        for k, v in eng.stats.items():
            st[k] = st.get(k, 0) + v
        ctx = []
        for a, l1, b, l2 in eng.contexts:
            ctx.append(zlib.crc32(repr((a, lockey(l1), b, lockey(l2))).encode()))
        trace = json.dumps([eng.trace, self.recs], sort_keys=True)
        return {"ops": self.recs, "viol": self.viol, "gen": eng.generated, "stats": st, "events": eng.total, "switches": eng.switches,
                "vt": eng.now(), "ctx": ctx[:400], "trace": sha(trace), "errs_seen": self.errs_seen, "dead": dead,
                "fl": [zlib.crc32(repr(f).encode()) for f in eng.fault_log]}


def with_paused(run, th, call):
    if th is None or engine.ENG is None:
        api.run_call(call, run.env)
        return
    eng = run.eng
    eng.pause()
    try:
        run.on_nested(th, call)
    finally:
        eng.unpause()


def lockey(l):
    if l is None:
        return None
    return engine.code_key.get(l[0]), l[1]


def wrap_parse(env):
    orig = P.QueryParser.parse

    def parse(self, *a, **kw):
        try:
            r = orig(self, *a, **kw)
        except BaseException:
            if env.parse_raised is not None:
                env.parse_raised.append(True)
            raise
        if env.parse_raised is not None:
            env.parse_raised.append(False)
        return r

    P.QueryParser.parse = parse


def root_of(n):
    while n.parent is not None:
        n = n.parent
    return n


def snap_of(what, obj):
    if what == "tree":
        return api.canon_node(obj)
    if what == "errs":
        return api.canon_errors(obj) if isinstance(obj, (list, tuple)) else repr(obj)
    if what == "antlr":
        return api.canon_antlr(obj)
    if what == "exc":
        return api.canon_exc(obj) + "".join(exc_shape(x) for x in exc_chain(obj))
    return repr(obj)


def exc_chain(e):
    out = []
    while e is not None and len(out) < 20 and all(e is not x for x in out):
        out.append(e)
        e = e.__cause__ if e.__cause__ is not None else e.__context__
    return out


def exc_shape(e):
    """what can be seen of one exception: its parts and where it was raised"""
    tb, lines = e.__traceback__, []
    while tb is not None and len(lines) < 300:
        lines.append("%s:%s" % (tb.tb_frame.f_code.co_name, tb.tb_lineno))
        tb = tb.tb_next
    attrs = ["%s:0x%x" % (k, id(v)) for k, v in sorted(vars(e).items()) if k != "__notes__"]
    return " {%s at 0x%x args=%r notes=%r suppress=%r attrs=%s by %s}" % (type(e).__name__, id(e), e.args, getattr(e, "__notes__", None), e.__suppress_context__, attrs, ",".join(lines))


def mutate(what, obj, rng):
    """what a caller may do to a result it owns"""
    n = 0
    if what == "tree":
        nodes = []
        todo = [obj]
        while todo:
            x = todo.pop()
            nodes.append(x)
            todo.extend(x.children)
        for x in nodes:
            if rng.random() < 0.5 and isinstance(getattr(x, "regex_flags", None), set):
                x.regex_flags.add(P.RegexFlag.CASE_SENSITIVE)
                n += 1
            if rng.random() < 0.3 and hasattr(x, "regex"):
                x.regex = "MUTATED"
                x.identifier = "mutated"
                n += 1
            if rng.random() < 0.3 and hasattr(x, "min_occurs"):
                x.min_occurs = 77
                n += 1
            if rng.random() < 0.2:
                x.location = None
                n += 1
            if rng.random() < 0.3 and isinstance(x.children, list):
                if x.children and rng.random() < 0.5:
                    x.children.pop(rng.randrange(len(x.children)))
                else:
                    x.children.append(P.ExpressionWildcard())
                n += 1
    elif what == "errs":
        if isinstance(obj, list):
            if rng.random() < 0.4:
                obj.clear()
            obj.append(P.ErrorDetail("MUTATED"))
            n += 1
    elif what == "antlr":
        if obj.children:
            del obj.children[rng.randrange(len(obj.children))]
            n += 1
    elif what == "exc":
        for x in exc_chain(obj):
            x.args = ("MUTATED",)
            x.add_note("MUTATED")
            n += 1
    return n


def capture_fds():
    out = {}
    for name, fd in (("stdout", 1), ("stderr", 2)):
        m = os.memfd_create(name)
        s = os.dup(fd)
        os.dup2(m, fd)
        out[name] = (fd, s, m)
    return out


def restore_fds(m):
    res = {}
    for f in (sys.stdout, sys.stderr):
        try:
            f.flush()
        except Exception:
            pass
    for name, (fd, s, mm) in m.items():
        os.dup2(s, fd)
        os.lseek(mm, 0, 0)
        res[name] = os.read(mm, 100000)
        os.close(mm)
        os.close(s)
    return res


def share_texts(x, table=None):
    """equal texts of a scenario become one string object"""
    table = {} if table is None else table
    for k in range(len(x)) if isinstance(x, list) else list(x):
        v = x[k]
        if isinstance(v, str):
            x[k] = table.setdefault(v, v)
        elif isinstance(v, (dict, list)):
            share_texts(v, table)


def run_scenario(scen, fd=None):
    if scen.get("kind") == "retain":
        from . import retain

        return retain.run(scen)
    return Run(scen, fd).run()


# ---------------------------------------------------------------- baselines and profiles


def baseline(call):
    """outcome of the call alone, in this (cold, forked) process"""
    sys.setrecursionlimit(60000)
    gc.disable()
    o = api.finish(call, api.run_call(call, api.Env()))
    return [o.r, o.errs]


def aged(call, n):
    """locations of hand-written library code first executed in some later repetition of the call: [number of the call, locations]"""
    mon = sys.monitoring
    env = api.Env()
    core = [c for c in engine.codes if engine.is_core_file(engine.code_key[id(c)][0])]
    new = []

    def on_instr(code, off):
        new.append([list(engine.code_key[id(code)]), "instr", off])
        return mon.DISABLE

    def on_line(code, line):
        new.append([list(engine.code_key[id(code)]), "line", line])
        return mon.DISABLE

    gc.disable()
    mon.use_tool_id(4, "aged")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.register_callback(4, mon.events.INSTRUCTION, on_instr)
    for c in core:
        mon.set_local_events(4, c, mon.events.LINE | mon.events.INSTRUCTION)
    out = []
    for j in range(1, n + 1):
        api.run_call(call, env)
        if new:
            if j > 2:
                out.append([j, sorted(new)])
            del new[:]
    return {"aged": out}


def profile(call, warm, debug=False):
    """hit counts of every line of library code (and instruction of hand-written code) in one call"""
    mon = sys.monitoring
    if debug:
        lg = logging.getLogger("fcsql")
        lg.setLevel(10)
        lg.propagate = False
        lg.addHandler(logging.NullHandler())
    env = api.Env()
    if "tree" in call:
        env.trees[call["tree"]] = api.build_tree(call)
    for c in warm:
        api.run_call(c, env)
    gc.disable()
    lines = {}
    instrs = {}

    core = {id(c) for c in engine.codes if engine.is_core_file(engine.code_key[id(c)][0])}

    def on_line(code, line):
        k = (id(code), line)
        n = lines[k] = lines.get(k, 0) + 1
        if n == 400 and k[0] not in core:
            return mon.DISABLE      # (often enough)

    def on_instr(code, off):
        k = (id(code), off)
        instrs[k] = instrs.get(k, 0) + 1

    mon.use_tool_id(4, "prof")
    mon.register_callback(4, mon.events.LINE, on_line)
    mon.register_callback(4, mon.events.INSTRUCTION, on_instr)
    for c in engine.codes:
        f = engine.code_key[id(c)][0]
        if engine.is_core_file(f):
            mon.set_local_events(4, c, mon.events.LINE | mon.events.INSTRUCTION)
        else:
            mon.set_local_events(4, c, mon.events.LINE)
    env.pause = lambda: [mon.register_callback(4, e, None) for e in (mon.events.LINE, mon.events.INSTRUCTION)]
    env.unpause = lambda: (mon.register_callback(4, mon.events.LINE, on_line), mon.register_callback(4, mon.events.INSTRUCTION, on_instr))
    api.run_call(call, env)
    for c in engine.codes:
        mon.set_local_events(4, c, 0)
    mon.free_tool_id(4)
    L = sorted([list(engine.code_key[c]), "line", w, n] for (c, w), n in lines.items())
    I = sorted([list(engine.code_key[c]), "instr", w, n] for (c, w), n in instrs.items())
    out = {"L": L, "I": I}
    for c in warm:
        if c.get("rare"):
            n = {json.dumps(e[:3]): e[3] for e in L + I}
            out["R"] = [e + [n[json.dumps(e)]] for e in c["rare"] if json.dumps(e) in n]
    return out
