"""Deterministic scheduler on top of sys.monitoring.

Real threads are parked on batons; exactly one runs.  Every LINE (or
INSTRUCTION) event of watched code is a point at which the scheduler may switch
threads, raise a fault, start a nested call, probe an invariant ...

Actions of an op: {"n": k, "do": [...]}             at the k-th watched event of the op
                  {"loc": key, "k": j, "do": [...]} at the j-th hit of a location in the op
                  (k == 0: every hit)
                  {"lock": j, "do": [...]}          when the op has acquired a lock for the j-th time
do: ["switch", tid] ["stall", seconds] ["fault", exc] ["call", call] ["log", level] ["clock", dt] ["probe"]
"""
import _thread
import ast
import dis
import enum
import gc
import logging
import os
import re
import sys
import types

from . import seams
from .seams import get_ident, real_allocate_lock

mon = sys.monitoring
TOOL = 4
BIG = 1 << 60

# ------------------------------------------------------------------ code table

codes = []          # sorted list of code objects of the library and its runtime
code_key = {}       # id(code) -> [file, firstlineno, qualname]
by_key = {}         # tuple(key) -> [code...]


def relfile(fn):
    for m in ("/antlr4/", "/fcsql/"):
        i = fn.rfind(m)
        if i >= 0:
            return fn[i + 1:]
    return None


def collect_codes(repo_src):
    seen = {}

    def add(c):
        if id(c) in seen:
            return
        if not (c.co_filename.startswith(repo_src) or "/antlr4/" in c.co_filename):
            return
        seen[id(c)] = c
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                add(k)

    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    l = []
    for c in seen.values():
        f = relfile(c.co_filename)
        if f is None:
            f = "fcsql/" + os.path.relpath(c.co_filename, repo_src)
        l.append((f, c.co_firstlineno, c.co_qualname, c.co_code, c))
    l.sort(key=lambda t: t[:4])
    codes[:] = [t[4] for t in l]
    code_key.clear()
    by_key.clear()
    for t in l:
        key = (t[0], t[1], t[2])
        code_key[id(t[4])] = key
        by_key.setdefault(key, []).append(t[4])


# ------------------------------------------------------------------ shared state
HOT = {}        # id(code) -> offsets of instructions at or near accesses to state that outlives a call
HOTKEYS = set()  # the same as (code key, offset)

_PLAIN = (types.ModuleType, types.FunctionType, types.BuiltinFunctionType, types.MethodType, property, staticmethod, classmethod, str, bytes, frozenset,
          type, enum.Enum, logging.Logger, re.Pattern, types.GenericAlias, types.UnionType, types.MemberDescriptorType, types.GetSetDescriptorType)


def _variable(v, stored):
    """can something that outlives a call change through this value?"""
    if v is None or isinstance(v, (bool, int, float, complex)):
        return stored
    if isinstance(v, tuple):
        return stored or any(_variable(x, False) for x in v)
    return not isinstance(v, _PLAIN) and type(v).__module__ != "typing"


def collect_hot():
    """where hand-written code accesses module globals, class attributes or attributes it sets outside of constructors"""
    HOT.clear()
    HOTKEYS.clear()
    core = [(c, code_key[id(c)]) for c in codes if is_core_file(code_key[id(c)][0])]
    mods = {os.path.realpath(m.__file__): vars(m) for m in list(sys.modules.values()) if getattr(m, "__file__", None)}
    stored_globals, stored_attrs = set(), set()
    ins = {}
    for c, key in core:
        ins[id(c)] = l = [i for i in dis.get_instructions(c) if i.opname not in ("CACHE", "EXTENDED_ARG")]
        for a, i in zip([None] + l, l):
            if i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                stored_globals.add(i.argval)
            elif i.opname in ("STORE_ATTR", "DELETE_ATTR") and c.co_name != "__init__":
                if a.opname in ("LOAD_ATTR", "LOAD_GLOBAL", "SWAP", "LOAD_DEREF") or (a.opname.startswith("LOAD_FAST") and a.argval in ("self", "cls")):
                    stored_attrs.add(i.argval)
    attrs = set(stored_attrs)
    for g in mods.values():
        if not str(g.get("__name__")).startswith("fcsql"):
            continue
        for x in list(g.values()):
            if isinstance(x, type) and x.__module__.startswith("fcsql") and not issubclass(x, enum.Enum) and ".FCS" not in x.__module__:
                attrs |= {n for n, v in vars(x).items() if not n.startswith("__") and not n.startswith("_abc_") and _variable(v, n in stored_attrs)}
            elif isinstance(x, types.FunctionType):
                attrs |= set(x.__dict__) - {"__wrapped__"}
    for c, key in core:
        g = mods.get(os.path.realpath(c.co_filename), {})
        hot = set()
        l = ins[id(c)]
        for k, i in enumerate(l):
            if i.opname in ("LOAD_GLOBAL", "LOAD_NAME"):
                h = i.argval in g and _variable(g[i.argval], i.argval in stored_globals)
            elif i.opname in ("STORE_GLOBAL", "DELETE_GLOBAL"):
                h = True
            else:
                h = i.opname in ("LOAD_ATTR", "STORE_ATTR", "DELETE_ATTR", "LOAD_METHOD") and i.argval in attrs
            if h:
                hot.update(x.offset for x in l[k:k + 4])
        if hot and c.co_name != "<module>":
            HOT[id(c)] = frozenset(hot)
            HOTKEYS.update((key, o) for o in hot)


def is_fcsql_file(f):
    return f.startswith("fcsql/")


GENERATED = ("fcsql/FCSLexer.py", "fcsql/FCSParser.py", "fcsql/FCSParserListener.py", "fcsql/FCSParserVisitor.py")


def is_core_file(f):
    """hand-written library code (not ANTLR output, not the runtime)"""
    return f.startswith("fcsql/") and f not in GENERATED


# ------------------------------------------------------------------ cleanup code
_cleanup = {}


def _cleanup_lines(fn):
    """lines of a source file that belong to a finally block or an exception handler"""
    r = _cleanup.get(fn)
    if r is None:
        r = set()
        try:
            with open(fn, "rb") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            tree = None
        for n in ast.walk(tree) if tree else ():
            for b in ([n.finalbody] + [h.body for h in n.handlers]) if isinstance(n, (ast.Try, ast.TryStar)) else ():
                for x in b:
                    r.update(range(x.lineno, x.end_lineno + 1))
        _cleanup[fn] = r
    return r


def in_cleanup():
    """is library code now in the middle of cleaning up (finally, except, __exit__) after another outcome?"""
    f = sys._getframe(1)
    while f is not None:
        c = f.f_code
        if id(c) in code_key and (f.f_lineno in _cleanup_lines(c.co_filename) or c.co_name == "__exit__"):
            return True
        f = f.f_back
    return False


def at_handler_end(code):
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is not None and seams.leaving_handler(f)


def in_finalizer():
    """is the running library code executed by an object's finalisation (an abandoned generator, __del__)?"""
    f = sys._getframe(1)
    while f is not None and id(f.f_code) not in code_key:
        f = f.f_back
    if f is None:
        return False
    if f.f_lineno is None or f.f_lineno < 0 or isinstance(sys.exception(), GeneratorExit):
        return True
    while f is not None:
        if f.f_code.co_name == "__del__" and id(f.f_code) in code_key:
            return True
        f = f.f_back
    return False


# ------------------------------------------------------------------ faults


class Cancelled(BaseException):
    """a cancellation that is not an Exception (like asyncio's or trio's)"""


class Failure(Exception):
    """an arbitrary runtime failure"""


def make_exc(name):
    import asyncio
    import errno

    t = {
        "KeyboardInterrupt": lambda: KeyboardInterrupt("injected"),
        "GeneratorExit": lambda: GeneratorExit("injected"),
        "SystemExit": lambda: SystemExit("injected"),
        "CancelledError": lambda: asyncio.CancelledError("injected"),
        "Cancelled": lambda: Cancelled("injected"),
        "MemoryError": lambda: MemoryError("injected"),
        "RecursionError": lambda: RecursionError("injected"),
        "OSError": lambda: OSError(errno.EIO, "injected"),
        "TimeoutError": lambda: TimeoutError("injected"),
        "Failure": lambda: Failure("injected"),
        # as the interpreter and the standard library raise them: without arguments
        "KeyboardInterrupt/plain": KeyboardInterrupt,
        "SystemExit/plain": SystemExit,
        "CancelledError/plain": asyncio.CancelledError,
        "MemoryError/plain": MemoryError,
        "OSError/plain": OSError,
        "InterruptedError": lambda: OSError(errno.EINTR, "injected"),
        "ValueError": lambda: ValueError("injected"),
        "IndexError": lambda: IndexError("injected"),
        "KeyError": lambda: KeyError("injected"),
        "AttributeError": lambda: AttributeError("injected"),
        "StopIteration": lambda: StopIteration("injected"),
        "AssertionError": lambda: AssertionError("injected"),
    }
    return t[name]()


CANCELS = ["KeyboardInterrupt", "SystemExit", "CancelledError", "Cancelled", "GeneratorExit", "KeyboardInterrupt/plain", "SystemExit/plain", "CancelledError/plain"]
FAILURES = ["MemoryError", "OSError", "TimeoutError", "RecursionError", "Failure", "MemoryError/plain", "OSError/plain", "InterruptedError"]
ERRORS = ["ValueError", "IndexError", "KeyError", "AttributeError", "StopIteration", "AssertionError"]

# ------------------------------------------------------------------ engine


class Th:
    __slots__ = ("tid", "ident", "baton", "alive", "pred", "deadline", "op", "n", "budget", "left", "nacts",
                 "locs", "pol_n", "ops", "prio", "fired", "timed_out", "saved", "incleanup", "nlock", "lockacts", "inop", "lib")

    def __init__(self, tid, ops):
        self.tid = tid
        self.ops = ops
        self.ident = None
        self.baton = real_allocate_lock()
        self.baton.acquire()
        self.alive = True
        self.pred = None
        self.deadline = None
        self.op = None
        self.n = 0
        self.budget = BIG
        self.left = BIG
        self.nacts = []
        self.locs = {}
        self.pol_n = BIG
        self.prio = 0
        self.fired = None
        self.incleanup = False
        self.timed_out = False
        self.saved = None
        self.nlock = 0
        self.lockacts = ()
        self.inop = False
        self.lib = False          # started by the library, not by a client


_left = BIG
_locs = {}
_cur = None
ENG = None


def _cb_line(code, where):
    global _left
    if _locs:
        d = _locs.get(id(code))
        if d is not None:
            c = d.get(where)
            if c is not None and get_ident() == _cur.ident:
                ENG._loc_hit(c, code, where)
    _left -= 1
    if _left:
        return
    return ENG._slow(code, where)


def _cb_instr(code, where):
    return _cb_line(code, -1 - where)


def _cb_hot(code, where):
    if where not in HOT[id(code)]:
        return mon.DISABLE
    return _cb_line(code, -1 - where)


class Deadlock(Exception):
    pass


STALLS = [0.002, 0.1, 1.5, 12.0, 90.0, 2000.0]
JUMPS = [-3e7, -7200.0, -30.0, -0.5, 0.5, 45.0, 4000.0, 3e7]      # somebody sets the wall clock


def pause(rng):
    return ["clock", rng.choice(JUMPS)] if rng.random() < 0.25 else ["stall", rng.choice(STALLS)]


class Engine:
    """One simulated run (or one phase of it: call run_phase repeatedly)."""

    def __init__(self, execute, policy=None, on_deadlock=None, probes=(), on_nested=None, locks=None):
        self.execute = execute            # execute(th, op)
        self.policy = policy
        self.locks = locks                # (rng, p, q): with probability p something happens when a lock was acquired: a stall (q) or a switch
        self.libacts = {}
        self.nlib = 0
        self.probing = False
        self.on_deadlock = on_deadlock
        self.probes = list(probes)        # called at every action point, must not raise
        self.on_nested = on_nested        # on_nested(th, call)
        self.threads = []
        self.trace = []                   # every action performed, in order
        self.generated = []               # those decided by the policy (needed for replay)
        self.total = 0
        self.vt = 0.0
        self.switches = 0
        self.fault_log = []
        self.contexts = []                # switch contexts (from loc, to op/loc)
        self.stats = {}
        self.armed = None
        self.idents = set()
        self.lastloc = {}
        self.on_runaway = None
        self.waits = 0
        self.max_op_events = 20_000_000

    # -- arming ---------------------------------------------------------
    def arm(self, watch):
        """watch: {"set": all|fcsql|core|locs, "gran": line|instr, "locs": [codekeys]}"""
        global ENG
        ENG = self
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _cb_line)
        s = watch.get("set", "all")
        mon.register_callback(TOOL, mon.events.INSTRUCTION, _cb_hot if s == "hot" else _cb_instr)
        gran = watch.get("gran", "line")
        ev = mon.events.LINE if gran == "line" else mon.events.INSTRUCTION
        n = 0
        special = {}
        for key, g in watch.get("locs", ()) if s != "hot" else ():
            for c in by_key.get(tuple(key), ()):
                special[id(c)] = mon.events.LINE if g == "line" else mon.events.INSTRUCTION
        for c in codes:
            if id(c) in special:
                mon.set_local_events(TOOL, c, special[id(c)])
                n += 1
                continue
            f = code_key[id(c)][0]
            if s == "hot":
                if id(c) in HOT:
                    mon.set_local_events(TOOL, c, mon.events.INSTRUCTION)
                    n += 1
            elif s == "all" or (s == "fcsql" and is_fcsql_file(f)) or (s == "core" and is_core_file(f)):
                mon.set_local_events(TOOL, c, ev)
                n += 1
        self.armed = n
        seams.set_engine(self)

    def disarm(self):
        global ENG, _left, _locs
        for c in codes:
            mon.set_local_events(TOOL, c, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
        seams.set_engine(None)
        ENG = None
        _left = BIG
        _locs = {}

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- clock ------------------------------------------------------------
    def now(self):
        return self.vt + self.total * 1e-6

    def managed(self, ident):
        return ident in self.idents

    # -- budget -------------------------------------------------------------
    def _set_budget(self, th):
        """(re)compute the number of events until the next decision of th"""
        global _left
        nxt = th.pol_n if th.pol_n < self.max_op_events else self.max_op_events
        if th.nacts and th.nacts[0]["n"] < nxt:
            nxt = th.nacts[0]["n"]
        b = nxt - th.n
        if b < 1:
            b = 1
        th.budget = b
        _left = b

    def _sync(self, th):
        """bring th.n and the total up to date with the countdown"""
        global _left
        d = th.budget - _left
        th.n += d
        self.total += d
        th.budget = _left

    def op_begin(self, th, op):
        global _locs
        self._sync(th)
        th.op = op
        th.n = 0
        th.fired = []
        th.incleanup = False
        th.nacts = []
        th.locs = {}
        th.nlock = 0
        th.lockacts = []
        th.inop = True
        for a in op.get("acts", ()):
            if "lock" in a:
                th.lockacts.append(a)
            elif "loc" in a:
                key = tuple(a["loc"][0])
                where = a["loc"][2] if a["loc"][1] == "line" else -1 - a["loc"][2]
                for c in by_key.get(key, ()):
                    th.locs.setdefault(id(c), {}).setdefault(where, []).append([0, a])
            else:
                th.nacts.append(a)
        th.nacts.sort(key=lambda a: a["n"])
        _locs = th.locs
        th.pol_n = self.policy.next(th, self) if self.policy else BIG
        self._set_budget(th)

    def op_end(self, th):
        global _locs, _left
        self._sync(th)
        th.inop = False
        th.saved = None
        th.locs = _locs = {}
        th.nacts = []
        th.pol_n = BIG
        th.budget = BIG
        _left = BIG

    def pause(self):
        """no decisions on the running thread until unpause() (its events are not counted in its op)"""
        global _left, _locs
        th = _cur
        if th is None or get_ident() != th.ident:
            return
        self._sync(th)
        if th.saved is None:
            th.saved = [th.n, th.locs, 1]
            th.locs = _locs = {}
            th.budget = _left = BIG
        else:
            th.saved[2] += 1

    def unpause(self):
        global _left, _locs
        th = _cur
        if th is None or get_ident() != th.ident or th.saved is None:
            return
        th.saved[2] -= 1
        if th.saved[2]:
            return
        self._sync(th)
        n, th.locs, _ = th.saved
        th.saved = None
        th.n = n
        _locs = th.locs
        self._set_budget(th)

    # -- locks --------------------------------------------------------------
    def locked_point(self, ident):
        """the running thread has just acquired a lock: another point at which it may be preempted"""
        th = _cur
        if th is None or ident != th.ident or not th.inop or th.saved is not None or self.probing:
            return
        th.nlock += 1
        for a in th.lockacts:
            if a["lock"] == th.nlock:
                self._sync(th)
                self._perform(th, a["do"], None, 0, a)
        if self.locks is not None and len(self.threads) > 1 and len(self.generated) < 2000 and self.locks[0].random() < self.locks[1]:
            self._sync(th)
            if self.locks[0].random() < self.locks[2]:
                do = ["stall", self.locks[0].choice(STALLS)]
            else:
                t = self.locks[0].randrange(len(self.threads) - 1)
                do = ["switch", t + (t >= th.tid)]
            self._perform(th, do, None, 0, {"lock": th.nlock}, True)

    # -- events -----------------------------------------------------------
    def _loc_hit(self, lst, code, where):
        th = _cur
        todo = []
        for c in lst:
            c[0] += 1
            k = c[1].get("k", 0)
            if k == 0 or k == c[0]:
                todo.append(c[1])
        if todo:
            self._sync(th)
            self.lastloc[th.tid] = (id(code), where)
            for a in todo:
                self._perform(th, a["do"], code, where, a)

    def _slow(self, code, where):
        global _left
        th = _cur
        if get_ident() != th.ident:
            _left = 1
            return
        self._sync(th)
        self.lastloc[th.tid] = (id(code), where)
        todo = []
        while th.nacts and th.nacts[0]["n"] <= th.n:
            todo.append((th.nacts.pop(0), False))
        if th.n >= self.max_op_events:
            if self.on_runaway:
                self.on_runaway(th)
            raise RuntimeError("runaway op")
        if th.n >= th.pol_n:
            do = self.policy.decide(th, self)
            th.pol_n = self.policy.next(th, self)
            if do is not None:
                todo.append(({"n": th.n, "do": do}, True))
        self._set_budget(th)
        for a, gen in todo:
            self._perform(th, a["do"], code, where, a, gen)

    def _record(self, th, a, do, gen=False):
        r = {"op": th.op["id"], "do": do}
        if "lock" in a:
            r["lock"] = a["lock"]
            self.stat("preemption_holding_lock")
        elif "loc" in a:
            r["loc"] = a["loc"]
            r["k"] = a.get("k", 0)
        else:
            r["n"] = a["n"]
        self.trace.append(r)
        if gen:
            self.generated.append(r)

    def _perform(self, th, do, code, where, a, gen=False):
        kind = do[0]
        if kind == "switch":
            to = self._target(th, do[1])
            if to is not None:
                self._record(th, a, ["switch", do[1]], gen)
                self.stat("preemption")
                self._switch(th, to)
            return
        if kind == "stall":
            # the thread is not scheduled for a while (an overloaded machine, a suspended laptop)
            self._record(th, a, do, gen)
            self.stat("stall")
            self.block(lambda: False, self.now() + do[1])
            return
        if kind == "fault":
            if in_finalizer():
                # the interpreter itself discards (and reports) any exception raised here
                self.stat("fault_point_in_finalizer")
                return
            if code is not None and at_handler_end(code):
                self.stat("fault_point_at_end_of_handler")
                return
            self._record(th, a, do)
            exc = make_exc(do[1])
            th.fired.append((exc, do[1], self._where(code, where), self._stack_info()))
            self.stat("fault:" + do[1])
            self.fault_log.append((do[1], self._where(code, where)))
            if in_cleanup():
                th.incleanup = True
                self.stat("fault_in_cleanup")
            raise exc
        if kind == "call":
            self._record(th, a, do)
            self.stat("nested_call")
            if self.on_nested:
                self.on_nested(th, do[1])
            return
        if kind == "exit":
            os._exit(9)     # the process crashes here
        if kind == "probe":
            self._record(th, a, do)
            self.stat("probe")
            self._probe(th)
            return
        if kind == "clock":
            self._record(th, a, do)
            self.stat("wall_clock_set_back" if do[1] < 0 else "wall_clock_set_on")
            seams.offset[1] += do[1]
            return
        if kind == "log":
            import logging

            self._record(th, a, do)
            self.stat("log_level_toggle")
            self.probing = True     # (its lock is no scheduling point)
            try:
                logging.getLogger(do[2] if len(do) > 2 else "fcsql").setLevel(do[1])
            finally:
                self.probing = False
            return
        raise RuntimeError("unknown action %r" % (do,))

    def _where(self, code, where):
        # (runtime location of an event)
        key = code_key.get(id(code)) or ("?", 0, code.co_qualname)
        return [list(key), "line" if where >= 0 else "instr", where if where >= 0 else -1 - where]

    def _stack_info(self):
        """[(relfile, qualname)] outermost first, library and runtime frames only"""
        f = sys._getframe(1)
        out = []
        while f is not None:
            c = f.f_code
            k = code_key.get(id(c))
            if k is not None:
                out.append((k[0], k[2]))
            f = f.f_back
        out.reverse()
        return out

    # -- switching ----------------------------------------------------------
    def runnable(self, t):
        if not t.alive:
            return False
        if t.pred is None:
            return True
        if t.pred():
            return True
        return t.deadline is not None and t.deadline <= self.now()

    def _target(self, th, want):
        n = len(self.threads)
        for d in range(n):
            t = self.threads[(want + d) % n]
            if t is not th and self.runnable(t):
                return t
        return None

    def _switch(self, th, to):
        """hand the baton from th (running) to to; returns when th is resumed"""
        global _cur, _left, _locs
        self._sync(th)
        th.left = _left
        if self.probes:
            _left = BIG
            _locs = {}
            self._probe(th)
        self.switches += 1
        self.contexts.append((th.op and th.op["call"].get("k"), self.lastloc.get(th.tid), to.op and to.op["call"].get("k"), self.lastloc.get(to.tid)))
        self._resume(to)
        th.baton.acquire()
        # resumed by another thread which has set everything up

    def _probe(self, th):
        self.probing = True
        try:
            for p in self.probes:
                p(th)
        finally:
            self.probing = False

    def _resume(self, to):
        global _cur, _left, _locs
        _cur = to
        _locs = to.locs
        _left = to.left
        to.budget = to.left
        to.baton.release()

    def block(self, pred, deadline):
        """called by seams on the running thread; True if pred became true, False on timeout"""
        th = _cur
        if get_ident() != th.ident:
            return True
        self.stat("blocked")
        while True:
            if pred():
                return True
            if deadline is not None and deadline <= self.now():
                return False
            th.pred = pred
            th.deadline = deadline
            to = self._target(th, th.tid + 1)
            if to is None:
                if self._outside(th):
                    continue
                dl = [t.deadline for t in self.threads if t.alive and t.deadline is not None]
                if not dl:
                    self._deadlock(th)
                self.vt += max(0.0, min(dl) - self.now())
                to = self._target(th, th.tid + 1)
                if to is None or (th.deadline is not None and th.deadline <= self.now()):
                    th.pred = th.deadline = None
                    continue
            self._switch(th, to)
            th.pred = th.deadline = None

    def _outside(self, th):
        """threads the scheduler did not start may still make th runnable: give them real time"""
        if _thread._count() <= sum(t.alive for t in self.threads) + (not th.alive):
            return False
        self.waits += 1
        seams.real_sleep(0.001)
        return self.waits < 5000

    def _deadlock(self, th):
        if self.on_deadlock:
            self.on_deadlock(th)
        raise Deadlock()

    # -- phases ---------------------------------------------------------------
    def run_phase(self, oplists):
        global _cur, _left, _locs
        old = [t for t in self.threads if t.lib and t.alive]
        self.threads = [Th(i, ops) for i, ops in enumerate(oplists)]
        live = list(self.threads)
        for t in old:
            t.tid = len(self.threads)
            self.threads.append(t)
        done = real_allocate_lock()
        done.acquire()
        self._done = done
        if self.policy:
            self.policy.start(self)
        for t in live:
            _thread.start_new_thread(self._main, (t,))
        _cur = live[0]
        self._resume(live[0])
        done.acquire()
        self.idents.intersection_update([t.ident for t in self.threads if t.lib])

    def spawn(self, fn, ended):
        """a thread started by the library"""
        th = Th(len(self.threads), [])
        th.lib = True
        op = {"id": "t%d" % self.nlib, "call": {"k": "thread"}, "acts": self.libacts.get("t%d" % self.nlib, ())}
        self.nlib += 1
        self.stat("library_thread")

        def main():
            th.ident = get_ident()
            th.baton.acquire()
            self.idents.add(th.ident)
            try:
                self.op_begin(th, op)
                try:
                    fn()
                finally:
                    self.op_end(th)
            except SystemExit:
                pass
            finally:
                ended()
                th.alive = False
                th.op = None
                self.idents.discard(th.ident)
                self._finish(th)

        self.threads.append(th)
        return _thread.start_new_thread(main, ())

    def _main(self, th):
        global _cur, _left
        th.ident = get_ident()
        th.baton.acquire()
        self.idents.add(th.ident)
        try:
            for op in th.ops:
                self.op_begin(th, op)
                try:
                    self.execute(th, op)
                finally:
                    self.op_end(th)
        finally:
            th.alive = False
            th.op = None
            self.idents.discard(th.ident)
            self._finish(th)

    def _finish(self, th):
        if not any(t.alive and not t.lib for t in self.threads):
            # (threads of the library that still run or wait stay where they are until the next phase)
            self._done.release()
            return
        while True:
            to = self._target(th, th.tid + 1)
            if to is not None:
                self._resume(to)
                return
            if self._outside(th):
                continue
            dl = [t.deadline for t in self.threads if t.alive and t.deadline is not None]
            if not dl:
                self._deadlock(th)
            self.vt += max(1e-9, min(dl) - self.now())

    def after_fork_in_child(self):
        """only the calling thread exists any more"""
        for t in self.threads:
            if t is not _cur:
                t.alive = False


# ------------------------------------------------------------------ policies


class Policy:
    """seeded schedule policy; decisions are recorded as explicit actions"""

    def __init__(self, spec, rng):
        self.spec = spec
        self.rng = rng
        self.kind = spec["kind"]
        self.count = 0
        self.limit = spec.get("limit", 4000)

    def start(self, eng):
        self.prios = list(range(len(eng.threads)))
        self.rng.shuffle(self.prios)
        for t, p in zip(eng.threads, self.prios):
            t.prio = p
        self.low = -1
        if self.kind == "pct":
            est = max(2, self.spec["est"])
            self.points = sorted(self.rng.randrange(1, est) for _ in range(self.spec["d"]))

    def next(self, th, eng):
        if self.count >= self.limit:
            return BIG
        k = self.kind
        if k == "gap":
            g = self.spec["gap"]
            return th.n + (1 + int(self.rng.expovariate(1.0 / g)) if g > 0 else 1)
        if k in ("rr", "probe"):
            return th.n + self.spec["q"]
        if k == "pct":
            # a thread that is not the top one gives way at its next event
            top = self._top(eng)
            if top is not None and top is not th and top.prio > th.prio:
                return th.n + 1
            if self.points:
                return th.n + max(1, self.points[0] - eng.total)
            return BIG
        return BIG

    def _top(self, eng):
        best = None
        for t in eng.threads:
            if t.alive and t.pred is None and (best is None or t.prio > best.prio):
                best = t
        return best

    def decide(self, th, eng):
        if self.kind == "probe":
            self.count += 1
            return ["probe"]
        n = len(eng.threads)
        if n < 2 or sum(t.alive for t in eng.threads) < 2:
            return None
        self.count += 1
        if self.spec.get("stall") and self.rng.random() < self.spec["stall"]:
            return pause(self.rng)
        if self.kind == "rr":
            return ["switch", (th.tid + 1) % n]
        if self.kind == "pct":
            if self.points and eng.total >= self.points[0]:
                self.points.pop(0)
                th.prio = self.low
                self.low -= 1
            top = self._top(eng)
            if top is None or top is th:
                return None
            return ["switch", top.tid]
        t = self.rng.randrange(n - 1)
        if t >= th.tid:
            t += 1
        return ["switch", t]
