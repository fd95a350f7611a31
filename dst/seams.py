"""Seams installed in the zygote *before* the library is imported.

Locks, clocks, sleeping and the global random generator go through objects the
simulator owns.  Outside a simulation they behave like the real thing.
"""
import _thread
import opcode
import random
import threading
import time

real_allocate_lock = _thread.allocate_lock
real_RLock = _thread.RLock
get_ident = _thread.get_ident
real_sleep = time.sleep
real_monotonic = time.monotonic
real_time = time.time

# set by engine.start()/stop(); has .managed(ident), .block(pred, deadline), .now()
_engine = None


def set_engine(e):
    global _engine
    if _engine is not None and e is None:
        offset[0] += _engine.now()
    _engine = e


class SimLock:
    """threading.Lock replacement: real lock outside, scheduler-visible inside."""

    __slots__ = ("_l", "_owner", "__weakref__")

    def __init__(self):
        self._l = real_allocate_lock()
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        e = _engine
        if self._l.acquire(False):
            self._owner = get_ident()
            if e is not None:
                e.locked_point(self._owner)
            return True
        if not blocking:
            return False
        if e is not None and e.managed(get_ident()):
            deadline = None if timeout is None or timeout < 0 else e.now() + timeout
            while True:
                if not e.block(lambda: not self._l.locked(), deadline):
                    return False
                if self._l.acquire(False):
                    self._owner = get_ident()
                    e.locked_point(self._owner)
                    return True
        r = self._l.acquire(True, -1 if timeout is None else timeout)
        if r:
            self._owner = get_ident()
        return r

    def release(self):
        self._owner = None
        self._l.release()

    def locked(self):
        return self._l.locked()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._l = real_allocate_lock()
        self._owner = None


class SimRLock:
    __slots__ = ("_b", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._b = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._b.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._b.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._b.locked()

    def _is_owned(self):
        return self._owner == get_ident()

    def _release_save(self):
        s = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._b.release()
        return s

    def _acquire_restore(self, s):
        self._b.acquire()
        self._count, self._owner = s

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0

    def _at_fork_reinit(self):
        self._b._at_fork_reinit()
        self._owner = None
        self._count = 0


offset = [0.0, 0.0]     # time passed outside of simulated phases; how far the wall clock has been set on or back


def _now(wall):
    e = _engine
    if e is None:
        offset[0] += 1e-6
        return offset[0] + (offset[1] if wall else 0.0)
    return offset[0] + e.now() + (offset[1] if wall else 0.0)


class _Clock:
    def __init__(self, base, wall):
        self.base, self.wall = base, wall

    def __call__(self):
        return self.base + _now(self.wall)


class _ClockNs(_Clock):
    def __call__(self):
        return int((self.base + _now(self.wall)) * 1e9)


class _OfNow:
    def __init__(self, real):
        self.real = real

    def __call__(self, secs=None):
        return self.real(time.time() if secs is None else secs)


def sim_sleep(secs):
    e = _engine
    if e is not None and e.managed(get_ident()):
        e.block(lambda: False, e.now() + max(0.0, secs))
    else:
        real_sleep(secs)
        offset[0] += secs


# Threads the library itself starts belong to the simulation, too: they are parked on batons like
# the clients' threads.  (threading notices the end of a thread by its sentinel lock.)
real_start_new_thread = _thread.start_new_thread
_sentinels = {}


def sim_set_sentinel():
    l = _sentinels[get_ident()] = SimLock()
    return l


def _thread_ended():
    l = _sentinels.pop(get_ident(), None)
    if l is not None and l.locked():
        l.release()


def sim_start_new_thread(fn, args, kwargs=None):
    e = _engine
    kwargs = kwargs or {}
    if e is not None and e.managed(get_ident()):
        return e.spawn(lambda: fn(*args, **kwargs), _thread_ended)

    def run():
        try:
            fn(*args, **kwargs)
        finally:
            _thread_ended()

    return real_start_new_thread(run, ())


class _ImportThreads:
    """what importlib sees as _thread: its module locks are visible to the scheduler"""

    allocate_lock = SimLock
    RLock = SimRLock
    get_ident = staticmethod(get_ident)


def sim_dates(m):
    class datetime(m.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), m.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    class date(m.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())

    return datetime, date


def install():
    import importlib._bootstrap as b

    b._thread = _ImportThreads
    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    import queue

    queue.SimpleQueue = queue._PySimpleQueue
    for name, base in (("time", 1.7e9), ("monotonic", 1000.0), ("perf_counter", 1000.0), ("process_time", 1.0), ("thread_time", 1.0)):
        setattr(time, name, _Clock(base, name == "time"))
        setattr(time, name + "_ns", _ClockNs(base, name == "time"))
    for name in ("localtime", "gmtime", "ctime"):
        setattr(time, name, _OfNow(getattr(time, name)))
    import datetime

    datetime.datetime, datetime.date = sim_dates(datetime)
    time.sleep = sim_sleep
    random.seed(20240229)


_leaving = {}


def _with_ends(c):
    load, call, swap = opcode.opmap["LOAD_CONST"], opcode.opmap["CALL"], opcode.opmap["SWAP"]
    push, wes = opcode.opmap["PUSH_EXC_INFO"], opcode.opmap["WITH_EXCEPT_START"]
    b = c.co_code
    none = [i for i, x in enumerate(c.co_consts) if x is None]
    out = set()
    for i in range(0, len(b), 2):
        if b[i] == wes:
            out.add(i)
            if i >= 2 and b[i - 2] == push:
                out.add(i - 2)
        elif b[i] == call and b[i + 1] == 2 and i >= 6 and all(b[i - j] == load and b[i - j + 1] in none for j in (2, 4, 6)):
            out.update((i, i - 2, i - 4, i - 6))
            j = i - 8
            while j >= 0 and b[j] == swap:
                out.add(j)
                j -= 2
    return out


def leaving_handler(f):
    """is frame f at an instruction that drops the exception being handled? (The interpreter never raises anything of its
    own there, so no exception table entry covers it: an exception would leave the thread 'handling' the old one for ever.)"""
    c = f.f_code
    offs = _leaving.get(id(c))
    if offs is None:
        pop, copy = opcode.opmap["POP_EXCEPT"], opcode.opmap["COPY"]
        b = c.co_code
        offs = {i for i in range(0, len(b), 2) if b[i] == pop or (b[i] == copy and i + 2 < len(b) and b[i + 2] == pop)}
        offs |= _with_ends(c)
        _leaving[id(c)] = offs = (offs, c)
    return f.f_lasti in offs[0]
