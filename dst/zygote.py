"""Cold interpreter that is forked for every simulated run, baseline and profile."""
import gc
import hashlib
import json
import os
import select
import shutil
import signal
import sys
import traceback

from . import seams

HARNESS = "harness"


def reply(fd, obj):
    data = json.dumps(obj).encode("utf-8", "surrogatepass")
    while data:
        n = os.write(fd, data)
        data = data[n:]


DISK = None     # the disk of the simulated machine: where the library finds its home and temporary directory


def mount():
    """give this process, and all it forks, a disk of its own (inside the check's scratch directory, removed with it)"""
    import tempfile

    global DISK
    DISK = tempfile.mkdtemp(prefix="disk-", dir=os.environ["PYTHONPYCACHEPREFIX"])
    for k in ("HOME", "TMPDIR", "TEMP", "TMP", "XDG_CACHE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR"):
        os.environ[k] = DISK
    tempfile.tempdir = None


def blank():
    """a new, empty disk: every run starts with one"""
    if DISK is not None:
        for e in os.scandir(DISK):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path, True)
            else:
                os.unlink(e.path)


class ForkRunner:
    """run fn() in a fork, return its JSON result; {"hang":True} / {"harness":...} / {"died":...} otherwise"""

    def __call__(self, fn, timeout=20.0, passfd=False):
        blank()
        r, w = os.pipe()
        gc.freeze()     # what the worker itself has allocated is none of the run's business
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                if w != 9:
                    os.dup2(w, 9)
                    os.close(w)
                res = fn(9) if passfd else fn()
                reply(9, res)
            except BaseException:
                try:
                    reply(9, {HARNESS: traceback.format_exc()[-4000:]})
                except BaseException:
                    code = 3
            os._exit(code)
        os.close(w)
        data = []
        end = seams.real_monotonic() + timeout
        hang = False
        while True:
            t = end - seams.real_monotonic()
            if t <= 0:
                hang = True
                break
            if select.select([r], [], [], t)[0]:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                data.append(b)
        os.close(r)
        if hang:
            os.kill(pid, signal.SIGKILL)
        _, st = os.waitpid(pid, 0)
        if hang:
            return {"hang": True}
        try:
            return json.loads(b"".join(data).decode("utf-8", "surrogatepass"))
        except ValueError:
            return {"died": st}


class Harness(Exception):
    pass


def strip_call(c):
    """the call as it would be made alone"""
    d = {k: v for k, v in c.items() if k not in ("slot", "shared", "tree", "cb", "headroom", "shallow", "depth", "cid", "obj", "drop")}
    return d


def _sim():
    """imported in the fork: the zygote of import simulations must not import the library"""
    from . import sim

    return sim


class Zygote:
    def __init__(self):
        self.fork = ForkRunner()
        self.base = {}
        self.prof = {}
        self.nbase = 0
        self.dir = None
        self.patience = (20.0, 60.0)    # real seconds before a run counts as hanging: at first, when repeated

    # Outcomes and profiles are functions of the call and the tree under test: the workers of one
    # check, which run with one hash seed, keep them in a common directory.
    def load(self, kind, key):
        if self.dir is None:
            return None
        try:
            with open(self.path(kind, key)) as f:
                k, v = json.load(f)
                return v if k == key else None
        except (OSError, ValueError):
            return None

    def save(self, kind, key, v):
        if self.dir is None:
            return
        path = self.path(kind, key)
        tmp = "%s.%d" % (path, os.getpid())
        try:
            with open(tmp, "w") as f:
                json.dump([key, v], f)
            os.rename(tmp, path)
        except OSError:
            pass

    def path(self, kind, key):
        return os.path.join(self.dir, kind + hashlib.sha1(key.encode("utf-8", "surrogatepass")).hexdigest())

    def share(self, path):
        os.makedirs(path, exist_ok=True)
        self.dir = path

    def baseline(self, call):
        c = strip_call(call)
        key = json.dumps(c, sort_keys=True)
        b = self.base.get(key)
        if b is None:
            b = self.base[key] = self.load("b", key)
        if b is None:
            b = self.fork(lambda: {"b": _sim().baseline(c)}, timeout=60)
            if "b" not in b:
                if b.get("hang"):
                    b = {"b": ["no answer alone within 60 s", None]}
                else:
                    raise Harness("baseline %s: %s" % (key, b))
            b = b["b"]
            self.nbase += 1
            if len(self.base) > 20000:
                self.base.clear()
            self.base[key] = b
            self.save("b", key, b)
        return b

    def profile(self, call, warm=(), debug=False):
        key = json.dumps([call, list(warm)] + [True] * debug, sort_keys=True)
        p = self.prof.get(key)
        if p is None:
            p = self.load("p", key)
            if p is not None:
                self.prof[key] = p
        if p is None:
            p = self.fork(lambda: _sim().profile(call, warm, debug), timeout=60)
            if "L" not in p:
                raise Harness("profile: %s" % p)
            self.prof[key] = p
            self.save("p", key, p)
        return p

    def aged(self, calls, n, shard):
        """what the library does only at a later repetition of a call: [call, number of the repetition, locations]; the workers share the work"""
        out = {}
        keys = ["aged" + json.dumps([c, n], sort_keys=True) for c in calls]

        def work(j):
            # (what goes wrong here shows in the runs)
            out[j] = self.fork(lambda: _sim().aged(calls[j], n), timeout=60).get("aged") or []
            self.save("a", keys[j], out[j])

        for i in range(len(calls)):
            j = (i + shard) % len(calls)
            r = self.load("a", keys[j])
            if r is not None:
                out[j] = r
                continue
            if self.dir is not None:
                try:
                    os.close(os.open(self.path("l", keys[j]), os.O_CREAT | os.O_EXCL))
                except OSError:
                    continue    # (another worker is at it)
            work(j)
        end = seams.real_monotonic() + 20
        for j in range(len(calls)):
            while j not in out:
                r = self.load("a", keys[j])
                if r is not None:
                    out[j] = r
                elif seams.real_monotonic() > end:
                    work(j)
                else:
                    seams.real_sleep(0.01)
        return [[calls[j], k, es] for j in range(len(calls)) for k, es in out[j]]

    def need(self, call):
        key = "need" + json.dumps(call, sort_keys=True)
        n = self.base.get(key)
        if n is None:
            n = self.base[key] = self.load("n", key)
        if n is None:
            n = self.fork(lambda: {"n": _sim().need(call)}, timeout=60)
            n = self.base[key] = n.get("n", 500)
            self.save("n", key, n)
        return n

    def work(self, call):
        key = "work" + json.dumps(strip_call(call), sort_keys=True)
        n = self.base.get(key)
        if n is None:
            n = self.base[key] = self.load("w", key)
        if n is None:
            n = self.fork(lambda: {"w": _sim().work(strip_call(call))}, timeout=60)
            if "w" not in n:
                raise Harness("work: %s" % n)
            n = self.base[key] = n["w"]
            self.save("w", key, n)
        return n

    def run_fresh(self, scen):
        """the calls of a scenario in a process that was never forked"""
        from . import fresh

        ops = [o for ph in scen["phases"] for t in ph["threads"] for o in t]
        calls = [strip_call(o["call"]) for o in ops]
        viol = []
        outs = None
        for t in (30.0, 90.0):
            blank()
            outs = fresh.ask(self.repo, calls, t)
            if outs is not None:
                break
        if outs is None:
            viol.append({"kind": "no-progress", "detail": "a process that was never forked does not answer", "op": None})
        elif isinstance(outs, dict):
            viol.append({"kind": "process-died", "detail": "exit status %s" % outs["died"], "op": None})
        return {"ops": {}, "viol": viol, "gen": [], "stats": {"unforked_process": 1}, "events": len(calls), "switches": 0, "vt": 0.0, "ctx": [], "errs_seen": [], "answers": [],
                "dead": bool(viol), "fl": [], "outs": [] if viol else [[o["id"], x] for o, x in zip(ops, outs)], "trace": hashlib.sha1(json.dumps(outs).encode()).hexdigest()[:16]}

    def run(self, scen):
        if scen.get("unforked"):
            return self.run_fresh(scen)
        r = None
        for t in self.patience:
            r = self.fork(lambda fd: _sim().run_scenario(scen, fd), t, passfd=True)
            if not r.get("hang"):
                break
        if r.get("hang"):
            return {"ops": {}, "viol": [{"kind": "no-progress", "detail": "the run does not finish", "op": None}], "gen": [], "stats": {"hang": 1},
                    "events": 0, "switches": 0, "vt": 0, "ctx": [], "trace": "hang", "errs_seen": [], "dead": True, "fl": []}
        if "ops" not in r:
            if "died" in r:
                return {"ops": {}, "viol": [{"kind": "process-died", "detail": "wait status %s" % r["died"], "op": None}], "gen": [], "stats": {},
                        "events": 0, "switches": 0, "vt": 0, "ctx": [], "trace": "died", "errs_seen": [], "dead": True, "fl": []}
            raise Harness("run: %s" % (r.get(HARNESS) or r))
        return r


def import_all(pkg):
    """modules the package imports lazily: their code has to be known to the scheduler"""
    import pkgutil

    for m in pkgutil.walk_packages(pkg.__path__, pkg.__name__ + "."):
        if "__main__" not in m.name:
            try:
                __import__(m.name)
            except Exception:
                pass


def boot(repo):
    """install the seams and import the library; call once per worker"""
    import _thread
    import gc
    import warnings

    seams.install()
    warnings.simplefilter("ignore", DeprecationWarning)
    sys.setrecursionlimit(20000)
    _thread.stack_size(64 << 20)
    import fcsql  # noqa

    src = os.path.realpath(os.path.join(repo, "src"))
    if os.path.dirname(os.path.dirname(os.path.realpath(fcsql.__file__))) != src:
        raise Harness("fcsql imported from %s, not %s" % (fcsql.__file__, src))
    import_all(fcsql)
    from . import api, engine, sim  # noqa
    import asyncio, errno, logging, random, socket, atexit, locale  # noqa

    engine.collect_codes(src)
    engine.collect_hot()
    for c in engine.codes:
        engine._cleanup_lines(c.co_filename)
    # everything lazily created by the harness itself
    sim.fingerprint(True)
    gc.collect()
    sim.OLD[:] = [o for o in gc.get_objects() if o is not sim.OLD]
    gc.freeze()
    z = Zygote()
    z.repo = repo
    return z
