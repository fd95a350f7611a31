"""Simulated first imports (C14).

The zygote of this module has *not* imported the library: every run is a fork that
imports it for the first time, under injected interruptions, and then uses it.
"""
import gc
import hashlib
import json
import os
import sys
import types

from . import seams
from .zygote import Harness, Zygote

mon = sys.monitoring
TOOL = 4
KEEP = []
ENTRIES = ("fcsql", "fcsql.parser", "fcsql.validation", "fcsql.FCSParser", "fcsql.FCSLexer", "antlr4")


def rel(fn):
    for m in ("/fcsql/", "/antlr4/"):
        i = fn.rfind(m)
        if i >= 0:
            return fn[i + 1:]
    return None


class Tearer:
    """raises one exception at one point of an import attempt"""

    def __init__(self, src):
        self.src = src
        self.files = {}
        self.fault = None
        self.armed = False
        self.count = {}
        self.n = 0
        self.reads = 0
        self.fired = None
        self.profile = None

    def file_of(self, code):
        f = self.files.get(code.co_filename)
        if f is None:
            f = self.files[code.co_filename] = rel(code.co_filename) or ""
        return f

    def line(self, code, where):
        f = self.file_of(code)
        if not f:
            return mon.DISABLE
        self.event(f, "line", where)

    def instr(self, code, where):
        f = self.file_of(code)
        if not f or code.co_flags & 2 and not f.startswith("fcsql/"):     # functions of the runtime: lines only
            return mon.DISABLE
        self.event(f, "instr", where)

    def event(self, f, gran, where):
        self.n += 1
        if self.profile is not None:
            k = (f, gran, where)
            self.profile[k] = self.profile.get(k, 0) + 1
            return
        a = self.fault
        if a is None:
            return
        if "n" in a:
            hit = self.n == a["n"]
        elif a.get("at") == [f, gran, where]:
            c = self.count["x"] = self.count.get("x", 0) + 1
            hit = c == a["k"]
        else:
            return
        if hit and not seams.leaving_handler(sys._getframe(2)):
            self.fire(a["exc"], [f, gran, where])

    def fire(self, name, at):
        from . import engine

        self.fault = None
        self.fired = [name, at]
        raise engine.make_exc(name)

    def on_read(self, path):
        f = rel(path)
        if f is None or not self.armed:
            return
        self.reads += 1
        if self.profile is not None:
            k = ("io", os.path.basename(f))
            self.profile["io"] = self.profile.get("io", 0) + 1
            return
        a = self.fault
        if a is not None and a.get("read") == self.reads:
            self.fire(a["exc"], ["read", f.split("/")[-1].split(".")[0], self.reads])

    def __enter__(self):
        self.armed = True
        self.n = self.reads = 0
        self.count = {}
        self.fired = None
        need_instr = self.profile is not None or (self.fault or {}).get("at", ["", ""])[1] == "instr"
        need_line = not (self.fault is not None and "read" in self.fault)
        mon.use_tool_id(TOOL, "import")
        mon.register_callback(TOOL, mon.events.LINE, self.line)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, self.instr)
        mon.restart_events()
        mon.set_events(TOOL, (mon.events.LINE if need_line else 0) | (mon.events.INSTRUCTION if need_instr else 0))

    def __exit__(self, *a):
        mon.set_events(TOOL, 0)
        mon.register_callback(TOOL, mon.events.LINE, None)
        mon.register_callback(TOOL, mon.events.INSTRUCTION, None)
        mon.free_tool_id(TOOL)
        self.armed = False


TEAR = None


def install_reader():
    from importlib import _bootstrap_external as be

    real = be.FileLoader.get_data

    def get_data(self, path):
        if TEAR is not None:
            TEAR.on_read(path)
        return real(self, path)

    be.FileLoader.get_data = get_data


def attempt(t, spec):
    """one import attempt; returns a plain description"""
    fault = spec.get("fault")
    t.fault = dict(fault) if fault else None
    old = sys.getrecursionlimit()
    hr = (fault or {}).get("headroom")
    exc = None
    for m in spec["entry"]:
        try:
            with t:
                try:
                    if hr:
                        d = 0
                        f = sys._getframe()
                        while f is not None:
                            d += 1
                            f = f.f_back
                        sys.setrecursionlimit(d + hr)
                    __import__(m)
                finally:
                    sys.setrecursionlimit(old)
        except BaseException as e:
            exc = e
            break
    r = {"ok": exc is None, "fired": t.fired}
    if exc is not None:
        r["exc"] = "%s: %s" % (type(exc).__name__, str(exc)[:300])
        if t.fired is None and hr and isinstance(exc, RecursionError):
            t.fired = r["fired"] = ["RecursionError", ["stack", "", hr]]
    exc = None
    return r


def public_api():
    """names of the package and of its modules, and whether they are the same objects everywhere"""
    import fcsql
    import fcsql.parser
    import fcsql.validation

    out = []
    mods = {n: m for n, m in sys.modules.items() if n == "fcsql" or n.startswith("fcsql.")}
    for n in sorted(mods):
        m = mods[n]
        for a in sorted(vars(m)):
            v = vars(m)[a]
            if isinstance(v, types.ModuleType) or (a.startswith("__") and a != "__version__"):
                continue
            same = True
            home = getattr(v, "__module__", None)
            if isinstance(v, type) and (home or "").split(".")[0] in ("fcsql", "antlr4") and home in sys.modules:
                same = getattr(sys.modules[home], v.__qualname__.split(".")[0], None) is v or "." in v.__qualname__
            out.append("%s.%s:%s%s" % (n, a, type(v).__name__, "" if same else " NOT THE SAME CLASS AS IN " + str(home)))
    return out


def run_import(scen, src):
    global TEAR
    gc.disable()
    sys.setrecursionlimit(20000)
    t = TEAR = Tearer(src)
    if scen.get("source"):
        # no byte code: every module is compiled from source
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent"
    res = {"ops": {}, "viol": [], "gen": [], "stats": {}, "events": 0, "switches": 0, "vt": 0.0, "ctx": [], "errs_seen": [], "dead": False, "fl": []}
    fl = []
    for n, a in enumerate(scen["attempts"]):
        r = attempt(t, a)
        res["events"] += t.n
        if r["fired"]:
            k = "fault:%s" % r["fired"][0] + ("@read" if r["fired"][1][0] == "read" else "@stack" if r["fired"][1][0] == "stack" else "")
            res["stats"][k] = res["stats"].get(k, 0) + 1
            fl.append(r["fired"])
        elif not r["ok"]:
            res["viol"].append({"kind": "import-fails", "op": None, "detail": "attempt %d (import %s) after %s fails: %s" % (n, a["entry"], json.dumps(fl), r["exc"])})
    if not res["viol"]:
        r = attempt(t, {"entry": ["fcsql", "fcsql.parser", "fcsql.validation"]})
        res["events"] += t.n
        if not r["ok"]:
            res["viol"].append({"kind": "import-fails", "op": None, "detail": "import after %s fails: %s" % (json.dumps(fl), r["exc"])})
    TEAR = None
    res["stats"]["interruptions"] = len(fl)
    if not res["viol"]:
        res["api"] = public_api()
        from . import api

        env = api.Env()
        for ph in scen["phases"]:
            for th in ph["threads"]:
                for op in th:
                    o = api.finish(op["call"], api.run_call(op["call"], env))
                    res["ops"][str(op["id"])] = {"r": o.r, "errs": o.errs}
    import zlib

    res["fl"] = [zlib.crc32(repr(f).encode()) for f in fl]
    res["faults"] = fl
    res["trace"] = hashlib.sha1(json.dumps([fl, res["ops"], res["viol"]], sort_keys=True).encode()).hexdigest()[:16]
    return res


def run_profile(entry, src):
    global TEAR
    gc.disable()
    t = TEAR = Tearer(src)
    t.profile = {}
    n = 0
    with t:
        for m in entry:
            __import__(m)
    n = t.n
    io = t.profile.pop("io", 0)
    return {"L": sorted([list(k), c] for k, c in t.profile.items()), "io": io, "n": n}


class ImportZygote(Zygote):
    def __init__(self, src):
        Zygote.__init__(self)
        self.src = src
        self._api = None

    def api(self):
        if self._api is None:
            r = self.fork(lambda: run_import({"attempts": [], "phases": []}, self.src), timeout=120)
            if "api" not in r:
                raise Harness("clean import: %s" % (r,))
            self._api = r["api"]
        return self._api

    def import_profile(self, entry):
        key = "imp" + json.dumps(entry)
        p = self.prof.get(key)
        if p is None:
            p = self.load("p", key)
            if p is not None:
                self.prof[key] = p
        if p is None:
            p = self.fork(lambda: run_profile(entry, self.src), timeout=120)
            if "L" not in p:
                raise Harness("import profile: %s" % (p,))
            self.prof[key] = p
            self.save("p", key, p)
        return p

    def run(self, scen, timeout=60.0):
        r = self.fork(lambda: run_import(scen, self.src), timeout)
        if r.get("hang"):
            r = self.fork(lambda: run_import(scen, self.src), 180.0)
        empty = {"ops": {}, "gen": [], "stats": {}, "events": 0, "switches": 0, "vt": 0.0, "ctx": [], "errs_seen": [], "dead": True, "fl": [], "trace": "dead"}
        if r.get("hang"):
            return dict(empty, viol=[{"kind": "import-hangs", "detail": "the import does not finish", "op": None}])
        if "died" in r:
            return dict(empty, viol=[{"kind": "process-died", "detail": "wait status %s" % r["died"], "op": None}])
        if "ops" not in r:
            raise Harness("run: %s" % (r,))
        return r


def boot(repo):
    import warnings

    seams.install()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    src = os.path.realpath(os.path.join(repo, "src"))
    from .zygote import ForkRunner
    from . import engine  # noqa

    def learn():
        import fcsql
        from . import api, sim  # noqa

        return {"f": os.path.realpath(fcsql.__file__), "mods": sorted(n for n in sys.modules if n.split(".")[0] not in ("fcsql", "antlr4", "dst", "__main__"))}

    r = ForkRunner()(learn, timeout=120)
    if "mods" not in r:
        raise Harness("import: %s" % (r,))
    if os.path.dirname(os.path.dirname(r["f"])) != src:
        raise Harness("fcsql imported from %s, not %s" % (r["f"], src))
    for n in r["mods"]:
        try:
            __import__(n)
        except Exception:
            pass
    for n in list(sys.modules):
        if n.split(".")[0] in ("fcsql", "antlr4"):
            raise Harness("the zygote must not import the library")
    install_reader()
    gc.collect()
    gc.freeze()
    return ImportZygote(src)
