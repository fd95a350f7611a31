"""Replica server: a cold interpreter with its own settings, forked for every replica incarnation.

`python [-O] -m dst.replica '<json cfg>'`, JSON lines on stdin/stdout:
  {"c": "start", "id": n}            fork incarnation n
  {"c": "req", "id": n, "call": ...} let it serve one request -> {"r":..., "errs":...} or {"crashed": true}
  {"c": "kill", "id": n}             crash it
"""
import gc
import json
import os
import signal
import sys


def serve(rfd, wfd, cfg):
    from . import api, engine, goods, seams, sim  # noqa

    clock = [0, 0]

    sys.setrecursionlimit(60000)
    mode = cfg.get("gc")
    if mode == "off":
        gc.disable()
    elif mode == "always":
        gc.enable()
        gc.set_threshold(7, 2, 2)
    else:
        gc.enable()
    if cfg.get("cwd"):
        os.chdir(cfg["cwd"])
    if cfg.get("freeze"):
        gc.freeze()
    rf = os.fdopen(rfd, "rb")
    env = api.Env()
    for line in rf:
        m = json.loads(line)
        call = m["call"]
        if m.get("clock"):
            c = m["clock"]
            seams.offset[0] += c[0] - clock[0]
            seams.offset[1] += c[1] - clock[1]
            clock = c
        if m.get("pack") or m.get("unpack"):
            rec = goods.pack(call, m["pack"], env) if m.get("pack") else goods.unpack(call, m["unpack"])
            data = (json.dumps(rec) + "\n").encode("utf-8", "surrogatepass")
            while data:
                data = data[os.write(wfd, data):]
            continue
        if m.get("crash"):
            crash_in(call, m["crash"])
        elif m.get("acts"):
            o = slowly(call, m["acts"], env)
        else:
            o = api.finish(call, api.run_call(call, env))
        if m.get("crash"):
            rec = {"r": None, "survived": True}
        else:
            rec = {"r": o["r"], "errs": o["errs"]} if m.get("acts") else {"r": o.r, "errs": o.errs}
        o = None
        data = (json.dumps(rec) + "\n").encode("utf-8", "surrogatepass")
        while data:
            data = data[os.write(wfd, data):]
    os._exit(0)


def crash_in(call, act):
    """the process dies at one point of the call"""
    from . import sim

    scen = {"phases": [{"threads": [[{"id": 0, "call": call, "acts": [dict(act, do=["exit"])]}]]}], "env": {}, "watch": {"set": "locs"}, "policy": None}
    sim.Run(scen).run()


def slowly(call, acts, env):
    """the machine stalls, or its wall clock is set, in the middle of the request"""
    from . import sim

    gcs = gc.isenabled(), gc.get_threshold()
    run = sim.Run({"phases": [{"threads": [[{"id": 0, "call": call, "acts": acts}]]}], "env": {}, "watch": {"set": "locs"}, "policy": None})
    run.env = env
    rec = run.run()["ops"][0]
    if gcs[0]:
        gc.enable()
    gc.set_threshold(*gcs[1])
    return rec


def main():
    cfg = json.loads(sys.argv[1])
    out = os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 1)
    inp = os.fdopen(os.dup(0), "rb")
    os.dup2(nul, 0)

    def emit(o):
        data = (json.dumps(o) + "\n").encode()
        while data:
            data = data[os.write(out, data):]

    from . import zygote

    zygote.boot(cfg["repo"])
    emit({"ready": True, "flags": [sys.flags.optimize, sys.flags.hash_randomization, __debug__]})
    live = {}
    for line in inp:
        m = json.loads(line)
        c = m["c"]
        if c == "start":
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            gc.freeze()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(w1)
                    os.close(r2)
                    serve(r1, w2, cfg)
                except BaseException:
                    import traceback

                    os.write(w2, (json.dumps({"harness": traceback.format_exc()[-3000:]}) + "\n").encode())
                os._exit(3)
            os.close(r1)
            os.close(w2)
            live[m["id"]] = (pid, w1, os.fdopen(r2, "rb"))
            emit({"ok": 1})
        elif c == "req":
            pid, w, r = live[m["id"]]
            data = (json.dumps(m) + "\n").encode()
            while data:
                data = data[os.write(w, data):]
            line = r.readline()
            if line:
                emit(json.loads(line))
            else:
                stop(live.pop(m["id"]))
                emit({"crashed": True})
        elif c == "kill":
            if m["id"] in live:
                stop(live.pop(m["id"]))
            emit({"ok": 1})
        elif c == "reset":
            for k in list(live):
                stop(live.pop(k))
            emit({"ok": 1})


def stop(t):
    pid, w, r = t
    try:
        os.kill(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.close(w)
    r.close()
    os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
