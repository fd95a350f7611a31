"""A process that was never forked: `python -m dst.fresh '<repo>'` imports the library, answers the calls given on
stdin one after another and prints the outcomes.  Everything else here runs in forks of an importing process."""
import gc
import json
import os
import subprocess
import sys


def ask(repo, calls, timeout):
    """outcomes of the calls, None when the process does not answer in time"""
    p = subprocess.Popen([sys.executable, "-m", "dst.fresh", repo], stdin=subprocess.PIPE, stdout=subprocess.PIPE, start_new_session=True)
    try:
        out, _ = p.communicate(json.dumps(calls).encode("utf-8", "surrogatepass"), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    try:
        return json.loads(out.decode("utf-8", "surrogatepass"))
    except ValueError:
        return {"died": p.returncode}


def main():
    out = os.dup(1)
    nul = os.open(os.devnull, os.O_RDWR)
    os.dup2(nul, 1)
    calls = json.loads(sys.stdin.buffer.read().decode("utf-8", "surrogatepass"))
    from . import zygote

    zygote.boot(sys.argv[1])
    from . import api

    sys.setrecursionlimit(60000)
    gc.disable()
    res = []
    for c in calls:
        o = api.finish(c, api.run_call(c, api.Env()))
        res.append([o.r, o.errs])
        o = None
    with os.fdopen(out, "wb") as f:
        f.write(json.dumps(res).encode("utf-8", "surrogatepass"))
    os._exit(0)


if __name__ == "__main__":
    main()
