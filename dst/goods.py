"""Results that are copied, or sent from one process to another (C18)."""
import base64
import copy
import json
import os
import pickle
import random
import re
import sys

CAUSE = re.compile(r" <- [\w.]+(?= fragment=|$)")


def dumps(goods, how):
    if how < 0:
        return pickle._dumps(goods, -how)     # (the pickler written in Python)
    return pickle.dumps(goods, how)


def make(call, env):
    """a call and everything that was handed out by it"""
    from . import api

    o = api.run_call(call, env)
    return {"val": o.val, "exc": o.exc, "errs": o.errs if isinstance(o.errs, tuple) else None, "tree": o.extra if call["k"] == "vval" and o.exc is None else None}


def tree_of(goods):
    from . import api

    for x in (goods["val"], goods["tree"], getattr(goods["exc"], "node", None)):
        if isinstance(x, api.P.QueryNode):
            return x
    return None


def root_of(n):
    for _ in range(100000):
        if n.parent is None:
            break
        n = n.parent
    return n


def form(call, goods):
    """all that can be observed about it"""
    from . import api

    o = api.Outcome()
    o.val, o.exc, o.errs = goods["val"], goods["exc"], goods["errs"]
    api.finish(call, o)
    # (what caused an exception does not travel: pickle drops it)
    out = [CAUSE.sub("", str(o.r)), o.errs]
    e = goods["exc"]
    if e is not None:
        out.append([api.exc_name(e), api.HEX.sub("0x?", repr(e.args)), getattr(e, "__notes__", None), sorted(getattr(e, "__dict__", ())), repr(getattr(e, "query_fragment", None))])
    t = tree_of(goods)
    if t is not None:
        top = root_of(t)
        ns = api.nodes_of(top)
        out.append([api.canon_node(top), [i for i, n in enumerate(ns) if n is t], [said(api.peek, n) for n in ns[:40]], said(str, t)])
    if goods["val"] is not None and goods["tree"] is None and t is None:
        out.append([type(goods["val"]).__name__])
    return json.loads(json.dumps(out))


def said(f, n):
    from . import api

    try:
        return f(n)
    except Exception as e:      # (an edited tree may be one that cannot be shown)
        return "%s: %s" % (api.exc_name(e), e)


def works(call, goods, work):
    from . import api

    t = tree_of(goods)
    if t is None:
        return []
    env = api.Env()
    env.trees["x"] = t
    out = []
    for c in work:
        c = dict(c, tree="x")
        o = api.finish(c, api.run_call(c, env))
        out.append([CAUSE.sub("", str(o.r)), o.errs])
    return json.loads(json.dumps(out))


def spoil(goods, seed):
    from . import api, sim

    rng = random.Random(seed)
    t = tree_of(goods)
    if t is not None:
        sim.mutate("tree", root_of(t), rng)
    for x in (goods["val"],) + (goods["errs"] or ()):
        if isinstance(x, list):
            sim.mutate("errs", x, rng)
    if goods["exc"] is not None:
        sim.mutate("exc", goods["exc"], rng)


def owner(tree, seed):
    """what the owner of a tree may set"""
    from . import api

    rng = random.Random(seed)
    api.edit_tree(tree, seed)
    odd = [("regex", ["", "\ud800", "x" * 300, "\0"]), ("identifier", ["", "TEXT"]), ("qualifier", ["", None, "q"]), ("regex_flags", [set(), None, set(api.P.RegexFlag)]), ("min_occurs", [0, 1, 2 ** 70]),
           ("max_occurs", [0, 1, -1, 2 ** 70]), ("children", [[]]), ("location", [None, api.P.SourceLocation(0, 0), api.P.SourceLocation(2 ** 40, 2 ** 40)])]
    for n in api.nodes_of(tree):
        for k, vs in odd:
            if hasattr(n, k) and rng.random() < (0.15 if k != "children" else 0.05):
                v = rng.choice(vs)
                setattr(n, k, set(v) if isinstance(v, set) else list(v) if isinstance(v, list) else v)


def refused(e):
    if isinstance(e, RecursionError):
        return {"toodeep": True}
    from . import api

    return {"refused": "%s: %s" % (api.exc_name(e), api.HEX.sub("0x?", str(e))[:500])}


def pack(call, m, env):
    goods = make(call, env)
    if m.get("edit") is not None and tree_of(goods) is not None:
        owner(root_of(tree_of(goods)), m["edit"])
    out = {"form": form(call, goods)}
    try:
        if m.get("twin") is not None:
            twin = copy.deepcopy(goods)
            out["twin"] = form(call, twin)
            out["twinworks"] = works(call, twin, m["work"])
            spoil(twin, m["twin"])
        out["payload"] = base64.b64encode(dumps(goods, m["how"])).decode()
    except Exception as e:
        return refused(e)
    out["after"] = form(call, goods)
    out["works"] = works(call, goods, m["work"])
    return out


def unpack(call, m):
    data = base64.b64decode(m["payload"])
    try:
        goods = pickle.loads(data)
        out = {"form": form(call, goods), "works": works(call, goods, m["work"])}
        out["after"] = form(call, goods)
        try:
            out["payload"] = base64.b64encode(dumps(goods, m["how"])).decode()
        except RecursionError:
            pass
        spoil(goods, m["seed"])
        goods = None
        out["again"] = form(call, pickle.loads(data))
    except Exception as e:
        return refused(e)
    return out


def main():
    """a process that learns about the library only from what it is sent"""
    sys.path.insert(0, os.path.join(sys.argv[1], "src"))
    sys.setrecursionlimit(60000)
    m = json.load(sys.stdin)
    try:
        pickle.loads(base64.b64decode(m["payload"]))
        r = None
    except Exception as e:
        r = refused(e)
    print(json.dumps(r or unpack(m["call"], m)))


if __name__ == "__main__":
    main()
