"""Applications that extend the library: validator and visitor classes of their own (C27)."""
import gc

from . import api

P, V = api.P, api.V
METHODS = [n for n in dir(P.QueryVisitorAdapter) if n.startswith("visit_")]


def _method(base, name, action, tag):
    """what the application does in one of its visit methods"""
    inherited = getattr(base, name, None)

    def go_on(self, node):
        return inherited(self, node) if inherited is not None else self.visitChildren(node)

    if action == "warn":
        def m(self, node):
            self.validation_warning(node, "%s: %s below %s" % (tag, name, type(self.parent_node).__name__))
            return go_on(self, node)
    elif action == "err":
        def m(self, node):
            self.validation_error(node, "%s: %s below %s" % (tag, name, type(self.parent_node).__name__))
            return go_on(self, node)
    elif action == "skip":
        def m(self, node):
            self.seen.append("%s skips %s" % (tag, name))
    elif action == "raise":
        def m(self, node):
            raise api.CallbackError(tag)
    elif action == "value":
        def m(self, node):
            go_on(self, node)
            return "%s(%s)" % (tag, name)
    else:
        def m(self, node):
            self.seen.append("%s %s" % (tag, name))
            return go_on(self, node)
    m.__name__ = name
    return m


def make_class(spec):
    """a class an application defines; all of them have the same name"""
    tag = spec["tag"]
    base = {"fcsql": V.FCSQLValidator, "validator": V.Validator, "adapter": P.QueryVisitorAdapter, "visitor": P.QueryVisitor}[spec["base"]]
    d = {"__module__": "app", "__qualname__": "Custom"}
    if spec.get("version"):
        d["SPECIFICATION_VERSION"] = spec["version"]

    def init(self, **kw):
        base.__init__(self, **kw)
        self.seen = []
        self.more = spec.get("limit")

    d["__init__"] = init
    for name, action in spec.get("over", ()):
        d[METHODS[name % len(METHODS)]] = _method(base, METHODS[name % len(METHODS)], action, tag)
    if spec.get("sum"):
        d["defaultResult"] = lambda self: tag
        d["aggregateResult"] = lambda self, a, b: "%s+%s" % (a, b)
    if spec.get("limit"):
        def enough(self, node, result):
            self.more -= 1
            return self.more >= 0

        d["shouldVisitNextChild"] = enough
    if spec.get("middle"):
        # one more class in between
        base = type("Custom", (base,), {"__module__": "app", "__qualname__": "Custom"})
        init_base = base

        def init2(self, **kw):
            init_base.__init__(self, **kw)
            self.seen = []
            self.more = spec.get("limit")

        d["__init__"] = init2
    return type("Custom", (base,), d)


def the_class(c, env):
    cls = env.ext.get(c.get("cid"))
    if cls is None:
        cls = env.ext[c.get("cid")] = make_class(c["spec"])
    return cls


def run(c, env, o):
    env.pause()
    try:
        if c.get("drop"):
            # what was defined so far is gone
            for ver, cls in list(V.VALIDATORS.items()):
                if ver in env.extver:
                    del V.VALIDATORS[ver]
            env.extver.clear()
            env.ext.clear()
            env.extobj.clear()
            gc.collect()
        cls = the_class(c, env) if c.get("spec") else None
        what = c["what"]
        if what == "define":
            return "defined"
        if what == "validate":
            try:
                if cls is not None:
                    env.extver.add(c["ver"])
                    if V.VALIDATORS.get(c["ver"]) is not cls:
                        V.VALIDATORS[c["ver"]] = cls
                else:
                    V.VALIDATORS.pop(c["ver"], None)
            except (TypeError, AttributeError):
                return "the table cannot be extended"
        else:
            tree = api.get_tree(c, env)
            v = env.extobj.get((c.get("cid"), c.get("obj")))
            attrs = dict(c.get("attrs") or {})
            if attrs.get("allowed_layer_qualifiers"):
                attrs["allowed_layer_qualifiers"] = [tuple(x) for x in attrs["allowed_layer_qualifiers"]]
            if v is None:
                v = cls(**attrs)
            else:
                for k, x in attrs.items():
                    setattr(v, k, x)
            if c.get("obj") is not None:
                env.extobj[c.get("cid"), c["obj"]] = v
            v.seen, v.more = [], c["spec"].get("limit")
    finally:
        env.unpause()
    if what == "validate":
        kw = {}
        if c.get("re"):
            kw["return_errors"] = True
        if c.get("wae"):
            kw["warnings_as_errors"] = True
        r = api.fcsql.validate(c["q"], version=c["ver"], **kw)
        return r if isinstance(r, bool) else "list: " + api.canon_errors(r)
    try:
        if what == "visit":
            return v.visit(tree) if c.get("how") != "accept" else tree.accept(v)
        return v.is_valid(tree, query=c["q"]) if c.get("how") == "is_valid" else v.validate(tree, query=c["q"])
    finally:
        o.errs = (list(getattr(v, "errors", ())), list(getattr(v, "warnings", ())), list(v.seen))
