"""The library's public operations as data ('calls'), and canonical forms of their outcomes."""
import copy
import hashlib
import io
import pickle
import random
import re
import sys

import antlr4
import fcsql
import fcsql.parser as P
import fcsql.validation as V
from antlr4.error.ErrorListener import ErrorListener as AntlrErrorListener

from . import gen

QUERY_PARSER_PARSE = P.QueryParser.parse
HEX = re.compile(r"0x[0-9a-fA-F]+")

ATTRS = ("qualifier", "identifier", "operator", "regex", "min_occurs", "max_occurs", "scope")


def canon_loc(l):
    if l is None:
        return None
    if isinstance(l, P.SourceLocation):
        return "%s:%s" % (l.start, l.stop)
    return repr(l)


def canon_node(node):
    """flat, iterative canonical form of a tree (class, type, attributes, location, structure, parent links)"""
    out = []
    todo = [(node, None, 0)]
    while todo:
        n, parent, d = todo.pop()
        if not isinstance(n, P.QueryNode):
            out.append("%d:!%r" % (d, n))
            continue
        a = []
        for k in ATTRS:
            v = getattr(n, k, None)
            if v is not None:
                a.append("%s=%s" % (k, v.name if hasattr(v, "name") else repr(v)))
        fl = getattr(n, "regex_flags", None)
        if fl is not None:
            a.append("flags=" + ",".join(sorted(f.name for f in fl)))
        link = "" if (n.parent is parent) else "!parent"
        out.append("%d:%s/%s[%s]@%s%s" % (d, type(n).__name__, getattr(n.node_type, "name", n.node_type), ";".join(a), canon_loc(n.location), link))
        for c in reversed(list(n.children or ())):
            todo.append((c, n, d + 1))
    return "\n".join(out)


def canon_errors(errs):
    out = []
    for e in errs:
        if isinstance(e, P.ErrorDetail):
            out.append("%s|%s|%s|%r" % (e.type, canon_loc(e.position), HEX.sub("0x?", str(e.message)), e.fragment))
        else:
            out.append("?" + HEX.sub("0x?", repr(e)))
    return "; ".join(out)


def exc_name(e):
    return type(e).__module__ + "." + type(e).__qualname__


def canon_exc(e):
    s = "raise %s: %s" % (exc_name(e), HEX.sub("0x?", str(e)))
    if e.__cause__ is not None:
        s += " <- %s" % exc_name(e.__cause__)
    if isinstance(e, V.SpecificationValidationError):
        s += " fragment=%r node=%s" % (e.query_fragment, canon_node(e.node).split("\n")[0].replace("!parent", ""))
    return s


def canon_antlr(tree):
    out = []
    todo = [(tree, 0)]
    while todo:
        t, d = todo.pop()
        if isinstance(t, antlr4.TerminalNode):
            s = t.symbol
            out.append("%d'%s' %s %s-%s" % (d, s.text, s.type, s.start, s.stop))
        else:
            out.append("%d<%s> %s" % (d, type(t).__name__, t.exception is not None))
            for c in reversed(list(t.children or ())):
                todo.append((c, d + 1))
    return "\n".join(out)


class CountingListener(AntlrErrorListener):
    def __init__(self):
        super().__init__()
        self.msgs = []

    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
        self.msgs.append("%s:%s %s" % (line, column, msg))


class CallbackError(Exception):
    """raised by user callbacks"""


class ProbeValidator(V.FCSQLValidator):
    """user-written validator: looks at its ancestors and may raise, or call the library, in a callback"""

    def __init__(self, *, raise_at=None, callback=None, exc=None, **kw):
        super().__init__(**kw)
        self.seen = []
        self.raise_at = raise_at
        self.callback = callback
        self.exc = exc
        self.count = 0
        self.tree_ids = None
        self.root = None

    def _look(self, node):
        self.count += 1
        p = self.parent_node
        self.seen.append("%s<-%s" % (type(node).__name__, type(p).__name__ if p is not None else "-"))
        if self.tree_ids is not None:
            if p is not None and id(p) not in self.tree_ids:
                self.seen.append("FOREIGN-PARENT")
            if id(node) == self.root and p is not None:
                self.seen.append("PARENT-AT-ROOT")
        if self.callback is not None:
            self.callback(node)
        if self.raise_at is not None and self.count == self.raise_at:
            if self.exc is not None:
                raise self.exc
            raise CallbackError("callback")


def _mk(name):
    base = getattr(V.FCSQLValidator, name)

    def m(self, node):
        self._look(node)
        return base(self, node)

    m.__name__ = name
    return m


for _n in dir(V.FCSQLValidator):
    if _n.startswith("visit_"):
        setattr(ProbeValidator, _n, _mk(_n))


class ExtValidator(V.FCSQLValidator):
    """an application's own specification version, registered next to the library's"""

    SPECIFICATION_VERSION = "x.1"
    KNOWN_LAYER_IDENTIFIERS = list(getattr(V.FCSQLValidator, "KNOWN_LAYER_IDENTIFIERS", ())) + ["foo", "word", "l"]

    def visit_ExpressionWildcard(self, node):
        self.validation_warning(node, "wildcard below %s" % type(self.parent_node).__name__)
        return super().visit_ExpressionWildcard(node)

    def visit_SimpleWithin(self, node):
        self.validation_error(node, "within below %s" % type(self.parent_node).__name__)
        return super().visit_SimpleWithin(node)


try:
    V.VALIDATORS["x.1"] = ExtValidator
except TypeError:
    pass    # (a table that cannot be extended)

PEEKS = [("has_node_type", (P.QueryNodeType.EXPRESSION,)), ("get_child", (0,)), ("get_child", (0, P.QuerySegment)), ("get_first_child", ()), ("get_last_child", ()),
         ("get_first_child", (P.Expression,)), ("has_layer_identifier", ("text",)), ("is_layer_qualifier_empty", ()), ("has_layer_qualifier", ("ud17",)),
         ("has_operator", (P.Operator.EQUALS,)), ("is_regex_flags_empty", ()), ("has_regex_flag", (P.RegexFlag.CASE_INSENSITIVE,))]


def peek(n):
    """what the accessors of a node say"""
    out = [type(n).__name__, str(n.child_count)]
    for name, args in PEEKS:
        if hasattr(n, name):
            r = getattr(n, name)(*args)
            out.append(type(r).__name__ + canon_loc(r.location) if isinstance(r, P.QueryNode) and r.location is not None else type(r).__name__ if isinstance(r, P.QueryNode) else repr(r))
    if hasattr(n, "operands"):
        out.append(str(len(n.operands)))
    return " ".join(out)


class CollectVisitor(P.QueryVisitorAdapter):
    """user-written visitor: aggregates, may stop early, may raise"""

    def __init__(self, stop_at=None, raise_at=None, callback=None, exc=None, peek=False):
        self.peek = peek
        self.count = 0
        self.stop_at = stop_at
        self.raise_at = raise_at
        self.callback = callback
        self.exc = exc
        self.log = []

    def defaultResult(self):
        return ()

    def aggregateResult(self, aggregate, nextResult):
        return (aggregate or ()) + (nextResult or ())

    def shouldVisitNextChild(self, node, currentResult):
        return self.stop_at is None or self.count < self.stop_at

    def visitChildren(self, node):
        self.count += 1
        self.log.append(peek(node) if self.peek else type(node).__name__)
        if self.callback is not None:
            self.callback(node)
        if self.raise_at is not None and self.count == self.raise_at:
            if self.exc is not None:
                raise self.exc
            raise CallbackError("callback")
        r = super().visitChildren(node)
        return (type(node).__name__,) + (r or ())


class CollectListener(fcsql.FCSParserListener):
    def __init__(self):
        self.names = []

    def enterExpression_basic(self, ctx):
        self.names.append(ctx.getText())

    def exitQuery_simple(self, ctx):
        self.names.append("/" + ctx.getText())


OPTS = {"default_identifier": "text", "default_operator": "EQUALS", "unicode_normalization_form": "NFC", "enableSourceLocations": False}


def popts(opts):
    d = dict(opts or {})
    if "default_operator" in d:
        d["default_operator"] = P.Operator[d["default_operator"]]
    return d


def vopts(o):
    d = dict(o or {})
    q = d.get("allowed_layer_qualifiers")
    if q is not None:
        d["allowed_layer_qualifiers"] = [(a, b) for a, b in q]
    return d


class Env:
    """the objects of one simulated process"""

    def __init__(self):
        self.parsers = {}
        self.settings = {}      # slot -> the settings the caller gave the parser
        self.validators = {}
        self.vsettings = {}     # slot -> how the caller wants violations treated
        self.trees = {}
        self.kept = []
        self.keep = False
        self.ext = {}           # classes the application defines (C27)
        self.extver = set()
        self.extobj = {}
        self.fresh = False        # every call is made with a text of its own, gone afterwards
        self.callback = None      # called from user callbacks (nesting)
        self.parse_raised = None  # list collecting whether QueryParser.parse raised during the op
        self.nested = []
        self.pause = self.unpause = lambda: None

    def parser(self, slot, opts):
        p = self.parsers.get(slot)
        full = dict(OPTS)
        full.update(opts or {})
        full = popts(full)
        if p is None:
            p = P.QueryParser(**popts(opts))
            if slot is not None:
                self.parsers[slot] = p
                self.settings[slot] = full
        else:
            # the caller sets what it wants changed, and nothing else
            old = self.settings[slot]
            self.settings[slot] = full
            for k, v in full.items():
                if old[k] != v:
                    setattr(p, k, v)
        return p

    def validator(self, slot, o, custom, call):
        v = self.validators.get(slot)
        want = {k: (o or {}).get(k, d) for k, d in (("raise_at_first_violation", True), ("warnings_as_errors", False))}
        if v is not None:
            # as for parsers: the caller sets what it wants changed, and nothing else
            old, self.vsettings[slot] = self.vsettings[slot], want
            for k, x in want.items():
                if old[k] != x:
                    setattr(v, k, x)
        else:
            kw = vopts(o)
            if call.get("prevq") is not None:
                kw["query"] = call["prevq"]
            v = (ProbeValidator if custom else V.FCSQLValidator)(**kw)
            if slot is not None:
                self.validators[slot] = v
                self.vsettings[slot] = want
        return v


class Outcome:
    __slots__ = ("r", "errs", "exc", "val", "extra", "expect", "cbraised")

    def __init__(self):
        self.r = None      # canonical result or exception
        self.errs = None   # canonical error lists afterwards
        self.exc = None
        self.val = None
        self.extra = None
        self.expect = None
        self.cbraised = None

    def key(self):
        return [self.r, self.errs]


def tree_ids(node):
    ids = set()
    todo = [node]
    while todo:
        n = todo.pop()
        ids.add(id(n))
        todo.extend(n.children)
    return ids


def run_call(call, env, arg=None):
    """execute one call; never raises"""
    o = Outcome()
    k = call["k"]
    if env.fresh and "q" in call:
        call = dict(call, q=env.fresh(call["q"]) if callable(env.fresh) else "".join(list(call["q"])))
    try:
        o.val = _KINDS[k](call, env, o)
    except BaseException as e:
        o.exc = e
    return o


def finish(call, o):
    try:
        return _finish(call, o)
    except Exception as e:      # an outcome of an unknown shape is an outcome too
        o.r = "uncanonical: %s %r" % (e, type(o.val))
        o.errs = None
        return o


def _finish(call, o):
    """canonicalise (done after the simulated call, outside the fault window)"""
    k = call["k"]
    if o.exc is not None:
        o.r = canon_exc(o.exc)
    elif k in ("parse", "pparse"):
        o.r = canon_node(o.val)
    elif k in ("antlr",):
        o.r = canon_antlr(o.val)
    elif k == "validate":
        v = o.val
        o.r = repr(v) if isinstance(v, bool) else ("list: " + canon_errors(v) if isinstance(v, list) else "?%r" % (v,))
    else:
        o.r = repr(o.val)
    if isinstance(o.errs, tuple):
        o.errs = " / ".join(canon_errors(x) if isinstance(x, (list, tuple)) else repr(x) for x in o.errs)
    return o


def k_parse(c, env, o):
    if c.get("loc", True):
        return fcsql.parse(c["q"])
    return fcsql.parse(c["q"], enableSourceLocations=False)


def k_can(c, env, o):
    return fcsql.can_parse(c["q"])


def k_validate(c, env, o):
    kw = {}
    if "ver" in c:
        kw["version"] = c["ver"]
    if c.get("re"):
        kw["return_errors"] = True
    if c.get("wae"):
        kw["warnings_as_errors"] = True
    return fcsql.validate(c["q"], **kw)


def k_antlr(c, env, o):
    return fcsql.antlr_parse(c["q"])


def k_raw(c, env, o):
    lexer = fcsql.FCSLexer(antlr4.InputStream(c["q"]))
    parser = fcsql.FCSParser(antlr4.CommonTokenStream(lexer))
    el = CountingListener()
    lexer.removeErrorListeners()
    parser.removeErrorListeners()
    lexer.addErrorListener(el)
    parser.addErrorListener(el)
    tree = parser.query()
    l = CollectListener()
    antlr4.ParseTreeWalker.DEFAULT.walk(l, tree)
    o.extra = None
    return (tuple(el.msgs), tuple(l.names), tree.toStringTree(fcsql.FCSParser.ruleNames))


def k_pparse(c, env, o):
    p = env.parser(c.get("slot"), c.get("opts"))
    try:
        return p.parse(c["q"])
    finally:
        if not c.get("shared"):
            o.errs = (p.errors,)


def nodes_of(tree):
    out = []
    todo = [tree]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.children)
    return out


def edit_tree(tree, seed):
    """what the owner of a tree may do to it between two uses"""
    rng = random.Random(seed)
    n = 0
    for x in nodes_of(tree):
        if rng.random() < 0.3 and isinstance(getattr(x, "regex_flags", None), set):
            x.regex_flags.add(P.RegexFlag.CASE_SENSITIVE)
            n += 1
        if rng.random() < 0.3 and hasattr(x, "regex"):
            x.regex = "edited"
            x.identifier = rng.choice(["word", "text", "pos", "nolayer"])
            n += 1
        if rng.random() < 0.3 and hasattr(x, "min_occurs"):
            x.min_occurs = rng.choice([0, 3, 77])
            n += 1
        if rng.random() < 0.2:
            x.location = None
            n += 1
        if rng.random() < 0.2 and isinstance(x.children, list) and len(x.children) > 1:
            x.children.pop(rng.randrange(len(x.children)))
            n += 1
        if rng.random() < 0.1:
            # (nobody has to keep the link to the parent up to date)
            x.parent = None
            n += 1
        if rng.random() < 0.1 and isinstance(x.children, list) and x.children:
            y = rng.choice([lambda: P.Expression(None, rng.choice(["text", "nolayer"]), P.Operator.EQUALS, "new", {P.RegexFlag.IGNORE_DIACRITICS}),
                            P.ExpressionWildcard, lambda: P.SimpleWithin(P.SimpleWithinScope.TURN), lambda: x.children[0]])()
            x.children.insert(rng.randrange(len(x.children) + 1), y)
            n += 1
        if rng.random() < 0.05 and isinstance(x.children, list):
            x.children = x.children[::-1]
            n += 1
    return n


def build_tree(spec):
    """a tree as a caller has it: parsed, perhaps with locations dropped from some nodes, perhaps edited"""
    t = P.QueryParser(enableSourceLocations=spec.get("loc", True)).parse(spec["q"])
    if spec.get("holes") is not None:
        rng = random.Random(spec["holes"])
        p = rng.choice([0.15, 0.5, 0.85])
        for x in nodes_of(t):
            if rng.random() < p:
                x.location = None
    for seed in spec.get("edits") or ():
        edit_tree(t, seed)
    return t


def get_tree(c, env):
    """the tree to work on: a shared one, or one parsed for this call (outside the fault window)"""
    if c.get("tree") is not None:
        return env.trees[c["tree"]]
    env.pause()
    try:
        return build_tree(c)
    finally:
        env.unpause()


def part_of(tree, c):
    """the tree, or a part of it"""
    if not c.get("part"):
        return tree
    ns = nodes_of(tree)
    return ns[c["part"] % len(ns)]


def k_vval(c, env, o):
    """validate a tree with a validator object"""
    node = part_of(get_tree(c, env), c)
    ids = tree_ids(node)
    v = env.validator(c.get("slot"), c.get("vopts"), c.get("custom"), c)
    if c.get("custom"):
        v.seen = []
        v.count = 0
        v.raise_at = c.get("raise_at")
        v.exc = None
        if c.get("raise_exc"):
            from . import engine

            v.exc = o.expect = engine.make_exc(c["raise_exc"])
        v.callback = env.callback if c.get("cb") else None
        v.tree_ids = ids
        v.root = id(node)
    kw = {}
    if c.get("passq", True):
        kw["query"] = c["q"]
    try:
        if c.get("how") == "is_valid":
            r = v.is_valid(node, **kw)
        else:
            r = v.validate(node, **kw)
        return r
    finally:
        if c.get("custom") and c.get("raise_at"):
            o.cbraised = v.count >= c["raise_at"]
        o.errs = (v.errors, v.warnings) + ((list(v.seen),) if c.get("custom") else ())
        o.extra = node


def k_render(c, env, o):
    node = part_of(get_tree(c, env), c)
    return str(node)


def k_copy(c, env, o):
    """copy a tree"""
    node = part_of(get_tree(c, env), c)
    if c.get("how") == "deepcopy":
        x = copy.deepcopy(node)
    elif c.get("how") == "pickle":
        x = pickle.loads(pickle.dumps(node, c.get("proto", 4)))
    else:
        x = pickle._loads(pickle._dumps(node, c.get("proto", 4)))
    o.val = x
    env.pause()
    try:
        a, b = canon_node(x), canon_node(node)
        return a if a == b else "COPY DIFFERS: %s / %s" % (a, b)
    finally:
        env.unpause()


def k_visit(c, env, o):
    node = part_of(get_tree(c, env), c)
    exc = None
    if c.get("raise_exc"):
        from . import engine

        exc = o.expect = engine.make_exc(c["raise_exc"])
    v = CollectVisitor(c.get("stop_at"), c.get("raise_at"), env.callback if c.get("cb") else None, exc, c.get("peek", False))
    try:
        r = v.visit(node) if c.get("how") != "accept" else node.accept(v)
        return r
    finally:
        if c.get("raise_at"):
            o.cbraised = v.count >= c["raise_at"]
        o.errs = (list(v.log),)


def k_mktree(c, env, o):
    env.trees[c["tree"]] = build_tree(c)
    return True


def k_readerrs(c, env, o):
    """sample the error list of a shared parser object"""
    p = env.parsers.get(c["slot"])
    return [] if p is None else [canon_errors(list(p.errors)) for _ in range(c.get("times", 1))]


def k_flood(c, env, o):
    """very many calls on ever new texts of a few shapes: the outcome may not depend on the text"""
    shapes, inner = gen.flood_plan(c)
    first = {}
    for i in range(c.get("base", 0), c.get("base", 0) + c["n"]):
        m = "%05d" % i
        s = shapes[i % len(shapes)]
        x = finish(inner, run_call(dict(inner, q=s.replace("@", m)), env))
        got = [str(x.r).replace(m, "@"), str(x.errs).replace(m, "@")]
        if first.setdefault(s, got) != got:
            return "inconsistent: call %d on %r: %s, the first one: %s" % (i, s, got, first[s])
    return first


def k_census(c, env, o):
    """many different calls, each once: what came out of every one of them"""
    out = {}
    for j in c["js"]:
        rng, q = gen.sweep_query(c["seed"], j)
        call = gen.sweep_call(rng, q)
        x = finish(call, run_call(call, env))
        out.setdefault(j, hashlib.sha1(("%s / %s" % (x.r, x.errs)).encode("utf-8", "surrogatepass")).hexdigest()[:10])
    return out


def k_repeat(c, env, o):
    """one call many times: the outcomes (a single one)"""
    out = set()
    for _ in range(c["n"]):
        x = finish(c["call"], run_call(c["call"], env))
        out.add(hashlib.sha1(("%s / %s" % (x.r, x.errs)).encode("utf-8", "surrogatepass")).hexdigest()[:10])
    return sorted(out)


def k_ext(c, env, o):
    """a call that uses an extension of the application's own"""
    from . import extend

    return extend.run(c, env, o)


_KINDS = {n[2:]: f for n, f in list(globals().items()) if n.startswith("k_")}
