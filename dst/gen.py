"""Seeded generation of query strings, families of near-identical queries, and invalid queries."""
import random
import re

IDENT = ["text", "word", "lemma", "pos", "orth", "norm", "phonetic", "x-custom", "x-a1", "post", "lemmas", "s", "t",
         "within", "i", "lc", "session", "a", "b9", "Xy-z"]
QUAL = ["ud17", "Q", "STTS", "stts", "z", "q", "within", "s", "i", "x-q"]
LIT = ["a", "b", "Dog", "NOUN", "NNS", "ART", "VERB", "walk", "der", "grüne", "a\u030c", "\u00e4", "a\u0308",
       "N.*", "ab c", "", "x|y", "(a)", "𝔘x", "\u212b", "ﬁ", "ADJ.", "\t", "noun", "X", "ADJECTIVE",
       "PRONOUN", "NOUN.*", "Haus", "some longer words here", "0", "10", "1.5", "None", "-", "text", "A_1", "%s", "{}", "{0}", "%(a)d", "\u2028", "\u0130", "\u00df", "1234567890123456789"]
ESC = ["\\n", "\\t", "\\\\", "\\\"", "\\'", "\\.", "\\^", "\\$", "\\*", "\\+", "\\?", "\\(", "\\)", "\\{", "\\[", "\\|",
       "\\x41", "\\u00f6", "\\U0001F600", "\\u030a"]
BADESC = ["\\}", "\\]", "\\U00110000", "\\UFFFFFFFF"]
TAGS = ["ADJ", "NOUN", "Noun", "noun", "NN", "NNS", "VVFIN", "X", "Y", "Z", "N", "x", "SYM", "PUNCT", "$.", "$,", "NOUN|VERB", "N.*", "ADJ ", " ADJ", "AD J", "", "PROPN2", "NOUN-X", "ADJ\\.", "\u00c4DJ"]
SCOPES = ["sentence", "s", "utterance", "u", "paragraph", "p", "turn", "t", "text", "session"]
FLAGS = ["ididd", "iddii", "CddCd", "ccdd", "i", "I", "c", "C", "l", "d", "id", "di", "cd", "Id", "ic", "dCd"]
BADFLAGS = ["iI", "cC", "li", "ld", "dl", "IlC"]
JUNK = ["", " ", "[", "]", "(", ")", "\"", "'a", "[ kaputt ]", "pos = NOUN", "apples", "#", "\"a\" #", "[-xxx = \"N\"]",
        "\"a\" | ", "| \"a\"", "[a=\"b\" &]", "[a \"b\"]", "\"a\"{3,1}", "\"a\"{,}", "\"a\"{}", "\"a\"/", "\"a\"/x", "\"a\"/s",
        "\"a\" within", "\"a\" within foo", "within s", "()", "(\"a\"", "[!]", "[a=b]", "\"a\\q\"", "\"\\x4\"", "[a==\"b\"]",
        "[()]", "\"a\"{99999999999999999999}", "\"a\"{2", "[:a=\"b\"]", "[q:=\"b\"]", "[q:a:b=\"c\"]", "\"a\" \"b\" within s s",
        "\u00a0", "\ufeff\"a\"", "\"a\"\x00", "[a=\"b\"/iI]", "[a = \"\\}\"]", "&", "!", "[a=\"b\"", "\"a\"}", "\\", "\"\\", "['a'=\"b\"]"]


class Gen:
    def __init__(self, rng):
        self.r = rng

    def ws(self, p=0.25):
        return self.r.choice([" ", " ", "  ", "\t", "\n", "\u2003"]) if self.r.random() < p else ""

    def lit(self, bad=False):
        r = self.r
        s = r.choice(LIT)
        x = r.random()
        if bad:
            s += r.choice(BADESC)
        elif x < 0.25:
            s += r.choice(ESC) + (r.choice(LIT) if r.random() < 0.5 else "")
        elif x < 0.35:
            abc = r.choice(["abcdefg", "abcdefg", "XYZNV", "012", "aB-_.", "\u00e9\u00dfA"])
            s = "".join(r.choice(abc) for _ in range(r.choice([1, 1, 2, 3, 4, 5])))
        q = r.choice("\"'")
        return q + s.replace("\t", " ") + q

    def regexp(self, bad=None):
        r = self.r
        s = self.lit(bad == "esc")
        if bad == "flags":
            return s + "/" + r.choice(BADFLAGS)
        if r.random() < 0.25:
            s += self.ws(.1) + "/" + self.ws(.1) + r.choice(FLAGS)
        return s

    def basic(self, bad=None):
        r = self.r
        if not bad and r.random() < 0.1:
            # what the rules about part-of-speech tags look at
            return r.choice(["", "", "ud17:", "stts:", "UD17:"]) + "pos" + r.choice(["=", " = ", " != "]) + '"%s"' % r.choice(TAGS) + r.choice(["", "", "", "/i", "/l"])
        q = (r.choice(QUAL) + self.ws(.05) + ":" + self.ws(.05)) if r.random() < 0.25 else ""
        return q + r.choice(IDENT) + self.ws() + r.choice(["=", "=", "!="]) + self.ws() + self.regexp(bad)

    def expr(self, size, neg=1, bad=None):
        r = self.r
        x = r.random()
        if size <= 1 or x < 0.3:
            return self.basic(bad)
        if x < 0.55:
            k = r.choice([2, 2, 2, 3])
            return (self.ws(.5) + "|" + self.ws(.5)).join(self.expr(size // k, 0, bad if i == 0 else None) for i in range(k))
        if x < 0.75:
            k = r.choice([2, 2, 2, 3])
            return (self.ws(.5) + "&" + self.ws(.5)).join(self.expr(size // k, 0, bad if i == 0 else None) for i in range(k))
        if x < 0.9 or not neg:
            return "(" + self.ws() + self.expr(size - 1, neg, bad) + self.ws() + ")"
        return "!" + self.ws(.1) + self.expr(size - 1, 0, bad)

    def quant(self, p=0.25, bad=False):
        r = self.r
        if bad:
            return r.choice(["{3,1}", "{3,0}", "{9,8}", "{%d,1}" % r.randrange(2, 2000)])
        if r.random() >= p:
            return ""
        return self.ws(.1) + r.choice(["+", "*", "?", "{2}", "{0}", "{2,}", "{,3}", "{1,3}", "{0,0}", "{ 2 , 4 }", "{%d}" % r.randrange(30),
                                       "{%d,%d}" % (r.randrange(5), r.randrange(5, 90)), "{0,1}", "{1}", "{007}", "{%d}" % 10 ** r.randrange(8, 22),
                                       "{2,%d}" % (10 ** r.randrange(8, 22) + 7)])

    def simple(self, size, bad=None):
        r = self.r
        x = r.random()
        b = bad if bad in ("esc", "flags") else None
        if x < 0.35:
            s = self.regexp(b)
        elif x < 0.45 and not b:
            s = "[" + self.ws() + "]" + self.ws(.1) + "[]" * r.choice([0, 0, 0, 1, 2])
        else:
            s = "[" + self.ws() + self.expr(size, 1, b) + self.ws() + "]"
        return s + self.quant(bad=bad == "quant")

    def seqitem(self, size, depth, bad=None):
        if depth > 0 and self.r.random() < 0.3:
            return self.group(size, depth, bad)
        return self.simple(size, bad)

    def seq(self, size, depth, bad=None):
        k = self.r.choice([1, 2, 2, 3])
        return self.r.choice([" ", " ", "", "\n"]).join(self.seqitem(size // k, depth, bad if i == 0 else None) for i in range(k))

    def disj(self, size, depth, bad=None):
        k = self.r.choice([2, 2, 3])
        return (self.ws(.7) + "|" + self.ws(.7)).join(self.seq(size // k, depth, bad if i == 0 else None) for i in range(k))

    def group(self, size, depth, bad=None):
        inner = self.disj(size - 1, depth - 1, bad) if self.r.random() < 0.5 else self.seq(size - 1, depth - 1, bad)
        return "(" + self.ws() + inner + self.ws() + ")" + self.quant(bad=bad == "quant" and self.r.random() < .3)

    def main(self, size, depth=2, bad=None):
        r = self.r
        x = r.random()
        if x < 0.4:
            q = self.simple(size, bad)
        elif x < 0.55:
            q = self.group(size, depth, bad)
        elif x < 0.8:
            q = self.seq(size, depth, bad)
        else:
            q = self.disj(size, depth, bad)
        q = self.ws(.15) + q
        if r.random() < 0.2:
            q += " within " + r.choice(SCOPES)
        return q + self.ws(.15)

    def valid(self, size=None):
        if size is None:
            size = self.r.choice([1, 1, 2, 2, 3, 4, 6])
        return self.main(size)

    def mutate(self, q):
        r = self.r
        for _ in range(r.choice([1, 1, 2])):
            i = r.randrange(len(q) + 1)
            x = r.random()
            if x < 0.4 and q:
                q = q[:i] + q[i + 1:]
            elif x < 0.8:
                q = q[:i] + r.choice(list("()[]{}|&!/=:,+*?\"'a1s #\\") + ["within", " s", "i"]) + q[i:]
            else:
                q = q[:i]
        return q

    def query(self, size=None):
        r = self.r
        x = r.random()
        if x < 0.68:
            return self.valid(size)
        if x < 0.76:
            return self.main(size or r.choice([1, 2, 3]), bad=r.choice(["esc", "flags", "quant"]))
        if x < 0.9:
            return self.mutate(self.valid(size or r.choice([1, 1, 2, 3])))
        return r.choice(JUNK)

    def family(self, q, k=4):
        """near-identical variants of q (for collisions of anything keyed on the text)"""
        r = self.r
        import unicodedata

        out = [q]
        fs = [lambda s: " " + s, lambda s: s + " ", lambda s: s.replace(" ", "  "), lambda s: s.replace(" ", ""),
              lambda s: s.replace('"', "'"), lambda s: s.replace("'", '"'), lambda s: s.upper(), lambda s: s.lower(),
              lambda s: unicodedata.normalize("NFD", s), lambda s: unicodedata.normalize("NFKC", s),
              lambda s: s.replace("=", "!="), lambda s: s.replace("!=", "="), lambda s: s.swapcase(), lambda s: "(" + s + ")",
              lambda s: s + " " + s, lambda s: s.replace("a", "b", 1), lambda s: s.replace("|", "&"), lambda s: s.replace("&", "|"),
              lambda s: s.replace("pos", "word", 1), lambda s: s.replace("i", "I"), lambda s: s + "/i", lambda s: s[:-1], lambda s: s[::-1],
              lambda s: s + " within s", lambda s: s + " within t", lambda s: s + "#", lambda s: s.replace("2", "3"), lambda s: s + "{2}",
              lambda s: s + "+", self.anagram, self.anagram, self.anagram, self.longer, self.twin, self.twin, self.twin,
              self.near, self.near, self.near, self.near, self.near, self.near]
        r.shuffle(fs)
        for f in fs:
            if len(out) >= k:
                break
            v = f(q)
            if v not in out and len(v) <= 240:
                out.append(v)
        return out

    def anagram(self, s):
        """two neighbouring letters swapped"""
        js = [j for j in range(len(s) - 1) if s[j].isalnum() and s[j + 1].isalnum() and s[j] != s[j + 1]]
        if not js:
            return s
        j = self.r.choice(js)
        return s[:j] + s[j + 1] + s[j] + s[j + 2:]

    def twin(self, s):
        """one character replaced by another one that may break the query"""
        if not s:
            return s
        j = self.r.randrange(len(s))
        return s[:j] + self.r.choice("$[]\"x)=|") + s[j + 1:]

    def near(self, s):
        """a small change that most likely keeps the query valid and gives it another meaning"""
        r = self.r
        for _ in range(6):
            x = r.randrange(9)
            lits = [m for m in re.finditer(r"\"[^\"]*\"|'[^']*'", s) if len(m.group()) > 2]
            if x < 5 and lits:
                m = r.choice(lits)
                t = m.group()[1:-1]
                js = [j for j in range(len(t)) if t[j].isalpha() and (j == 0 or t[j - 1] != "\\")]
                j = r.choice(js) if js else 0
                if x == 0 and js:
                    t = t[:j] + t[j].swapcase()[:1] + t[j + 1:]
                elif x == 1 and js:
                    t = t[:j] + r.choice("etaoinshr") + t[j + 1:]
                elif x == 2:
                    t = r.choice([" " + t, t + " ", t.replace(" ", "  "), t.replace(" ", ""), t + t[-1:] if t[-1:].isalnum() else t])
                elif x == 3:
                    es = re.findall(r"\\x[0-9a-fA-F]{2}|\\u[0-9a-fA-F]{4}|\\U[0-9a-fA-F]{8}|\\.|.", t)
                    if len(es) > 1:
                        k = r.randrange(len(es) - 1)
                        es[k], es[k + 1] = es[k + 1], es[k]
                    t = "".join(es)
                elif js:
                    t = t[:j] + t[j] + r.choice(["\u0308", "\u030a"]) + t[j + 1:]
                v = s[:m.start() + 1] + t + s[m.end() - 1:]
            else:
                pats = {5: (r"(?<=[{, ])\d+", lambda m: str(int(m.group()) + r.choice([1, 2, 10]))), 6: (r"(?<=/)[iIcCld]+", lambda m: r.choice(FLAGS)),
                        7: (r"\w[\w-]*(?=\s*(!?=|:))", lambda m: r.choice(IDENT)), 8: (r"(?<=within )\w+", lambda m: r.choice(SCOPES))}
                if x < 5:
                    continue
                ms = list(re.finditer(pats[x][0], s))
                if not ms:
                    continue
                m = r.choice(ms)
                v = s[:m.start()] + pats[x][1](m) + s[m.end():]
            if v != s:
                return v
        return s

    def longer(self, s):
        """the same text after a long common beginning"""
        w = self.r.choice(["some", "other", "x"])
        return " ".join('"%s%d"' % (w, j) for j in range(self.r.choice([3, 6, 14]))) + " " + s

    def big(self, f=None):
        """a query that is large in one respect (of 12) or another, perhaps broken at its end"""
        r = self.r
        n = r.choice([6, 9, 12, 17, 24, 33, 50, 70, 130, 260])
        w = r.choice(["w%d", "w%d", "same", "x-%d", "NOUN%d", "\u00e4%d", "a\u0308 %d"])
        ws = [w % i if "%d" in w else w for i in range(n)]
        m = min(n, 60)
        f = r.randrange(12) if f is None else f % 12
        if f == 0:
            q = " ".join('"%s"' % x for x in ws)
        elif f == 1:
            q = " | ".join('"%s"' % x for x in ws[:m])
        elif f == 2:
            q = "[" + r.choice([" & ", " | "]).join('%s = "%s"' % (r.choice(["word", "text", "x-l%d" % i, "nolayer%d" % i]), x) for i, x in enumerate(ws[:m])) + "]"
        elif f == 3:
            q = " ".join('[q%d:%s %s "%s"/%s]' % (i, r.choice(IDENT), r.choice(["=", "!="]), x, r.choice(FLAGS)) for i, x in enumerate(ws[:m]))
        elif f == 4:
            q = '"%s"' % "".join(ws) * r.choice([1, 1, 5])
        elif f == 5:
            q = '[word = "%s"]' % (r.choice(ESC) * n)
        elif f == 6:
            q = "[]" * n + '"x"'
        elif f == 7:
            d = min(n + 10, 34)
            q = self.nest(d)[0]
        elif f == 8:
            q = " ".join("(%s)%s" % (self.simple(1), r.choice(["+", "{2}", "{1,%d}" % (i + 2), ""])) for i in range(m))
        elif f == 9:
            q = " ".join(r.choice(['[pos = "%s"]', '[lemma = "%s"]', '"%s"', '[nolayer = "%s"]', '[post = "%s"]', '[x-b:pos = "%s"]']) % x for x in ws)
        elif f == 10:
            q = '"a"' + " " * n * r.choice([1, 10]) + r.choice(['"b"', "within s", "| 'c'", "{2}"])
        else:
            q = '[%s = "a"]' % ("long-" * n + "layer") + ' [x%s:word = "b"]' % ("y" * n)
        x = r.random()
        if x < 0.12:
            q += " within " + r.choice(SCOPES)
        elif x < 0.3:
            q += r.choice([" ]", '"', " #", "|", "{3,1}", '"\\}"', "/iI", " (", " [", " $ $ $ $ $"])
        return q

    def nested(self, depth, kind=None):
        return self.nest(depth, kind)[0]

    def nest(self, depth, kind=None, edit=lambda s: s):
        """(query nested depth deep, the same query nested only once)"""
        kind = kind or self.r.choice(["qgroup", "egroup", "qgroup", "mixed"])
        if kind == "qgroup":
            s = edit(self.simple(1))
            return tuple("(" * d + s + ")" * d for d in (depth, 1))
        s = edit(self.basic())
        if kind == "egroup":
            return tuple("[" + "(" * d + s + ")" * d + "]" for d in (depth, 1))
        d = depth // 2
        return tuple("(" * a + "[" + "(" * b + s + ")" * b + "]" + ")" * a for a, b in ((d, depth - d), (1, 1)))

    def layered(self, n):
        """queries that use the same few layers and qualifiers in different ways"""
        r = self.r
        ids = r.sample(["text", "pos", "lemma", "word", "x-a"], r.choice([1, 2, 3]))
        quals = r.sample(["q", "z", "ud17", "STTS", "Q"], r.choice([1, 2, 3]))
        quals += [x.swapcase() for x in quals if r.random() < 0.4]

        def one():
            return "%s%s%s%s" % (r.choice(quals) + ":" if r.random() < 0.85 else "", r.choice(ids), r.choice([" = ", "=", " != "]), '"%s"' % r.choice(TAGS[:-2] + ["a", "b"]))

        out = []
        for _ in range(4 * n):
            q = " ".join("[%s]" % r.choice([" & ", " | "]).join(one() for _ in range(r.choice([1, 1, 2]))) for _ in range(r.choice([1, 1, 2, 3])))
            if q not in out and len(out) < n:
                out.append(q)
        return out


def popts(rng):
    o = {}
    if rng.random() < 0.4:
        o["enableSourceLocations"] = True
    if rng.random() < 0.25:
        o["default_identifier"] = rng.choice(["word", "lemma", "text", "x-y"])
    if rng.random() < 0.2:
        o["default_operator"] = rng.choice(["EQUALS", "NOT_EQUALS"])
    if rng.random() < 0.35:
        o["unicode_normalization_form"] = rng.choice(["NFC", "NFD", "NFKC", "NFKD", None])
    return o


def vopts(rng, q=""):
    """settings of a validator"""
    o = {}
    pairs = re.findall(r"([\w-]+)\s*:\s*([\w-]+)\s*!?=", q)
    if rng.random() < (0.55 if pairs else 0.15):
        # made for the layers and qualifiers of this query
        ids = re.findall(r"[\w-]+(?=\s*!?=)", q) or ["text"]

        def near(x):
            return rng.choice([x] * 6 + [x.upper(), x.lower(), x.lower(), x[:-1] or "a", x + "s", " " + x, x.capitalize(), x.swapcase()])

        if rng.random() < 0.3:
            o["allowed_layer_identifiers"] = [near(rng.choice(ids + ["text", "pos"])) for _ in range(rng.randrange(1, 5))]
        if rng.random() < 0.85 or not o:
            l = []
            for _ in range(rng.choice([1, 2, 3, 4])):
                a = rng.choice(pairs + [("q", "text")] if not pairs else pairs)
                b = [near(rng.choice(pairs or [a])[0]) for _ in range(rng.choice([1, 1, 2, 3]))]
                l.append([a[1] if rng.random() < 0.85 else near(rng.choice(ids)), rng.choice([b, b, b, b, b, b, [], None])])
            o["allowed_layer_qualifiers"] = l
    if rng.random() < 0.35 and not o:
        o["allowed_layer_identifiers"] = rng.choice([["text"], ["text", "word", "pos"], ["pos", "lemma", "x-custom"], ["lemma"]])
    if rng.random() < 0.3 and "allowed_layer_qualifiers" not in o:
        o["allowed_layer_qualifiers"] = rng.choice([[["pos", ["ud17"]]], [["pos", ["stts", "z"]], ["lemma", ["q"]]], [["text", None]]])
    if rng.random() < 0.5:
        o["raise_at_first_violation"] = False
    if rng.random() < 0.4:
        o["warnings_as_errors"] = True
    return o


def sweep_query(seed, j):
    """the j-th query of a sweep, and a generator for what is done with it"""
    rng = random.Random("%s/%d" % (seed, j))
    g = Gen(rng)
    x = rng.random()
    q = g.big() if x < 0.04 else g.layered(1)[0] if x < 0.2 else g.query()
    return rng, q


def sweep_call(rng, q):
    k = rng.choice(["parse", "pparse", "validate", "validate", "validate", "can", "antlr", "vval", "vval", "render", "visit"])
    c = {"k": k, "q": q}
    if k == "parse":
        c["loc"] = rng.random() < 0.7
    elif k == "validate":
        c["re"], c["wae"] = rng.random() < 0.7, rng.random() < 0.5
        if rng.random() < 0.15:
            c["ver"] = "x.1"
    elif k == "visit":
        c["peek"] = rng.random() < 0.5
    elif k == "pparse":
        c["opts"] = popts(rng)
    elif k == "vval":
        c["vopts"], c["custom"] = vopts(rng, q), rng.random() < 0.4
    return c


def with_marker(rng, q, m="@M"):
    """the query with a marker somewhere in it"""
    lits = [x.span() for x in re.finditer(r"\"[^\"]*\"|'[^']*'", q)]
    if lits and rng.random() < 0.75:
        a, b = rng.choice(lits)
        i = rng.randrange(a + 1, b)
    else:
        i = rng.randrange(len(q) + 1)
    return q[:i] + m + q[i:]


FLOOD = ['"w@"', '[word = "w@"]', '[text="w@" & pos="NN"]', '"w@" /iI', '[foo = "w@"]', '("w@" | [])+', '"w@" within s', '"w@', '[x-a != "w@"/c]', '"w@"{3,1}', '[q:lemma="w@"]{2}',
         '"w@\\n"', '[pos = "W@"]', '"w@" # "b"', '[! text = "w@"]',
         '[x-l@ = "a"]', '[q@:pos = "a"]', '[foo@ = "x"]', '"a@" | "b@"', '[x-m@:x-n@ = "b" /c]', '[q@:word = "a" & x-l@ = "b"]', "'w@' [lemma = 'l@'] [x-l@='z']+", '[text = "@" | text = "@a"]',
         '[word = "a" @', '"a" within x@', '[w@ "a"]', '"b" # @', '[x-y:x-v@ "c"]']


def flood_plan(c):
    rng = random.Random(c["seed"])
    shapes = rng.sample(FLOOD, c.get("shapes", 4))
    inner = rng.choice([{"k": "parse"}, {"k": "can"}, {"k": "validate"}, {"k": "validate", "re": True}, {"k": "validate", "re": True, "wae": True}, {"k": "pparse", "opts": {}},
                        {"k": "pparse", "opts": {"enableSourceLocations": True}}, {"k": "antlr"}])
    if c.get("slot") is not None and inner["k"] == "pparse":
        inner["slot"] = "flood%s" % c["slot"]
    return shapes, inner
