"""rewrites section 10 of DESIGN.md from seeded/*/meta.json"""
import json, os, re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REFAC = """helpers extracted from `parse`, the stack clean-up as a helper / a context manager / a loop / list comprehensions, the
dispatch of `visit` by a table / generated methods / registration, `validate` split, `can_parse` rewritten, shared and lazily
built constant tables, finite `lru_cache`s with immutable values, `__slots__` on nodes, lists instead of deques, iterative
`__str__`, lazily imported modules, a new module, decorators around methods, log calls wrapped, listeners built in another
way, a constant table published under a lock (double-checked), locations computed elsewhere, exception clauses reordered,
flag lookup by a dictionary, escape tables, attribute order changed"""
seeds = os.path.join(HERE, "seeded")
rows = []
for n in sorted(os.listdir(seeds)):
    m = json.load(open(os.path.join(seeds, n, "meta.json")))
    rows.append("| %s | %s | %s |" % (n, m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
text = """## 10. What the checks were tested against

**Planted bugs.** %d changes (`seeded/`), each written from the text of a property, each passing the 66 tests, each with a demonstration. Every one
is reported by the check of its own property at the quick tier (`tools/gen_section10.py` writes this table; the part of the name before the first hyphen is the
property = the check that catches it). Those that were missed when they were planted led to one of the mechanisms described in sections 2-5 (sweeps of
rarely executed code, points reached only at a later repetition, clocks, disk, fresh interpreters, debug-message code, new texts in every round, ...).

**Behaviour-preserving rewrites.** 31 rewrites and four combinations of 5-12 of them were run through the checks; what they set off was corrected (section 9). Tried: %s.

| bug | needs | breaks |
|---|---|---|
%s

""" % (len(rows), REFAC, "\n".join(rows))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
s = re.sub(r"## 10\..*?(?=## 11\.)", "", s, flags=re.S)
s = s.replace("## 11. Limits", text + "## 11. Limits")
open(p, "w").write(s)
