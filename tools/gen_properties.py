#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": list(observe), "hook_needed": hook}})

PA, VA, IN = "src/fcsql/parser.py", "src/fcsql/validation.py", "src/fcsql/__init__.py"
LX, PR = "src/fcsql/FCSLexer.py", "src/fcsql/FCSParser.py"

prop("C01", "Concurrent calls never interfere",
 "When any number of threads parse, low-level-parse, check or validate query strings at the same time, every call completes and gives exactly the result (tree, verdict, error list or exception) the same call gives when it is the only one in a fresh process. No interleaving of the threads changes, mixes, delays for ever or loses a result.",
 ["schedules", "inputs"], "all interleavings of 2..n threads calling fcsql.parse / can_parse / validate / antlr_parse and private QueryParser / FCSQLValidator objects, cold or warm caches",
 "The suite is single-threaded; no test ever has two calls in flight, while the generated lexer and parser share mutable prediction caches between all threads of a process.",
 [PA, VA, IN, LX, PR],
 [("every call builds its own lexer, token stream, parser, listener and tree builder", PA+": QueryParser.parse"), ("convenience functions build a private QueryParser / Validator", IN), ("shared automaton caches only ever receive finished entries", LX+", "+PR+": decisionsToDFA, sharedContextCache")],
 [("decisionsToDFA / sharedContextCache", "prediction automata filled lazily while parsing, shared by all threads", LX+", "+PR)],
 ["return value, exception and error list of every call"])

prop("C02", "One parser object can serve many threads",
 "When several threads call one shared parser object at the same time, each call returns the tree, or raises the error, of its own query and completes. The error list the object exposes is at every moment the complete list belonging to exactly one of the calls made on it (the initial empty list as long as no call has ended), never partial, never a mixture, and not emptied in between by a call that is still running.",
 ["schedules", "inputs"], "all interleavings of threads calling parse() on one QueryParser, with a reader of its error list running alongside",
 "Tests use one parser from one thread, one call at a time; they cannot see per-call state that has leaked onto the object.",
 [PA],
 [("per-call state lives in locals, the object only keeps options", PA+": QueryParser.parse"), ("the error list is replaced by one assignment when the call ends", PA+": QueryParser.parse, finally block")],
 [("QueryParser.errors", "error details of the latest finished call", PA)],
 ["parse() results; QueryParser.errors sampled during and after the calls"])

prop("C03", "Answers do not depend on what was asked before",
 "In any sequence of calls (valid and invalid queries, repeats, near-identical texts, different options and specification versions, new and reused parser objects) every result equals the result of that call made first in a fresh process with the same query and options. The error list of a parser object describes its latest call only, and changing an option of a parser object affects later calls on it and nothing else.",
 ["histories", "inputs", "configurations"], "all finite call sequences over the public API of one process, cold through warm caches",
 "Tests make one or two calls per object with a handful of queries; carry-over between calls only shows for particular predecessors, cache fill levels or option changes.",
 [PA, VA, IN, LX, PR],
 [("fresh error listener, lexer, parser and builder per call", PA+": QueryParser.parse"), ("options are read from the parser object at call time", PA+": ExpressionTreeBuilder"), ("automaton caches are a function of the grammar only", LX+", "+PR)],
 [("decisionsToDFA / sharedContextCache", "grow with every query seen", LX+", "+PR), ("QueryParser.errors", "latest call's errors", PA)],
 ["result of every call of a history"])

prop("C04", "An abandoned call leaves no trace",
 "If a call is abandoned at any point, by cancellation (for example KeyboardInterrupt) or by an error raised in its midst, every later call completes and gives the result it would give in a fresh process. This holds for later calls on the same parser object, on other objects and in other threads.",
 ["crash_points", "histories"], "every instruction at which a parse, low-level parse, check or validate call can be torn down, once or repeatedly, followed by any calls",
 "No test interrupts a call; the shared prediction caches and any per-object state are then in whatever half-finished state the interruption left them.",
 [PA, VA, IN, LX, PR],
 [("half-built per-call objects are dropped with the call", PA+": QueryParser.parse"), ("caches are published entry by entry, each entry complete", LX+", "+PR)],
 [("decisionsToDFA / sharedContextCache", "survive the torn-down call", LX+", "+PR)],
 ["results of the calls after the abandoned one"])

prop("C05", "Internal failures fail closed with the documented error",
 "If a resource failure (memory, operating-system error, timeout raised inside the call) strikes at any point of a parse, the caller gets the exact fault-free result or an error, never a different tree; a failure inside tokenizing, parsing or tree building surfaces as the documented parse exception with the original failure in its cause chain. No failure during a check or a validation makes a query that is rejected without the failure come out as acceptable, and a validation that asks for the error list and whose parse failed always lists at least one error.",
 ["fault_sequences", "inputs"], "every instruction at which an allocation, system or runtime failure can be raised inside parse / can_parse / validate / is_valid, one or several failures per call",
 "Tests never inject a failure; the catch-all handlers are not executed by any test.",
 [PA, VA, IN],
 [("every Exception inside the guarded section is wrapped with 'raise ... from'", PA+": QueryParser.parse"), ("can_parse and validate answer False / an error list only from the exception path", IN)],
 [], ["outcome and exception chain of the failing call"])

prop("C06", "Cancellation reaches the caller unchanged",
 "A KeyboardInterrupt, SystemExit or other non-error cancellation delivered at any point while a public function, visitor or validator is running leaves that function as the very same exception object. It is never swallowed, never replaced by a parse or validation error, and never turned into a result or a False verdict.",
 ["crash_points"], "every instruction of every public entry point at which cancellation can arrive, including inside user callbacks",
 "No test cancels a call; a handler that is too broad behaves identically in every existing test.",
 [PA, VA, IN],
 [("handlers catch Exception and narrower, never BaseException", PA+": QueryParser.parse; "+IN+": can_parse, validate; "+VA+": is_valid"), ("finally blocks neither return nor raise", PA+": QueryParser.parse")],
 [], ["exception object seen by the caller"])

prop("C07", "Running out of call stack gives the right answer or the documented failure",
 "However deeply a query is nested and however little call stack is left when the call is made, parsing, checking and validating a query string gives the exact fault-free answer or the documented failure outcome (parse exception; verdict False; non-empty error list), never a different answer and never a raw recursion error once the call has some working stack. Working on an already parsed tree (validator objects, visitors, rendering) gives the exact answer or lets the recursion error out, never a different answer. Depth alone changes no answer: wrapping a query in more pairs of parentheses keeps its verdict, its validation messages and its innermost expressions. Later calls are unaffected.",
 ["fault_sequences", "inputs"], "all combinations of nesting depth and remaining stack depth at call time, for parse / can_parse / validate",
 "Tests use shallow queries from a shallow stack; which of the recursive phases (lexing, prediction, tree building, validation) hits the limit depends on both depths.",
 [PA, VA, IN],
 [("recursion errors while parsing and building are wrapped into the parse exception", PA+": QueryParser.parse"), ("validate() maps failures to a verdict / error list", IN+": validate")],
 [("interpreter recursion limit", "remaining stack at call time", "sys")], ["outcome of the call and of calls after it"])

prop("C08", "Results belong to the caller",
 "A tree, error list or exception that was handed out never changes because of any later or concurrent library call. Modifying a handed-out result (its children, attributes, flag sets, error lists) never changes any other result, past or future, so no two results share mutable parts.",
 ["histories", "schedules"], "all sequences of calls mixed with arbitrary modification of earlier results, single- and multi-threaded",
 "Tests look at each result once, immediately, and never modify one; sharing between results is invisible until a later call or a modification.",
 [PA, VA, IN],
 [("node constructors copy child lists and flag sets", PA+": QueryNode, Expression"), ("error lists are created per call and replaced, not cleared", PA+": QueryParser.parse; "+VA+": Validator.validate"), ("validate() returns a new list", IN+": validate")],
 [("QueryParser.errors, Validator.errors, Validator.warnings", "lists handed to the caller", PA+", "+VA)],
 ["snapshots of retained results compared after further calls"])

prop("C09", "Validator objects can be reused whatever happened before",
 "A validator object used for any sequence of trees gives for each validation the same verdict, errors, warnings and raised violation as a new validator with the same settings, even after validations that stopped at the first violation, were cancelled, or failed midway. While it visits a tree, the ancestor it reports to custom validators belongs to the tree being validated (none at the root), never to an earlier one.",
 ["histories", "crash_points"], "all sequences of validate / is_valid calls on one validator with any settings, each ending normally, by first violation, by cancellation or by an injected failure at any point",
 "Tests reuse a validator only after complete validations, or after a violation without looking at the ancestor information.",
 [VA],
 [("validate() starts from empty error, warning and ancestor state", VA+": Validator.validate"), ("ancestor stack pushed and popped around each visit", VA+": Validator.visit_*")],
 [("Validator.errors / warnings / stack", "per-validation state kept on the object", VA)],
 ["verdict, errors, warnings, raised violation, parent_node during visits"])

prop("C10", "Logging and broken output streams never influence results",
 "Debug logging being on, off or switched in the middle of a call, a log device that is slow, full or failing, and standard output or error streams that are missing or broken never change any result, exception or error list. Parsing, checking and validating functions themselves write nothing to standard output or standard error.",
 ["fault_sequences", "configurations", "schedules"], "all log level settings and changes during calls, all failure sequences of the log device and standard streams",
 "The suite runs with debug logging off and healthy streams, so the debug branches and the default console error output never run under a failing device.",
 [PA, VA, IN],
 [("debug output goes through the logging module only, guarded by isEnabledFor", PA), ("the runtime's console error listeners are removed", PA+": QueryParser.parse; "+IN+": antlr_parse")],
 [("LOGGER level and handlers", "process configuration outside the library's control", PA+", "+VA)],
 ["results of calls; bytes written to stdout/stderr"])

prop("C11", "Calls may nest at any point",
 "A library call made while another library call is in progress on the same thread (from a signal handler, log handler, finalizer, or a visitor or validator callback), including on the same parser object, completes and gives its own fresh-process result. The interrupted outer call then continues, completes, and gives its own result and error list as if nothing had happened.",
 ["schedules", "inputs"], "every instruction of an outer call at which a nested call of any kind can start, nested one or more levels",
 "No test makes a call inside another call.",
 [PA, VA, IN],
 [("no per-call state outside the call's own objects, no locks held across a call", PA+": QueryParser.parse"), ("error list assigned once at the end of each call", PA+": QueryParser.parse")],
 [], ["results of nested and outer calls"])

prop("C12", "No process-wide side effects, during or after a call",
 "At every moment during a library call and after it has ended in any way (result, error, cancellation), process-wide settings are as the caller left them: recursion limit, standard streams, logging configuration, warning filters, signal and exception hooks, environment, working directory, random state, garbage-collector settings and threads. The library's own tables (validators by version, known layers, tag sets, defaults) are equally unchanged.",
 ["crash_points", "schedules", "histories"], "every intermediate point and every way of ending of every public call",
 "Tests do not look at process state, and a setting that is changed and restored is only visible to another thread or after an interruption.",
 [PA, VA, IN],
 [("library code touches no process-wide setting", PA+", "+VA+", "+IN), ("tables are read-only by use", VA+": VALIDATORS, KNOWN_*, UNIVERSAL_POS_TAGS")],
 [], ["fingerprint of process-wide settings at intermediate points and after each call"])

prop("C13", "Finished calls retain nothing",
 "Once the caller has dropped the results and exceptions of a call, its query text, parse tree and query nodes can be reclaimed, however the call ended (result, rejection, violation, failure, cancellation), even if the caller keeps using the same parser or validator object; only the error details such an object still exposes, and the query text set on a validator, are kept. Endlessly many calls on ever-new query texts of the same shapes do not make memory grow once the first rounds have warmed the library up.",
 ["histories", "crash_points"], "all call histories with all ways of ending, followed by dropping the results",
 "Tests never observe object lifetimes and run for a second.",
 [PA, VA, IN, LX, PR],
 [("per-call objects referenced only from the call", PA+": QueryParser.parse"), ("validator drops ancestor state at the start of / after a validation", VA+": Validator"), ("automaton caches keep automaton states, not tokens or contexts", LX+", "+PR)],
 [("Validator.stack", "references nodes of the tree being validated", VA)],
 ["live library objects after dropping results; retained memory over rounds"])

prop("C14", "An interrupted first import can be retried",
 "If importing the library is interrupted at any point (KeyboardInterrupt, memory or I/O failure), importing it again in the same process succeeds. The library then gives the same results as one imported without interruption.",
 ["crash_points"], "every instruction of the library's and its runtime's import-time code at which the import can be torn down, once or repeatedly",
 "Tests import once, successfully.",
 [IN, PA, VA, LX, PR],
 [("module bodies only define; registration is a plain table", VA+": VALIDATORS"), ("automata deserialized in class bodies", LX+", "+PR)],
 [], ["second import and results after it"])

prop("C15", "Parsed trees can be shared: validating and visiting only read them",
 "Validating, visiting and rendering a tree (as parsed, or as its owner has edited it, for example dropping locations of some nodes) never modify it, even when stopped by a violation, an exception in a callback, or cancellation. Any number of threads may therefore do so at once on the same tree, each with its own validator or visitor, and each gets the result it would get alone on the tree as it is then.",
 ["schedules", "crash_points"], "all interleavings of validators, visitors and renderings over one shared tree, each ending in any way",
 "Tests use a tree from one thread and never compare it before and after.",
 [PA, VA],
 [("traversal state is kept in the visitor, not in the nodes", PA+": QueryVisitor; "+VA+": Validator.stack"), ("rendering builds new strings", PA+": QueryNode.__str__")],
 [], ["tree snapshot before/after; verdicts, violations, renderings per thread"])

prop("C16", "All replicas give the same answer",
 "Processes running the library with different hash seeds, interpreter optimisation, garbage-collector settings, warm-up histories and restarts give the identical outcome (tree, rendering, verdict, error messages and order) for the same request. Which replica serves a request, and when it was last restarted, is never observable.",
 ["configurations", "histories"], "all routings of a request stream over replicas with different interpreter settings, and all restart points",
 "The suite runs with one fixed hash seed, assertions on, in one process.",
 [PA, VA, IN, LX, PR],
 [("results are built in query order, sets are only rendered in a fixed order", PA+": Expression.__str__, ExpressionTreeBuilder"), ("no reliance on assertions for control flow", PA)],
 [], ["outcomes of the same request on different replicas"])

prop("C17", "A process forked in the middle of calls works",
 "When a process is forked at any instant while other threads are in the middle of library calls, every call then made in the child completes and gives its fresh-process result, although the other threads no longer exist there. Calls in the parent are unaffected.",
 ["crash_points", "schedules"], "all instants of a fork relative to the calls in flight on other threads",
 "No test forks or uses threads.",
 [PA, IN, LX, PR],
 [("no locks; shared caches consist of complete entries at every instant", LX+", "+PR)],
 [("decisionsToDFA / sharedContextCache", "copied in mid-update into the child", LX+", "+PR)],
 ["results of calls in the child and the parent"])

prop("C18", "Results can be copied and sent to other processes",
 "A tree, error list or exception handed out by a call (a tree also as edited by its owner) can be copied with copy.deepcopy and pickled with protocol 2 or later, and unpickled any number of times in any process running the library (other hash seed or interpreter settings, warmed up, restarted, or not having imported the library yet), also over several hops, as far as the pickler can follow the depth of the tree. Every copy equals the original in all that can be observed (classes, attributes, flags, locations, parent links, messages, positions, fragments, the node an exception names; only the cause of an exception is not sent), and validating, visiting and rendering it gives what the original gives. Copies share nothing that can be modified with the original or with each other, and copying only reads the original, also when other threads use it or the copying is interrupted.",
 ["histories", "configurations", "schedules"], "all results, all ways of copying, all routes between processes with duplicated and late deliveries and restarts, and all interleavings with threads that use the original",
 "No test copies or pickles anything, or looks at a result in a second process.",
 [PA, VA],
 [("nodes are plain objects with plain attributes", PA+": QueryNode and subclasses"), ("error details and locations are frozen dataclasses", PA+": ErrorDetail, SourceLocation"), ("the violation knows how it is rebuilt", VA+": SpecificationValidationError.__reduce__")],
 [], ["what arrives in the receiving process, compared with the original; the original afterwards"])

prop("C19", "Calls do not get slower and never wait",
 "The work one call does (steps executed by the library and its runtime) depends on the call and not on the history of the process: it is at most a small multiple, plus a constant, of what the same call does in a fresh process, whatever was called before, however often, with whatever outcome (results, syntax errors, violations, calls stopped by a failed allocation or an interrupt), with fresh or re-used parsers and validators, and however much time has passed. Over endlessly many calls it does not grow. A call that no other thread competes with never sleeps, polls or waits for a timeout.",
 ["histories", "configurations"], "all histories of calls and faults, of any length, all parsers and validators used in them, and all times between the calls",
 "Tests make each call once and measure nothing; slow growth shows only in long-running services.",
 [PA, VA, IN],
 [("a new parser and validator per call; nothing is accumulated", IN+": parse, validate"), ("QueryParser.parse replaces its errors", PA+": QueryParser.parse"), ("Validator.validate starts with new lists", VA+": Validator.validate")],
 [], ["lines of library and runtime code executed per call; virtual time the call waits"])

prop("C27", "Extensions count as they are at the time of the call, for their own objects only",
 "An application may at any time define validator and visitor classes of its own (overriding visit methods and the result and descent hooks, also several classes of one name, classes that come and go, with any or no specification version of their own), register them in VALIDATORS under new versions, replace and remove them there, and change the option attributes of its validator objects. Every call gives what the same call gives in a fresh process that has only the extension it uses: validate() applies the class registered for its version at the time of the call and rejects a version that has none, an object is handled by the methods of its own class, and options are those the object has now. Defining, registering, using, failing in or removing an extension never changes a call that does not use it, in any order and on any threads.",
 ["histories", "schedules"], "all histories of defining, registering, replacing, removing and using extensions, mixed with other calls, faults and threads",
 "Tests use one hand-written visitor and never extend anything twice.",
 [PA, VA, IN],
 [("dispatch by the node's type and the object's own methods", PA+": QueryVisitor.visit"), ("hooks of the visitor", PA+": QueryVisitor.visitChildren"), ("table of validators, looked up per call", VA+": VALIDATORS; "+IN+": validate")],
 [], ["outcome, errors, warnings and callbacks of the call"])

# ---- pure functions of their input: not simulation targets (listed under not_applicable)
prop("C20", "The parser accepts exactly FCS-QL and builds the tree the grammar defines",
 "A query string is accepted if and only if it is an FCS-QL 2.0 query, and the returned tree has the operators, groups, sequences, disjunctions, identifiers, qualifiers and 'within' scopes of the query in order, with negation binding tighter than conjunction and conjunction tighter than disjunction.",
 ["inputs"], "all query strings", "Tests only check that about 50 samples parse; no test looks at a tree.",
 [PA, LX, PR], [("grammar and tree builder", PA+": ExpressionTreeBuilder")])
prop("C21", "Pattern text is unescaped and normalized exactly",
 "The pattern of an expression is the quoted text with each defined escape sequence replaced by its meaning, regular-expression escapes preserved, in the requested Unicode normalization form; undefined escapes and invalid code points are rejected.",
 ["inputs", "configurations"], "all quoted strings and normalization settings", "Tests only check that samples parse.",
 [PA], [("unescapeString, unescapeUnicode, unicodedata.normalize", PA+": ExpressionTreeBuilder")])
prop("C22", "Repetition bounds mean what the quantifier says",
 "Every quantifier form yields its minimum and maximum (unbounded where open) on the segment or group it follows, absent quantifiers mean exactly one, and a minimum above the maximum is rejected.",
 ["inputs"], "all quantifier forms and integers", "One negative sample exists; no test reads the bounds.",
 [PA], [("processRepetition, processRepetitionRange", PA)])
prop("C23", "Source locations delimit exactly the text of their node",
 "With locations enabled, the text between a node's offsets is the text the node was parsed from, a parent's span covers its children's spans, and error positions and fragments point at the offending text.",
 ["inputs"], "all query strings", "Tests check a few error fragments.",
 [PA, VA], [("SourceLocation.fromContext, fromToken", PA)])
prop("C24", "Validation verdicts follow the FCS 2.2 rules",
 "Unknown layers are errors, legacy and custom layers and non-standard part-of-speech tags are warnings, allowed-layer and allowed-qualifier lists are enforced, and the verdict counts warnings exactly when asked to.",
 ["inputs", "configurations"], "all trees and validator settings", "Tests cover about ten combinations.",
 [VA, IN], [("FCSQLValidator.visit_Expression", VA)])
prop("C25", "Node accessors and visitor dispatch honour their documentation",
 "For every node, type queries, child access by index and class, emptiness and membership predicates, and dispatch to the visit method of the node's kind behave as documented.",
 ["inputs"], "all trees, indexes, classes and visitors", "No test calls the accessors or a custom visitor.",
 [PA], [("QueryNode accessors; QueryVisitor.visit", PA)])
prop("C26", "Regular-expression flags are complete and consistent",
 "The flag set of an expression contains exactly the meanings of the flag letters given, contradictory combinations are rejected, and letter aliases are equivalent.",
 ["inputs"], "all flag strings", "Three samples exist; none inspects the flag set.",
 [PA], [("visitRegexp", PA)])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
