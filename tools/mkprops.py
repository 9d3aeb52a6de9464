#!/usr/bin/env python3-vt
# Source of properties.jsonl (kept as code so that the text stays reviewable).
import json,sys
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

ALL=["base/base.go","base/parsers.go","base/transformers.go","base/match.go","base/production.go","string/parsers.go","string/transformers.go","object/parsers.go","extra/extra.go","extra/transformers.go","_examples/csv/parser.go","_examples/formula/formula.go","_examples/torpn/torpn.go"]
p("C01","Concurrent parses on a shared parser are isolated",
 "Any number of goroutines may parse at the same time with one already constructed parser (hand-built, self-recursive, production-rule based, over strings or over object slices, or one of the bundled CSV, formula and RPN front ends), each on its own input. Under every interleaving each parse ends exactly as it would have ended alone: same match, mismatch, error or panic, same end position, same resulting tokens (values, classes, opcodes, positions), and its callbacks see only its own data and its own user tag. This also holds while other parses in flight fail, panic or stall.",
 ["schedules","inputs","fault_sequences"],"for all interleavings of 2..4 goroutines at statement granularity, all grammars and inputs, all callback faults in the other parses",
 "Every existing test runs one parse at a time; no test starts a goroutine, so no interleaving is ever sampled.",
 ALL,[("parser closures hold only construction-time data; all parse state travels in the context value","base/base.go BaseParser, LightBaseParser"),("deferred construction of recursive parsers","base/parsers.go Indirect"),("own context per parse","string/new.go, object/new.go, base/production.go newContext")],
 ["result context, error and recovered panic of each parse","arguments seen by user callbacks"],
 [("deferred parser","the parser built on first use","base/parsers.go Indirect"),("inserted token","the token a push/prepend transformer inserts","base/transformers.go Push, Prepend")])
p("C02","Sharing a parser or a tree between goroutines is free of data races",
 "Using one constructed parser, one bundled front end, or one result tree from several goroutines without any locking by the caller never makes two goroutines access the same memory without synchronisation where at least one access is a write. This holds from the very first use on and whatever the outcomes of the parses, as long as the caller's own callbacks share nothing.",
 ["schedules","inputs"],"for all interleavings and all grammars, including first-use races",
 "The tests are single threaded and run without the race detector.",
 ["base/parsers.go","base/transformers.go","base/base.go","base/match.go","base/production.go","base/ast.go","string/parsers.go","string/transformers.go","object/parsers.go","extra/extra.go"],
 [("closures do not write captured variables during a parse","base/*.go"),("synchronised deferred construction","base/parsers.go Indirect")],
 ["happens-before race monitor inside the simulated run"])
p("C03","A parse does not depend on the parser's history",
 "The outcome of a parse is determined by the parser's definition, the source and the user tag alone. Reusing a parser any number of times, after any history of matched, unmatched, failed, panicked or aborted parses, gives each parse exactly the outcome that a freshly built parser would give, tokens and positions included.",
 ["histories","fault_sequences","inputs"],"for all sequences of parses on one parser with any mix of endings, any injected callback error, panic or goroutine exit",
 "Each test case calls the parser once; the front-end tests reuse one parser over a handful of inputs and compare values only, never after a panic.",
 ALL,[("no state survives in closures or package variables between parses","base/base.go, base/transformers.go"),("package-level parsers","_examples/*/")],
 ["result context, error, recovered panic and callback arguments of the n-th parse vs. the same parse on a fresh parser"])
p("C04","Returned results and caller-supplied data are never altered later",
 "Once a parse has returned, nothing the library does later (further parses, parses on other goroutines, failing parses, production rules, traversals) changes the tokens or lists the caller holds from it. Likewise no parse alters the source slice, the tokens or the values that the caller supplied when building the parser or the input.",
 ["histories","schedules","fault_sequences"],"for all histories and interleavings of later operations, each on its own context",
 "Tests look at a result immediately after the call and then drop it.",
 ["string/new.go","object/new.go","base/base.go","base/parsers.go","base/transformers.go","base/production.go","base/ast.go","object/parsers.go"],
 [("each context owns its token stack","string/new.go, object/new.go, production.go newContext"),("transformers copy before changing tokens","base/transformers.go"),("traversal copies lists","base/ast.go Traverse")],
 ["deep fingerprint of every held result and of every supplied token, re-taken at the end of the run"])
p("C05","Combinators follow their rules for every sequence of sub-parser outcomes",
 "Whatever the sub-parsers answer at each attempt (match of any width and tokens, no match, error), groups, ordered choice, bounded and unbounded repetition, optional parts, look-ahead, look-behind, their negations, deferred parsers, custom composite parsers, transformations and stack matches call their sub-parsers in the documented order at the documented positions and end with the documented status, position, repetition count and token list. Zero-width assertions consume nothing and leave the tokens as they were. A transformation replaces exactly the tokens its own child produced, and the built-in list transformations (erase, group, push, pop, prepend, exchange, roll, relabel) do what their documentation says.",
 ["fault_sequences","programs"],"for all grammars built from these combinators and all sequences of outcomes of their sub-parsers",
 "Only a dozen fixed grammar/input pairs are exercised, through the examples; look-behind, stack matches, bounded repetition and most transformers have no test at all.",
 ["base/base.go","base/parsers.go","base/match.go","base/transformers.go"],
 [("generic combinator loop with save/rewind","base/base.go BaseParser"),("look-behind loop","base/parsers.go lookBehindBase"),("stack match","base/match.go Match")],
 ["call sequence of simulator-controlled leaf parsers, final context, error"],
 [("token stack","tokens produced so far","ParserContext.AstStack")])
p("C06","A failed attempt leaves no trace",
 "When an alternative, an optional part, a repetition round or an assertion fails to match, at whatever point inside it, the parse goes on exactly as if the attempt had never been made: source position and token list are restored, in length and in content, including tokens that were produced before the attempt began. The final outcome equals that of the same grammar in which the failing attempt is replaced by one that fails immediately.",
 ["fault_sequences","inputs","programs"],"for all grammars, all points at which an attempt can be made to fail, all sizes and capacities of the token list",
 "The tests contain a few alternatives that fail on their first character; none fails after it has already rewritten tokens.",
 ["base/base.go","base/match.go","base/parsers.go","base/transformers.go","base/production.go"],
 [("save and restore of the context around children and rounds","base/base.go BaseParser"),("stack match rewrites tokens below its own start","base/match.go Match")],
 ["outcome of grammar with doomed attempt vs. outcome with the attempt cut to an immediate failure"],
 [("token stack backing array","shared between saved and current contexts","ParserContext.AstStack")])
p("C07","Errors and panics from callbacks end the parse and reach the caller",
 "When a transformer, custom parser or error assertion raises an error anywhere inside a parse, including inside repetitions, negated assertions, look-behind, stack matches, deferred parsers and production rules (their completion check excepted, where an error means not accepted), no alternative is tried and no further callback is called, and the caller receives that very error together with an error status. When a callback panics, the same panic value reaches the caller and no further callback is called.",
 ["fault_sequences","programs"],"for all grammars and every single callback invocation as the point of the fault",
 "Two tests check that some error is returned for one malformed input; no test raises an error in a transformer or in nested constructs, and none looks at which error comes back.",
 ["base/base.go","base/parsers.go","base/match.go","base/production.go","base/tracer.go"],
 [("error status short-circuits the combinator loop","base/base.go BaseParser"),("errors from look-behind and rules are returned","base/parsers.go lookBehindBase, base/production.go")],
 ["error value, status, and callback log after the injected fault"])
p("C08","Deferred parsers are constructed exactly once",
 "A parser whose construction is deferred to first use is successfully constructed once, no matter how many goroutines race on its first use; its constructor never runs in two goroutines at a time, and no parse ever runs with a missing or half-made parser. If the constructor panics or its goroutine exits, only that parse is affected and the next use constructs it again.",
 ["schedules","fault_sequences"],"for all interleavings of first uses and all constructor faults",
 "Package-level parsers are first used by a single goroutine in the tests, and constructors never fail there.",
 ["base/parsers.go"],[("guarded lazy construction","base/parsers.go Indirect")],["start/end events of the constructor callback","results of the racing parses"],
 [("deferred parser","nil until constructed","base/parsers.go Indirect")])
p("C09","Parses that share parsers always make progress",
 "Goroutines that share parsers never deadlock, livelock or wait for each other forever: every parse finishes within a bounded number of steps once all goroutines are allowed to run, and a goroutine stalled inside an ordinary callback does not keep the others from finishing. This holds after panics, errors and goroutine exits in callbacks, and when a callback itself starts another parse with the same parser. Nothing keeps running or stays locked after the parses have ended.",
 ["schedules","fault_sequences"],"for all interleavings, stalls, re-entrant parses and callback faults",
 "Blocking and waiting can only show under concurrency, which no test has.",
 ["base/parsers.go","base/base.go","base/production.go","base/tracer.go"],[("no locks held while user code parses; construction lock released on every exit","base/parsers.go Indirect"),("repetition stops when the child stops matching","base/base.go BaseParser")],
 ["simulator: runnable set, step counts, task termination"])
p("C10","Tracing is a balanced, faithful and scoped observer",
 "A traced parser behaves exactly like the same parser without tracing, under all inputs, callback errors and panics. The trace callback receives, per parse, properly nested events: each entry is closed by exactly one exit (with the resulting context and error) or one panic notification (with the panic value, which still reaches the caller), under the same scope, number and class, also when several goroutines parse at once. Tracing covers only the parsers built under its scope and is off again afterwards.",
 ["fault_sequences","schedules","programs"],"for all grammars, faults and interleavings",
 "No test uses tracing.",
 ["base/tracer.go","base/base.go"],[("wrapper with recover and re-panic","base/tracer.go tracer"),("saved and restored trace configuration","base/tracer.go DebugTrace")],["events delivered to the trace callback","outcome with and without tracing"],
 [("trace configuration","enabled flag, scope, callback","base/tracer.go")])
p("C11","Traversal callbacks are balanced under every error and throw",
 "A traversal visits nodes depth first, parent's entry callback first, children in order, parent's exit callback last. For every node whose entry callback succeeded, exactly one of its exit callback or its child-failure callback is called, innermost first; after an error or a thrown value no other node is visited, and that same error or thrown value is returned. Children of lazily marked nodes are skipped, and in last-value lists the break, continue and relative-jump requests of exit callbacks move the position as documented, a jump given together with break or continue counting from the position that one sets.",
 ["fault_sequences","inputs","programs"],"for all trees and every callback invocation as the point of an error, throw or jump request",
 "No test calls the traversal.",
 ["base/ast.go"],[("recursive traversal with cleanup callback","base/ast.go Ast.Traverse")],["sequence of callbacks, returned node, codes, thrown value and error"])
p("C12","Traversal leaves the source tree intact",
 "Traversing a tree, with any transformation done by the callbacks and whether the traversal succeeds, fails, throws or panics half-way, leaves the original tree unchanged and returns a new one. Therefore any number of goroutines can traverse the same tree at once, each with the result it would get alone, and a failed traversal can be repeated.",
 ["schedules","fault_sequences","inputs"],"for all trees, interleavings of traversals and fault points",
 "No test calls the traversal.",
 ["base/ast.go"],[("copy of cons cells and lists before descending","base/ast.go Ast.Traverse")],["deep fingerprint of the tree before and after","results of concurrent traversals"])
p("C13","Object parsers respect the caller's slice",
 "Parsers over a caller-supplied slice only read it, only at indices inside its length, and decide equality only through the slice's own comparison: a value or value sequence matches exactly when the caller's comparison accepts every compared element, and a mismatch consumes nothing. The library's own token list as a source compares tokens by class name, type and value, to any depth. If the slice's methods panic, the panic reaches the caller and the slice is not accessed again by that parse.",
 ["fault_sequences","inputs"],"for all slices, all sequences of comparison answers and every access as the point of a fault",
 "The object package has no real test; the examples use it only through production rules with one predicate.",
 ["object/parsers.go","object/new.go","base/types.go","base/transformers.go"],[("bounds test before access","object/parsers.go"),("comparison delegated to the slice","object/parsers.go Seq, ObjClass, ObjClassN")],["access log of the simulated slice","result context"])
p("C14","Production rules reduce in the declared order and fail cleanly",
 "Applying production rules repeatedly takes the first precedence level, in declared order, that has a matching rule, at the leftmost (or, for right-to-left levels, rightmost) matching position, replaces exactly the matched tokens by the rule's result, and starts again, until the completion check accepts; it reports an error when no rule matches and the check does not accept. The token list given as input is never modified, the user tag is visible to the rules, and an error or panic raised by a rule at any reduction ends the process at once and reaches the caller unchanged.",
 ["fault_sequences","inputs","programs"],"for all rule sets whose reductions terminate, all token lists, every rule outcome sequence",
 "The tests run two fixed rule sets on about twenty well-formed formulas and never make a rule fail.",
 ["base/production.go","_examples/formula/precedence.go","_examples/torpn/precedence.go"],[("restart after every reduction","base/production.go ProductionRule")],["sequence of rule invocations and reductions, final list, error, input list afterwards"])
p("C15","CSV records survive storage damage; struct import is all-or-nothing",
 "Records of text written by the CSV writer read back exactly as written (a record made of a single empty cell excepted, as blank lines carry no record), with or without line breaks behind the last of them. If the stored text is cut off, overwritten, or has a chunk lost or repeated at any byte, reading either fails with an error or returns every record that ended before the first damaged byte exactly as written; it never panics. Importing CSV into structs either fills the destination completely, every exported field of a supported kind (text, integer, float) that has a column from its cell, or returns an error and leaves the destination as it was.",
 ["crash_points","fault_sequences","inputs"],"for all record sets, all damage positions and kinds",
 "Five fixed documents are parsed; writing, importing and exporting have no test, and the only damaged input is one missing final quote.",
 ["_examples/csv/parser.go","_examples/csv/marshal.go"],[("quoting on write","_examples/csv/marshal.go toCsvRow"),("quoted cell grammar","_examples/csv/parser.go quotedCell"),("destination assigned at the end","_examples/csv/marshal.go Unmarshal")],["rows or error from reading damaged text","destination slice after a failed import"])
p("C16","CSV struct export and import are deterministic",
 "Exporting the same structs with the same columns always gives the same text, and importing the same text always gives the same values or the same error, under every iteration order of the runtime's hash maps and whatever was exported or imported before. Each exported row holds under every requested column the value of the field of that column, and fields that were not requested do not appear.",
 ["schedules","inputs"],"for all map iteration orders, struct types, column lists and earlier exports and imports",
 "Export and import have no tests, and the runtime picks a map order at random, so a test samples few of them.",
 ["_examples/csv/marshal.go"],[("field/column mapping through maps","_examples/csv/marshal.go Marshal, Unmarshal")],["text, values and errors under simulated map orders"],
 [("mapping, columns","field to column and column to index maps","_examples/csv/marshal.go")])
p("C17","A failed write to a variable box changes nothing",
 "A box over a Go value or over a map entry behaves as a register: a read returns the last value successfully written through it or through another box of the same storage (as the storage's own type holds it, where that is a narrower number). A write that fails (wrong type, nil map, unsettable target) panics and changes neither the storage nor the box. A not-yet-initialised box refuses every read, with its documented message, until the first successful write through it.",
 ["histories","fault_sequences"],"for all operation sequences over shared storage with failing writes at any point",
 "The boxes have no test.",
 ["base/box.go"],[("initialised flag set only after the store","base/box.go NotInitializedMapContainerReflectionBox")],["values read, panics, underlying storage"],
 [("initialised flag","whether a write succeeded","base/box.go")])
p("C18","Damaged text never crashes a parser and damage stays local",
 "Parsing text that was truncated, overwritten or garbled at any byte, inside multi-byte characters included, with the string parsers, the number, identifier and word-boundary parsers, or the bundled front ends always returns a match, a mismatch or an error: it never panics, never hangs, and never moves the position outside the source or backwards. Single-character parsers consume exactly one character, or one byte where the text is damaged, so intact characters around the damage are still delivered unchanged.",
 ["fault_sequences","inputs"],"for all documents, damage positions and kinds",
 "All test inputs are short well-formed ASCII; none is truncated inside a character.",
 ["string/parsers.go","string/transformers.go","extra/extra.go","extra/transformers.go","base/util.go","_examples/formula/formula.go","_examples/formula/precedence.go","_examples/torpn/torpn.go","_examples/csv/parser.go"],[("decode one rune at a time, length from the decoder","string/parsers.go"),("length test before slicing","string/parsers.go Seq, SeqI, CharClass"),("number conversion errors","string/transformers.go")],["status, position, tokens, recovered panic"])
# --- not applicable to this technique (pure functions of one input) ---
p("C19","Terminal parsers accept exactly the documented characters",
 "Each character, class, range and sequence parser for strings matches exactly the characters its documentation lists and no others.",
 ["inputs"],"for all characters and positions","Most string tests are empty stubs.",["string/parsers.go","string/util.go","string/const.go"],[("character tests","string/parsers.go")],["match status"])
p("C20","Number literals and conversions give the documented value",
 "The number-literal parsers accept exactly the documented literal forms, drop digit separators, and the conversion transformers give the mathematical value in the requested radix or an error.",
 ["inputs"],"for all literals and radices","The conversion tests are empty stubs.",["extra/extra.go","string/transformers.go"],[("literal grammar","extra/extra.go"),("conversions","string/transformers.go")],["token value"])
p("C21","Dates and times are normalised correctly",
 "The ISO 8601 date, time and date-time parsers complete omitted parts as documented and the conversions give the corresponding instant in UTC or an error.",
 ["inputs"],"for all date and time strings","No tests.",["extra/extra.go","extra/transformers.go"],[("grammar and time.Parse","extra/")],["time value"])
p("C22","Formula and RPN examples compute the value of the expression",
 "The formula front end returns the value of the expression under the usual precedence, and the RPN front end returns a postfix form of the same expression.",
 ["inputs"],"for all expressions","About twenty fixed expressions.",["_examples/formula/formula.go","_examples/formula/precedence.go","_examples/torpn/torpn.go","_examples/torpn/precedence.go"],[("grammar and production rules","_examples/")],["returned value"])
p("C23","Line and column reports match the source",
 "The line, column and quoted source excerpt reported for a position are those of the source, for all line-break conventions and tabs.",
 ["inputs"],"for all sources and positions","No test looks at the reported location.",["base/util.go"],[("scan up to the position","base/util.go GetLineAndColPosition")],["returned location"])
p("C24","Tokens carry their own length",
 "Every token carries the length of its own text in the source.",
 ["inputs"],"for all inputs","Tests do not compare source positions.",["string/parsers.go","object/parsers.go"],[("source position copied into the token","string/parsers.go")],["token source position"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
