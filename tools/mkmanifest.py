#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = "Trusts the instrumenter and the scheduler (determinism is audited on every run by repeating runs in other processes with 1, 3 and 8 processors). Seeded sampling of cases, schedules and faults: no violation among the runs made is evidence, not proof. "
CH = {
 "C01": ("deterministic simulation: seeded statement-level schedules with callback faults, every parse compared with the same parse alone on a fresh parser", "Oracle is the library itself run alone, so an error that a lone parse makes as well is left to C05."),
 "C02": ("deterministic simulation: seeded schedules of a build in which only the code under test is instrumented for happens-before race detection", "The simulator itself adds no ordering between tasks; races are judged by the Go race detector on the simulated schedule; a race is counted only when both accesses belong to takenoco code."),
 "C03": ("deterministic simulation: seeded histories of faulted parses on one parser, next parse compared with a freshly built parser", "Oracle is the library itself on a fresh parser."),
 "C04": ("deterministic simulation: seeded histories and schedules with faults, deep fingerprints of held results and caller data checked after every operation", "Fingerprints cover tokens up to the capacity that the caller holds; caches private to the library are not looked at."),
 "C05": ("deterministic simulation: every sub-parser answer and fault decided by a seeded environment, refinement against a reference model of the combinators", "The model is written from the documentation and the code's public constants; misuse (a stack match that takes tokens of others under a transformation, roll by more than there is) is not judged."),
 "C06": ("deterministic simulation: seeded faulted attempts, outcome compared with the run in which the doomed attempt is cut down to an immediate failure", "Metamorphic: the library run without the doomed attempt is the oracle."),
 "C07": ("deterministic simulation: single seeded error or panic injected at one callback invocation, event log checked", "Every callback kind the grammars can hold is injectable; one fault per parse."),
 "C08": ("deterministic simulation: seeded schedules of first uses with constructor stalls, panics and goroutine exits, invariants on the constructor log", "Simulated sync package: lock, once, condition, wait group, pool, map semantics are those of package sync."),
 "C09": ("deterministic simulation: seeded schedules with stalls, exits, panics and re-entrant parses, bounded-progress and leak check", "Progress is judged within a step bound far above what any of the generated parses needs; stalled constructors of deferred parsers may block others."),
 "C10": ("deterministic simulation: seeded schedules and faults, traced parse compared with the untraced one and its event log checked for balance", "Traced parsers are built by one goroutine at a time, as the documentation asks."),
 "C11": ("deterministic simulation: every callback answer (error, throw, jump, panic) seeded, callback log compared with a reference model of the traversal", "Documented misuse (break combined with a jump, jumps before the first item) is not judged."),
 "C12": ("deterministic simulation: seeded schedules of traversals with faults over one tree, tree fingerprints and results compared with lone runs", "Callbacks get the library's tokens by value and do not write through pointers inside them."),
 "C13": ("deterministic simulation: the caller's slice is a simulated device with seeded equality and panics, access log and outcome compared with a reference model", "Out-of-range accesses and accesses after a panic are seen by the device itself."),
 "C14": ("deterministic simulation: seeded rules, completion checks, faults and schedules, reductions compared with a reference model", "Errors of a completion check count as not accepted, as documented by the code."),
 "C15": ("deterministic simulation: seeded storage faults on written CSV text, reads checked against the records written", "Storage damage is applied to the text between writer and reader."),
 "C16": ("deterministic simulation: map iteration order decided by seeded scheduler, exports and imports compared across orders and with a reference table", "Map iteration in the code under test is redirected to the simulator."),
 "C17": ("deterministic simulation: seeded histories of writes and refused writes (wrong type, nil map, unsettable target), registers compared with a reference model", "Typed writes to interface variables and writes of nil may be accepted or refused."),
 "C18": ("deterministic simulation: seeded storage faults on source text, invariants on panics, progress, position and delivered characters", "What an undamaged text means is C19 to C23 (not claimed)."),
}
NA = {
 "C19": "Character classification is a pure function of one character: no schedule, fault, time, I/O or history can change it, so simulation has nothing to decide (that damaged text does not change which characters are delivered is C18).",
 "C20": "The value of a literal is a pure function of its text; no nondeterminism or environment is involved.",
 "C21": "Date and time normalisation is a pure function of the text (the code reads no clock and no time zone of the host).",
 "C22": "The value of an expression is a pure function of its text; concurrent use is C01, faults inside the rules C14, damaged text C18.",
 "C23": "Line, column and excerpt are a pure function of source and position.",
 "C24": "A local fact about one field of a token, a pure function of one input; the code keeps that field only for some tokens and documents it nowhere.",
}
m = {
 "version": 1,
 "setup_cmd": "/verif/check.sh setup",
 "checks": [{
   "property": k, "quick_cmd": "/verif/check.sh %s quick" % k, "thorough_cmd": "/verif/check.sh %s thorough" % k,
   "technique": t, "level": "exploration", "level_note": ENV + n} for k, (t, n) in CH.items()],
 "not_applicable": [{"property": k, "reason": r} for k, r in NA.items()],
 "notes": "One simulator (sim/) decides every property. It copies /repo's current non-test sources to a scratch folder, inserts scheduling points and seams there (no hook in /repo), builds, and runs seeded simulations. Replays: /verif/check.sh replay FILE.",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
