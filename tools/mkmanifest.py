#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ trace validation (TLC): generated designs run in nvc, their logs checked against "
CHECKS = {
 "C01": (TV + "spec/Kernel.tla", "Random assignment programs over scalar and composite, resolved and guarded signals; every log accepted or rejected by the LRM waveform editing rules in the specification. Sampled programs, deterministic oracle."),
 "C02": (TV + "spec/Kernel.tla; TLC exploration of all process orders (KernelMC)", "Random process and wait programs, run in all engines and with shuffled processes; the model also enumerates every order of running the ready processes of generated designs. Sampled programs, deterministic oracle."),
 "C03": (TV + "spec/Kernel.tla", "Random hierarchies of entities, components and blocks up to depth three with ports of every mode, associated whole, by element, slice or individually, through conversion functions of scalars and arrays, with resolved and unresolved types; collapsed and not. Sampled designs, deterministic oracle. Excluded: in ports fed by inout ports (known finding), composite resolution functions."),
 "C04": (TV + "spec/Kernel.tla", "Random programs logging predefined attributes and implicit signals of whole signals, elements and slices. Sampled programs, deterministic oracle."),
 "C05": (TV + "spec/Kernel.tla", "Random programs that drive, force and release whole signals, elements and slices, with observers of values, events, activity and implicit signals. Sampled programs, deterministic oracle."),
 "C06": (TV.replace("designs", "programs") + "spec/Seq.tla", "Random sequential programs without run-time errors, each run in the interpreter, JIT compiler and ahead-of-time compiler at several optimisation levels; the specification computes every logged value. Sampled programs, deterministic oracle."),
 "C07": (TV.replace("designs", "programs") + "spec/Seq.tla", "Random sequential programs that may run into errors; the specification decides where the first error is and of which kind. Sampled programs; the order of evaluation inside one statement is left open."),
 "C24": (TV.replace("designs", "programs") + "spec/Attr.tla", "Random scalar and array types and random attribute, string, shift, logical, relational, concatenation and conversion items evaluated on literals, variables and parameters, in several engines; the specification gives every value. Sampled programs, deterministic oracle. Excluded (known findings): bounds of null arrays through unconstrained parameters, concatenation of two null arrays; real numbers are only checked for rounding to integer."),
 "C08": (TV.replace("designs", "programs") + "spec/Heap.tla; allocator histories against spec/Mspace.tla", "Random programs building, sharing, mutating, copying and dropping linked structures with a heap of any size (small ones so that the collector runs often), in several engines; and random histories of the allocator itself through a driver program: addresses, contents and interior pointers. In Heap.tla objects live for ever, so any visible effect of a collection is rejected. Memory may be reported exhausted only when the specification says it may be."),
 "C19": ("TLA+ trace validation (TLC): operation histories recorded from the real library code (harness/adt.c) checked against spec/Adt.tla (sequential) and spec/Lin.tla (linearizability of concurrent histories)", "Random histories of the hash tables, sets, identifiers, bit masks, priority queue and arrays with colliding keys, growth and word boundaries; concurrent histories of the concurrent table and the identifier table are accepted if some linearization explains them. Sampled histories and schedules."),
 "C21": (TV.replace("designs", "programs") + "spec/Ieee.tla", "Random operands (lengths 0 to 130, any bounds and direction, metavalues) for the logical, matching, arithmetic, comparison, shift, resize, conversion, string and search functions of std_logic_1164 and numeric_std (2008), with and without nvc's built-in replacements of these functions, interpreted and compiled; the specification computes every result on sequences of element positions. Sampled operands, deterministic oracle."),
  "C17": (TV + "spec/Run.tla", "Random designs of up to four processes with reports and assertions of every severity, stop and finish with and without status, run-time errors, timed and delta loops, activity without processes, reports in initial values, and in VHDL-2019 the assertion control of std.env; under random --stop-time, --stop-delta and --exit-severity, in one process or with elaboration and run in separate ones. The whole sequence of messages and the exit status must be a behaviour of the specification, which leaves the order of processes in a cycle, and whether the rest of the cycle that ends the run is executed, open."),
  "C09": (TV + "spec/File.tla", "Random histories of operations on up to three file objects and names over twelve element types (integers, enumerations, arrays, records, unconstrained arrays, text lines), in several processes, through file parameters, local file objects and declarations, including statuses, errors that end the run, the positioning operations of VHDL-2019, and the bytes left on disk; in several engines. Sampled histories, deterministic oracle. Known finding: lengths of values of unconstrained array types are not kept."),
  "C10": (TV + "spec/Psl.tla", "Random clocked traces of bit, boolean and std_logic signals and random directives (assert, never, cover) over Boolean expressions and built-in functions, next, next[n], implication, or, <->, until, until_, before, before_ (weak and strong), sync_abort, suffix implication and sequences with concatenation, fusion, repetition, goto and non-consecutive repetition and length-matching conjunction: the ticks at which every directive reports, and the reports at the end of the run, must be those of the weak semantics of finite prefixes. Sampled traces, deterministic oracle. Known findings: see known/C10-*."),
  "C15": (TV + "spec/Names.tla", "Random designs with up to four packages, use clauses in contexts, entities, architectures, blocks, processes and subprograms, nested regions with constants, subtypes, enumerations and overloaded functions (with defaults) of four names, loop and generate parameters, and references to them (simple, selected and expanded names, nested calls): the set of rejected references and the declaration each of the others denotes must be what the specification resolves. Sampled designs, deterministic oracle. Not judged: three known deviations (known/C15-*); expanded names of formal parameters (a unit test has them rejected)."),
  "C12": (TV + "spec/Wave.tla", "Random hierarchies (instances, blocks, generates, packages) of signals and ports of scalar, vector, record and nested array types, random assignments with delta cycles, include and exclude globs on the command line and in files, --dump-arrays with limits, --no-collapse, VCD and FST (read back with a converter built from the repository's reader): the set of variables and the history of each must be what the specification derives, and the messages of the run the same as without a dump. Sampled designs, deterministic oracle. Known findings: arrays of enumeration types, nested arrays of reals or physical values, collapsed ports connected to a part of a signal, dumps without any variable."),
 "C16": (TV + "spec/Elab.tla", "Random hierarchies of entities with several architectures, components, direct and configuration instantiation, for, if and case generates, blocks with generics, configuration specifications and nested configuration declarations, command-line generics and a chosen top-level architecture or configuration: every elaborated scope with its instance name and a value computed from the generics must be what the specification elaborates. Sampled hierarchies, deterministic oracle. Known findings: indexed block configurations; configuration of a removed generate."),
  "C22": (TV.replace("designs", "source files") + "spec/Cond.tla", "Random source files with nested conditional analysis blocks within and between statements, conditions of every operator over command-line and predefined identifiers, `warning and `error directives, and erroneous files (stray or missing directives, undefined identifiers): the statements executed with their line numbers, the warnings and the first error must be what the specification selects. Sampled files, deterministic oracle."),
}
NOT = {
 "C25": "Memory safety on arbitrary bytes is a property of the C program's memory accesses, not of a state machine over observable states; a TLA+ specification has nothing to say about it (fuzzing with sanitizers is the right technique).",
}
checks = []
for p, (tech, note) in sorted(CHECKS.items()):
    f = "checks/%s.py" % p.lower()
    checks.append({"property": p, "quick_cmd": "python3 %s quick" % f, "thorough_cmd": "python3 %s thorough" % f,
                   "technique": tech, "level": "model_checking", "level_note": note})
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NOT.get(p, "no check built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "python3 vk/build.py libs adt libs19 fst2vcd", "checks": checks, "not_applicable": na,
     "notes": "All checks build nvc from /repo's working tree into /verif/.build with their own ninja file; no hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
