#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=False):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Signal assignments edit the projected waveform as the LRM says",
  "For every sequence of signal assignments executed on a driver (transport, inertial with or without a reject limit, several waveform elements, null transactions, any delays, executed at any times) the driver takes exactly the values, at exactly the times, given by the rules for editing the projected output waveform in the VHDL standard: later transactions are deleted, inertial assignments delete the pulses inside the rejection window and nothing else, and a delay of zero takes effect in the next delta cycle.",
  ["programs", "histories"],
  "All sequences of assignments to one or more drivers, with any combination of delay mechanism, values and times, interleaved with the simulation's own progress.",
  "The regression tests exercise a few dozen fixed assignment sequences; the number of ways pending transactions can overlap a new assignment is combinatorial and the tests only look at the ones somebody thought of.",
  ["src/rt/model.c", "src/lower.c"],
  [("projected waveform queue of a source", "src/rt/model.c: sched_driver, insert_transaction"),
   ("driver update event", "src/rt/model.c: update_driver, deltaq/eventq"),
   ("null transactions", "src/rt/model.c: sched_disconnect, x_sched_waveform")],
  observe="values and times reported by a process sensitive to the signal, in the simulator's log")

p("C02", "The simulation cycle: time, deltas and process resumption",
  "In every run, simulated time moves only to the earliest pending transaction or wait timeout; within a cycle all signals are updated before any process resumes; a process resumes exactly when the sensitivity, condition and timeout of its wait statement say so; postponed processes run only in the last delta cycle of a time step. What the processes observe does not depend on the order in which the simulator happens to run them.",
  ["programs", "schedules"],
  "All networks of processes communicating through signals, all wait statements (on, until, for, combinations, forever), and all orders of executing the processes resumed in one cycle.",
  "A regression test is one program under one scheduling order; the guarantee is about every program and every order within a cycle, and mistakes show only for particular coincidences of timeouts, events and deltas.",
  ["src/rt/model.c", "src/rt/heap.c", "src/lower.c"],
  [("simulation cycle", "src/rt/model.c: model_cycle, run_process, deltaq, eventq"),
   ("wait statements", "src/rt/model.c: sched_event, clear_event, x_sched_process, x_implicit_signal"),
   ("priority queue of timed events", "src/rt/heap.c")],
  observe="time, delta and text of report statements of every process")

p("C03", "Resolved values and port propagation",
  "The driving and effective value of every signal, including elements and slices of composite signals, is at every cycle the value the standard derives from its sources: the single driver, the resolution function applied to exactly the connected non-null sources (a default value if there is none), and values passed through in, out, inout and buffer ports and their conversion functions in both directions. Whether or not the simulator collapses ports into the signals they are connected to makes no difference to what any process observes.",
  ["programs", "histories", "configurations"],
  "All hierarchies of ports of any mode and width, any partial association of elements and slices, any conversion functions and sets of drivers, any stimulus; with and without port collapsing.",
  "Tests fix a few port maps and stimuli. Splitting of a signal into pieces, collapsing and multi-source resolution interact, and a wrong value appears only for certain overlaps of association and assignment.",
  ["src/rt/model.c", "src/lower.c", "src/elab.c"],
  [("splitting a signal into nexuses", "src/rt/model.c: split_nexus, clone_nexus, clone_source"),
   ("driving and effective values", "src/rt/model.c: driving_value, calculate driving, update_effective, x_map_signal"),
   ("resolution functions and memoisation", "src/rt/model.c: call_resolution, memo_resolution_fn"),
   ("conversion functions", "src/rt/model.c: convert_driving, x_convert_in, x_convert_out")],
  observe="values reported by processes in every architecture of the hierarchy")

p("C04", "Predefined signal attributes follow the signal's history",
  "At every point of every simulation the attributes 'event, 'active, 'last_event, 'last_active, 'last_value, 'stable(T), 'quiet(T), 'delayed(T), 'transaction, 'driving and 'driving_value have the values the standard defines from the history of transactions and events of the signal and of the process's driver, and the implicit signals among them have events exactly when those values change.",
  ["programs", "histories"],
  "All histories of assignments to a scalar or array signal, all times T, and all moments at which an attribute is read.",
  "Each test reads an attribute in a handful of situations; the definitions quantify over the whole past of the signal, with corner cases at coincident times, at time zero and with several implicit signals on one prefix.",
  ["src/rt/model.c", "src/lower.c"],
  [("event and activity flags, last event/active/value", "src/rt/model.c: x_last_event, x_test_net_event, x_test_net_active, last_value"),
   ("implicit signals", "src/rt/model.c: update_implicit_signal, x_implicit_signal"),
   ("driving attributes", "src/rt/model.c: x_driving, x_driving_value")],
  observe="attribute values printed by observer processes")

p("C05", "Force and release override and restore signal values",
  "From the cycle after a force assignment takes effect, the signal has the forced effective (or driving) value whatever its drivers do, until it is forced again or released; after a release the value is again the one its sources give, including all changes they made while the force was active.",
  ["programs", "histories"],
  "All interleavings of force, release and ordinary assignments, of modes in and out, on scalars, elements and whole arrays, from one or several processes, over signals and ports.",
  "The tests contain a handful of force/release sequences; interactions with pending transactions, with simultaneous driver events and with parts of composite signals need exhaustive combination.",
  ["src/rt/model.c", "src/lower.c"],
  [("force and release statements", "src/rt/model.c: x_force, x_release, force_signal, release_signal"),
   ("forced values", "src/rt/model.c: get_forcing, NET_F_FORCED")],
  observe="values reported by observer processes")

p("C06", "Sequential code computes the values the language defines, in every engine",
  "Every sequential program (integer and enumeration arithmetic, arrays, records, loops, exits, case statements, functions and procedures with parameters of every mode, recursion and nested subprograms) computes the result the language defines for it. The result, and whether it ends in an error, is the same in the interpreter, in just-in-time compiled code, in ahead-of-time compiled code, at every optimisation level, and when the compiler folds the expression at analysis or elaboration time.",
  ["programs", "inputs", "configurations"],
  "All well-formed programs of the language subset and input values, and all execution engines and optimisation levels.",
  "The test programs are fixed and mostly run in one engine; an optimiser or code-generation error needs a particular combination of operations, values and control flow.",
  ["src/lower.c", "src/vcode.c", "src/simp.c", "src/eval.c", "src/jit/jit-interp.c", "src/jit/jit-irgen.c", "src/jit/jit-optim.c", "src/jit/jit-llvm.c", "src/mir"],
  [("lowering to intermediate code", "src/lower.c, src/vcode.c, src/mir"),
   ("interpreter", "src/jit/jit-interp.c"),
   ("optimiser", "src/jit/jit-optim.c: lvn, cprop, dce, cfg"),
   ("LLVM code generation", "src/jit/jit-llvm.c, src/cgen.c"),
   ("constant folding", "src/simp.c, src/eval.c")],
  observe="values reported by the running program and its exit status")

p("C07", "Run-time checks fire exactly when the language says they must",
  "A program stops with an error exactly at the first operation that violates the language's run-time rules: value outside the range of its subtype, array index or slice outside bounds, array length mismatch, integer overflow, division by zero, dereference of a null access value, function ending without return. Programs that respect the rules are never stopped, and checks removed by the compiler because they cannot fail really cannot fail.",
  ["programs", "inputs"],
  "All operations on all values at and around the bounds of every range (ascending, descending and null ranges), in every execution engine.",
  "Tests check one failing value per kind of check; a check dropped or moved by the optimiser, or an off-by-one for one direction of a range, is visible only for particular bounds and values.",
  ["src/lower.c", "src/vcode.c", "src/bounds.c", "src/simp.c", "src/jit/jit-irgen.c", "src/jit/jit-exits.c"],
  [("emitting checks", "src/lower.c: lower_check_scalar_bounds, lower_check_array_sizes, lower_array_ref"),
   ("removing redundant checks", "src/vcode.c: emit_range_check, vcode_elide_bounds"),
   ("static bounds checks", "src/bounds.c"),
   ("reporting", "src/jit/jit-exits.c")],
  observe="exit status, message kind and source line of the failing operation")

p("C08", "Access values and heap objects survive garbage collection",
  "An object created by an allocator keeps its value, and keeps being reachable through every access value that designates it, until it is deallocated or becomes unreachable, whatever the size of the heap and whenever the collector runs; distinct live objects never overlap. A program whose live data fits never sees the effects of collection, and deallocate always leaves a null access value.",
  ["programs", "schedules", "configurations"],
  "All programs building, sharing, mutating and dropping linked structures (records, arrays, pointers to pointers, pointers held by variables, parameters and protected objects), all points at which collection occurs, all heap sizes that hold the live data.",
  "Tests allocate little and collection rarely runs; a missed root shows only if the collector runs at a particular point with a particular pointer as the only reference.",
  ["src/rt/mspace.c", "src/jit/jit-core.c", "src/jit/jit-interp.c"],
  [("allocation and mark-sweep", "src/rt/mspace.c: mspace_alloc, mspace_gc, mspace_mark_root"),
   ("free list splitting and coalescing", "src/rt/mspace.c: mspace_try_alloc"),
   ("roots", "src/rt/mspace.c: mptr_t, stack scanning; thread-local allocation buffers")],
  observe="contents of the structures as traversed and printed by the program, under different heap sizes and forced collection")

p("C09", "File objects behave as sequences of values",
  "For every sequence of file operations (open in each mode, close, read, write, end-of-file test, flush) the values read back are exactly those written, in order; opening for write empties the file, for append keeps it; the status results and errors of wrong operations (unopened file, wrong mode, reading past the end, nonexistent name, double open) are those the standard defines.",
  ["programs", "histories"],
  "All sequences of operations on several file objects over several element types, names and modes.",
  "The tests contain a few straight-line uses; the property is about all histories, including reopening, several objects on one file and error statuses.",
  ["src/rt/fileio.c", "src/lower.c", "lib/std/textio.vhd"],
  [("file objects", "src/rt/fileio.c: file_open, file_write, file_read, endfile"),
   ("text input and output", "lib/std/textio-body.vhd")],
  observe="statuses and values printed by the program, and file contents left behind")

p("C10", "PSL assertions and covers report exactly the failing and passing traces",
  "For every clocked trace of the observed signals, an assert directive over the supported simple-subset properties (always, never, next, next[n], before, until, implication, sequences with concatenation and repetition) reports a failure exactly at the clock ticks where the property's definition first becomes false, and a cover directive reports exactly at the ticks where its sequence is matched.",
  ["programs", "histories"],
  "All properties built from the operators of the supported subset and all signal traces.",
  "Each test pairs one property with one trace; the monitor is an automaton built from the property, whose faults show on other traces.",
  ["src/psl/psl-fsm.c", "src/psl/psl-lower.c", "src/psl/psl-parse.c"],
  [("automaton construction", "src/psl/psl-fsm.c: build_node, connect_default, connect_epsilon"),
   ("automaton execution", "src/psl/psl-lower.c")],
  observe="time and text of PSL assertion failures and cover messages in the log")

p("C11", "Coverage reports count what was executed, and merging adds counts",
  "For every run with coverage enabled, each statement, branch outcome, signal toggle, expression and state coverage item is reported as covered exactly when it happened in that run (with the threshold respected), and collecting coverage does not change simulation results. Merging the databases of several runs gives exactly the item-by-item combination of their counts, in any order.",
  ["programs", "histories", "inputs"],
  "All programs and stimuli, all sets of enabled coverage types, and all orders of merging.",
  "Tests compare a few golden reports; counts and toggles depend on the history of the run and errors appear for particular interleavings of assignments or particular branches.",
  ["src/cov/cov-api.c", "src/cov/cov-export.c", "src/cov/cov-report.c", "src/rt/cover.c", "src/lower.c"],
  [("placing counters", "src/lower.c and src/cov: cover_add_items_for"),
   ("runtime counters and toggle callbacks", "src/rt/cover.c"),
   ("database merge and export", "src/cov/cov-api.c: cover_merge_items; src/cov/cov-export.c")],
  observe="exported coverage report and database")

p("C12", "Waveform dumps record the signal history",
  "A waveform dump, in every supported format, contains for every selected signal exactly its sequence of values: the initial value, and the value it had at the end of each time step in which it changed, under the hierarchy and name of the signal; include and exclude patterns select exactly the signals they name, and dumping does not change the simulation.",
  ["programs", "histories", "configurations"],
  "All designs (scalars, arrays, records, integers, enumerations, ports, nested instances) and stimuli, both dump formats, all include and exclude patterns.",
  "Tests compare a few golden files; what is dumped depends on types, on delta activity within a time step and on pattern matching.",
  ["src/rt/wave.c", "thirdparty/fstapi.c"],
  [("dumper", "src/rt/wave.c: wave_dumper_new, fst_event_cb, vcd formatting"),
   ("glob matching of include and exclude patterns", "src/rt/wave.c: wave_should_dump")],
  observe="the VCD (and converted FST) file compared with the values the design itself reports")

p("C13", "Foreign-language interface callbacks and values match the simulation",
  "Every callback registered through the VHPI foreign interface fires exactly at the simulation phase and time it was registered for, once or repeatedly as its kind says, and never after it is removed or while disabled; values and times read in it are those of the simulation at that point, and values put by it (deposit, force, release) take the defined effect.",
  ["programs", "schedules", "histories"],
  "All sequences of registering, enabling, disabling and removing callbacks (value change, after delay, next time step, start and end of cycle phases, end of simulation), from inside and outside other callbacks.",
  "Each VHPI test registers one fixed set of callbacks; the interplay of several, with removal during dispatch, is not explored.",
  ["src/vhpi/vhpi-model.c", "src/rt/model.c"],
  [("callback objects", "src/vhpi/vhpi-model.c: vhpi_register_cb, vhpi_remove_cb, vhpi_disable_cb"),
   ("phase callbacks of the kernel", "src/rt/model.c: model_set_global_cb, model_set_timeout_cb, global_event, call_watch"),
   ("values", "src/vhpi/vhpi-model.c: vhpi_get_value, vhpi_put_value")],
  observe="sequence of callbacks with time, cycle and values as logged by a plugin")

p("C14", "The design library never mixes inconsistent units",
  "After any history of analysing, re-analysing, elaborating and running design units in one or several libraries, by one or several simultaneous processes, a design is elaborated from the most recent successful analysis of each unit, a unit whose dependencies were re-analysed after it is rejected as obsolete rather than silently used, and a failed analysis leaves the previous contents usable. No unit analysed successfully is lost.",
  ["histories", "schedules", "fault_sequences"],
  "All histories of commands over a set of interdependent units (packages, bodies, entities, architectures, configurations) and all interleavings of simultaneous commands on one library.",
  "Tests run one command sequence each, from one process.",
  ["src/lib.c", "src/object.c", "src/vcode.c", "src/nvc.c"],
  [("library index and locking", "src/lib.c: lib_save, lib_read_index, lib_ensure_writable, file_read_lock"),
   ("dependency checks", "src/lib.c: lib_get_check_stale; src/object.c checksums of dependencies")],
  observe="exit status and messages of each command, and the values printed by the elaborated design")

p("C15", "Names denote the declaration the visibility rules select",
  "Every use of a name denotes exactly the declaration given by the language's scope and visibility rules: innermost directly visible declaration, hiding of homographs, use clauses making names potentially visible with conflicts cancelling each other, selected names, and overload resolution by argument and result types; a name with no or several possible meanings is rejected.",
  ["programs"],
  "All nestings of declarative regions, packages and use clauses with all coincidences of names and overloaded profiles.",
  "Tests include some dozens of fixed cases; the rules combine nesting, order, use clauses and overloading, and an error needs a specific combination.",
  ["src/names.c", "src/parse.c", "src/sem.c"],
  [("scopes and symbol lookup", "src/names.c: scope_find, iterate_symbol_for, query_name"),
   ("overload resolution", "src/names.c: finish_overload_resolution, solve_types")],
  observe="which declaration's value the program prints, or rejection with an error, for each use")

p("C16", "Elaboration builds exactly the described hierarchy",
  "Elaborating a design creates exactly the instances, generate iterations and alternatives, and blocks that the generics, ranges and conditions of the source select, each bound to the entity and architecture chosen by direct instantiation, default binding, configuration specification or configuration declaration, with the generic values given by map, default or command-line override, and with the hierarchical path names the standard defines.",
  ["programs", "configurations"],
  "All hierarchies built from for-, if- and case-generates, components, direct instantiation, blocks and configurations, with all generic values.",
  "Tests elaborate fixed designs; binding depends on combinations of generics, generate parameters and configuration items.",
  ["src/elab.c", "src/simp.c", "src/rt/ename.c"],
  [("instance creation and binding", "src/elab.c: elab_architecture, elab_component, elab_default_binding, elab_find_spec"),
   ("generics", "src/elab.c: elab_generics, generic overrides"),
   ("generate statements", "src/elab.c: elab_for_generate, elab_if_generate, elab_case_generate")],
  observe="path names and generic values reported by every instance at time zero")

p("C17", "Runs end when, and with the status, they should",
  "A simulation ends exactly when no activity is left, or at the stop time, at the iteration (delta cycle) limit, on a stop or finish call, or at the first assertion or report whose severity reaches the configured stop severity, having executed everything before that point; the process that ends the run executes nothing further and no later cycle begins. The exit status is the one given to the stop call if there is one, and otherwise non-zero exactly when the status severity was reached, an error occurred or the delta limit was exceeded.",
  ["programs", "configurations"],
  "All programs mixing reports of all severities, stop and finish calls, infinite activity and delta loops, under all combinations of stop-time, stop-delta, exit-severity and assertion-control settings.",
  "Tests use one setting each; the guarantee is about all combinations of where the stopping condition arises.",
  ["src/nvc.c", "src/rt/model.c", "src/rt/assert.c", "src/diag.c", "src/rt/stdenv.c"],
  [("end conditions", "src/rt/model.c: should_stop_now, model_run, model_can_create_delta; src/nvc.c: run_cmd"),
   ("severity handling", "src/rt/assert.c, src/diag.c"),
   ("stop and finish", "src/rt/stdenv.c, src/rt/simpkg.c")],
  observe="log and exit status")

p("C18", "Locks, work queues and barriers keep their contracts under every schedule",
  "Under every interleaving of threads, the lock used inside the simulator gives mutual exclusion and loses no wake-up; work queues run every queued task exactly once and finish only after all have run; asynchronous tasks and futures complete exactly once; stopping the world leaves no other thread running until it is restarted.",
  ["schedules"],
  "All interleavings of any number of threads locking, queueing, waiting, stealing and stopping the world.",
  "The unit tests run a few threads for a short time under whatever schedule the machine happens to produce.",
  ["src/thread.c"],
  [("lock and parking lot", "src/thread.c: nvc_lock, nvc_unlock, lock_park_cb, thread_park, thread_unpark"),
   ("work stealing deque", "src/thread.c: push_bot, pop_bot, pop_top"),
   ("work queues", "src/thread.c: workq_do, workq_start, workq_drain, async_do"),
   ("stop the world", "src/thread.c: stop_world, start_world")],
  observe="histories of lock, task and stop events recorded by test programs linked with the simulator's library, and the specification of the algorithm")

p("C19", "Internal tables and queues refine their abstract data types",
  "For every sequence of operations, the hash tables, sets, interned-identifier table, bit masks, priority queue and growable buffers of the simulator return what a mathematical map, set, injective naming, bit vector, priority queue or sequence would return, including across growth and rehashing; tables declared safe for concurrent use do so for every interleaving of concurrent operations.",
  ["histories", "schedules"],
  "All sequences of operations (insert, replace, delete, lookup, iterate, range scans, pattern matching), all key sets with collisions, and concurrent histories of the tables that allow it.",
  "Unit tests make a few dozen operations with fixed or few keys; rehash boundaries, tombstones and word boundaries need particular sizes.",
  ["src/hash.c", "src/ident.c", "src/mask.c", "src/rt/heap.c", "src/array.h", "src/util.c"],
  [("hash tables", "src/hash.c: hash_put, hash_get, hash_delete, chash_put, ghash, ihash, shash, hset"),
   ("identifiers", "src/ident.c: ident_new, ident_prefix, ident_until, ident_runtil, ident_glob"),
   ("bit masks", "src/mask.c"),
   ("event heap", "src/rt/heap.c")],
  observe="operation histories recorded from the real library code")

p("C20", "Verilog processes follow the stratified event order",
  "In the supported subset of Verilog (modules, continuous assignments, always and initial blocks, blocking and non-blocking assignment, delays, event controls, four-state operators, $display and $finish) every run prints the values defined by the standard's four-state arithmetic, and non-blocking assignments take effect after all active events of the same time and before the next, for every design without a race.",
  ["programs", "histories"],
  "All race-free modules of the supported subset and all values of the four-state operands.",
  "There are about two dozen Verilog tests, each with fixed values.",
  ["src/vlog", "src/vpi", "lib/nvc/verilog-body.vhd"],
  [("lowering", "src/vlog/vlog-lower.c, src/vlog/vlog-trans.c"),
   ("four-state library", "lib/nvc/verilog-body.vhd"),
   ("system tasks", "src/vpi/vpi-model.c")],
  observe="$display output")

p("C21", "IEEE logic and arithmetic packages compute their defined functions",
  "For all operand values and lengths, including metavalues and null arrays, the logic operators, resolution, conversions and comparisons of std_logic_1164 and the arithmetic, comparison, shift, resize and conversion functions of numeric_std return the values defined by the IEEE packages, whether they are executed from their VHDL source or by the simulator's built-in replacements.",
  ["inputs", "configurations"],
  "All operands (all nine logic values in every position, all lengths and index ranges, signed and unsigned), and built-in replacements enabled or disabled, vectorised or not.",
  "Tests use particular operands and widths; built-in replacements have separate paths for each width class and for metavalues.",
  ["src/jit/jit-intrin.c", "lib/ieee", "lib/ieee.08"],
  [("built-in replacements", "src/jit/jit-intrin.c: ieee_plus_unsigned, ieee_equal, byte_vector_and, ..."),
   ("dispatch to scalar, SSE and AVX versions", "src/jit/jit-intrin.c: jit_get_intrinsic")],
  observe="results printed by a program applying each function")

p("C22", "Conditional analysis and directives select exactly the intended text",
  "For every nesting of conditional analysis directives and every setting of the predefined and command-line identifiers, exactly the text selected by the conditions is analysed; text that is not selected has no effect, line numbers in messages are unaffected, and unbalanced directives are rejected.",
  ["programs", "configurations"],
  "All nestings of `if, `elsif, `else and `end with all conditions over defined identifiers, comparisons and logical operators.",
  "Tests cover a few fixed nestings.",
  ["src/scan.c", "src/lexer.l"],
  [("directive processing", "src/scan.c: pp_cond_analysis_expr, scan_conditional, pp_defines_add")],
  observe="declarations present in the analysed design and reported line numbers")

p("C23", "Interactive control of a simulation equals the uninterrupted run",
  "Running a simulation from the interactive shell in any number of steps of any length, examining signals in between, restarting it, or forcing and releasing signals, shows exactly the values and messages that a single uninterrupted run shows at those times.",
  ["histories", "programs"],
  "All sequences of run, run for a time, restart, examine, describe, deposit, force and release commands over all designs.",
  "The shell tests are a few fixed scripts.",
  ["src/rt/shell.c", "src/rt/model.c"],
  [("commands", "src/rt/shell.c: shell_cmd_run, shell_cmd_restart, shell_cmd_examine, shell_cmd_force"),
   ("stepping", "src/rt/model.c: model_run, model_step")],
  observe="shell output and simulation log")

p("C24", "Type attributes and predefined conversions agree with the type definition",
  "For every scalar, array and physical type or subtype, 'left, 'right, 'low, 'high, 'ascending, 'length, 'range, 'pos, 'val, 'succ, 'pred, 'leftof, 'rightof, 'image, 'value, to_string, type conversion and the predefined relational, logical and shift operators on arrays have the values the standard defines, 'value of 'image is the identity, and the results are the same when computed by the compiler and at run time.",
  ["programs", "inputs"],
  "All types with any bounds and direction, and all values of them.",
  "Tests sample single values of a few types.",
  ["src/lower.c", "src/simp.c", "src/eval.c", "src/rt/standard.c"],
  [("attribute lowering", "src/lower.c: lower_attr_ref"),
   ("image and value", "src/rt/standard.c, src/lower.c: lower_image_helper, lower_value_helper"),
   ("predefined operators", "src/lower.c: lower_predef")],
  observe="values printed by the program")

p("C25", "No input text corrupts the memory of the compiler",
  "No source text, library file or command line makes the analyser, elaborator or simulator read or write outside its own objects or abort with an internal error; ill-formed input always ends in an ordinary diagnostic.",
  ["inputs"],
  "All byte strings given as source or library files.",
  "The tests give a finite set of well-formed and slightly ill-formed files.",
  ["src/scan.c", "src/parse.c", "src/vlog/vlog-parse.y", "src/fbuf.c"],
  [("lexer and parsers", "src/lexer.l, src/parse.c, src/vlog"), ("library file reader", "src/fbuf.c, src/object.c")],
  observe="sanitizers and exit status")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
