#!/usr/bin/env python3
"""Writes known_findings.json."""
import json, os, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 dict(property="C01", kind="kernel", id="composite-inertial", replay="known/C01-composite-inertial.json",
      what="inertial assignment to a whole array after an earlier pending one deletes the transactions of elements whose "
           "value did not change: s <= transport (1,0) after 1 ns; s <= (1,2) after 3 ns gives s(0)=1 at 3 ns, not 1 ns "
           "(the waveform is edited per group of elements, not per scalar)"),
 dict(property="C02", kind="kernel", id="postponed-timeout", replay="known/C02-postponed-timeout.json",
      what="a postponed process resumed by the timeout of its wait statement runs in the first delta cycle of the time step "
           "instead of the last one (test protected9 of the suite relies on it)"),
 dict(property="C03", kind="text", id="in-from-inout", replay="known/C03-in-from-inout.vhd", pattern=r"0ms\+0: sub 5",
      what="an in port connected to an inout port of the enclosing entity reads the inout port's driving value instead of its "
           "effective value, and the inout port itself then does too (with --no-collapse, or if the ports are associated through "
           "conversion functions)"),
 dict(property="C04", kind="kernel", id="delayed-resolved-initial", replay="known/C04-delayed-resolved-initial.json",
      what="the initial value of S'delayed where S has a resolution function that gives an initial value other than the "
           "declared one is not the initial value of S"),
 dict(property="C04", kind="kernel", id="late-split-event", replay="known/C04-late-split-event.json",
      what="'event and 'last_event of an array element first read after an event on another element of the same array "
           "also count that event"),
 dict(property="C04", kind="kernel", id="late-split-last-value", replay="known/C04-late-split-last-value.json",
      what="'last_value of an array element gives its current value after an event on another element when the array was "
           "only ever assigned as a whole"),
 dict(property="C05", kind="kernel", id="register-release", replay="known/C05-register-release.json",
      what="after a release, a register signal whose drivers are all disconnected keeps the forced value: a force of a signal "
           "changes its driving value in nvc, not (mode in, the default) its effective value"),
 dict(property="C07", kind="text", id="copy-out", replay="known/C07-copy-out.vhd", pattern=r"value 100",
      what="the value of an out or inout scalar parameter is not checked against the subtype of the actual when the procedure "
           "returns (it is passed by reference): p (v) with p assigning 100 leaves 100 in an actual of subtype 0 to 7"),
 dict(property="C07", kind="text", id="abs-low", replay="known/C07-abs-low.vhd", pattern=r"abs true|div true",
      what="the overflow of abs integer'low and of integer'low / -1 is not detected"),
 dict(property="C07", kind="text", id="time-low", replay="known/C07-time-low.vhd", pattern=r"SIGFPE",
      what="time'low / (-1), time'low rem and mod (-1 fs) end nvc with SIGFPE"),
 dict(property="C07", kind="text", id="time-overflow", replay="known/C07-time-overflow.vhd", pattern=r"value -9223372036854775808",
      what="overflow of arithmetic on physical types is not detected: time'high + 1 fs is time'low"),
 dict(property="C07", kind="text", id="call-times-zero", replay="known/C07-call-times-zero.vhd", pattern=r"value 0",
      what="a function called in the initial value of a constant of an architecture is not called if its result is multiplied by "
           "zero: errors and side effects of the call are lost (the pruning of unused calls in architectures is pinned by unit tests)"),
 dict(property="C07", kind="text", id="record-aggregate", replay="known/C07-record-aggregate.vhd", pattern=r"value 100",
      what="elements of a record aggregate are not checked against the subtype of the record's element (unit tests of the "
           "suite pin the code generated for it)"),
 dict(property="C09", kind="text", id="array-lengths", replay="known/C09-array-lengths.vhd", pattern=r"5abcde",
      what="the lengths of values of an unconstrained array type are not kept in a file: write \"abc\"; write \"de\"; read gives "
           "\"abcde\" (the file holds the elements only, which TEXT needs)"),
 dict(property="C10", kind="text", id="eventually", replay="known/C10-eventually.vhd", pattern=r"reports at \[30\]",
      what="eventually! does not accept its operand in the cycle it is evaluated in (test psl11 of the suite relies on it)"),
 dict(property="C10", kind="text", id="zero-repeat", replay="known/C10-zero-repeat.vhd", pattern=r"reports at \[\]",
      what="a repetition of zero times within a concatenation takes one cycle: {a; b[*0 to 1]; c} does not match a; c (and [*] is not any number of cycles)"),
 dict(property="C10", kind="text", id="alternatives", replay="known/C10-alternatives.vhd", pattern=r"reports at \[25\]",
      what="an asserted sequence with alternatives fails when one alternative fails although another matches: {a; b[*1 to 2]; c} with a; b; c"),
 dict(property="C10", kind="text", id="antecedent", replay="known/C10-antecedent.vhd", pattern=r"reports at \[\]",
      what="a suffix implication whose antecedent matches with several lengths does not check the consequent after the longer ones once it held for a shorter one"),
 dict(property="C10", kind="text", id="equal-antecedent", replay="known/C10-equal-antecedent.vhd", pattern=r"reports at \[15, 25, 35\]",
      what="a suffix implication whose antecedent ends in [=n] fails again in the cycles after its failure"),
 dict(property="C10", kind="text", id="nested-and", replay="known/C10-nested-and.vhd", pattern=r"reports at \[\]",
      what="a length-matching conjunction (&&) within a fusion is never matched"),
 dict(property="C10", kind="text", id="weak-until", replay="known/C10-weak-until.vhd", pattern=r"reports at \[\]",
      what="the strong operators until! and next! are treated as the weak ones: no failure at the end of the run"),
 dict(property="C15", kind="text", id="mixed", replay="known/C15-mixed.vhd", pattern=r"R1 2",
      what="a constant and a function of the same name from two packages made visible by use clauses: the function is denoted, "
           "instead of neither being visible"),
 dict(property="C15", kind="text", id="hidden", replay="known/C15-hidden.vhd", pattern=r"R1 2",
      what="a function from a use clause is not hidden by an outer subtype of the same name if that subtype is itself hidden by an "
           "enumeration literal"),
 dict(property="C15", kind="text", id="literal", replay="known/C15-literal.vhd", pattern=r"ambiguous use of",
      what="a parameterless function does not hide an enumeration literal of the same name and type: the use is ambiguous"),
 dict(property="C10", kind="text", id="boolean-assert", replay="known/C10-boolean-assert.vhd", pattern=r"Assertion violation",
      what="a PSL assertion of a Boolean in braces, assert {a}, is taken as an unclocked VHDL assertion"),
 dict(property="C12", kind="text", id="enum-array", replay="known/C12-enum-array.vhd", pattern=r"t\.s\[1:2\] \[\[0, 'true'\]\]",
      what="of a signal whose type is an array of an enumeration type (other than bit, std_ulogic, character) only the first element is dumped"),
 dict(property="C12", kind="text", id="nested-array", replay="known/C12-nested-array.vhd", pattern=r"t\.s\[2\]\[1:2\] \[\[0, '4'\]\]",
      what="an array of arrays of real (or physical) values is dumped with one wrong value for each inner array"),
 dict(property="C12", kind="text", id="partial-alias", replay="known/C12-partial-alias.vhd", pattern=r"t\.u1\.q \[\[0, '010'\]\]",
      what="a port connected to an element or slice of a signal is dumped as an alias of the whole signal when it is collapsed"),
 dict(property="C12", kind="text", id="no-signals", replay="known/C12-no-signals.vhd", pattern=r"fstReaderOpen",
      what="with --format=vcd and no signal to dump the run fails: fstReaderOpen failed for temporary FST file"),
 dict(property="C16", kind="text", id="indexed-config", replay="known/C16-indexed-config.vhd", pattern=r"(?s)note: 0ms\+0: a1.*note: 0ms\+0: a1",
      what="the index of a block configuration of a for generate statement is ignored: for g(0) ... configures every iteration"),
 dict(property="C16", kind="text", id="removed-generate", replay="known/C16-removed-generate.vhd", pattern=r"no visible declaration for G",
      what="a configuration cannot name a generate statement whose condition is constantly false: it was removed by the analyser"),
 dict(property="C24", kind="text", id="null-concat", replay="known/C24-null-concat.vhd", pattern=r"missing choice for element",
      what="the concatenation of two null arrays of statically null subtypes is rejected: missing choice for element"),
 dict(property="C24", kind="text", id="null-bounds", replay="known/C24-null-bounds.vhd", pattern=r"right 9",
      what="'right, 'low and 'high of a null array seen through an unconstrained parameter are computed from its left bound: "
           "right bound of (10 to 3) is 9"),
]
# (property, start of the commit subject, what failed)
FIXED = [
 ("C17", "fix: exit status is failure when the last", "the exit status was 1 when a simulation quiesced in exactly the delta cycle given by --stop-delta"),
 ("C17", "fix: assertions while memoising", "assertion failures in speculative calls of a resolution function made the exit status non-zero"),
 ("C01", "fix: inertial assignment kept non-adjacent", "inertial assignment kept transactions inside the rejection window that were not adjacent to the new one"),
 ("C01", "fix: null transactions lost", "null transactions were lost, corrupted the waveform or crashed"),
 ("C04", "fix: activity of parts of a split signal", "'active, 'quiet and 'transaction missed activity of parts of a split signal"),
 ("C01", "fix: inertial assignment deleted equal", "inertial assignment to part of an array deleted equal transactions"),
 ("C02", "fix: activity from zero-delay assignments", "'active wrong after two zero-delay assignments of the current value; deleted transaction still took effect"),
 ("C02", "fix: process (s) with", "process (s) with 'if s'event and s = V' ran its body at initialization / without an event"),
 ("C02", "fix: crash on a process triggered by a real", "process (r) with 'if r = 1.5' for a real signal crashed the elaborator"),
 ("C02", "fix: process triggered by comparison with a negative", "process (s) with 'if s = -5' never ran its body"),
 ("C04", "fix: initial value of S'DELAYED", "initial value of S'delayed was T'left, not the initial value of S"),
 ("C04", "fix: 'last_value before the first event", "'last_value of a port with separate driving value before its first event"),
 ("C04", "fix: S'TRANSACTION had an event", "S'transaction'event true during initialization"),
 ("C04", "fix: S'LAST_EVENT counted", "S'last_event not TIME'HIGH before the first event of a resolved signal"),
 ("C04", "fix: pending zero-delay assignment lost", "'driving_value wrong after a preempted zero-delay assignment or for a resolved signal; pending update lost by force"),
 ("C05", "fix: force and release of split", "crashes and wrong values for force and release of split, undriven and inactive signals"),
 ("C06", "fix: case statement with a static expression", "case of a static expression took the first choice that is a range"),
 ("C07", "fix: overflow not detected in constant operands", "overflow of integer arithmetic with constant operands gave wrong values"),
 ("C06", "fix: X * X was zero after", "x * x was 0 in compiled code"),
 ("C06", "fix: 0 - X was X", "0 - x was x"),
 ("C07", "fix: 0 - X did not detect overflow", "0 - integer'low not detected"),
 ("C07", "fix: folding of literal arithmetic", "literal arithmetic folded without checking overflow of the base type"),
 ("C06", "fix: wrong bounds assumed for the result of division", "x / (negative constant) assumed in the wrong range, comparisons folded wrongly"),
 ("C06", "fix: array types of different element subtypes", "arrays of different element subtypes shared bounds in vcode: wrong comparisons, checks removed"),
 ("C06", "fix: crash returning a repeated constant array", "crash returning (others => c) from a function"),
 ("C07", "fix: function result not checked", "function result not checked against the result subtype"),
 ("C07", "fix: scalar qualified expression not checked", "qualified expression not checked against the subtype"),
 ("C07", "fix: elements of array aggregates not checked", "elements of array aggregates not checked against the element subtype"),
 ("C06", "fix: (others => negative constant)", "array aggregate (others => -2) of two integers gave (-2, -3)"),
 ("C07", "fix: result of 'SUCC and 'PRED not checked", "t'pos (t'pred (x)) gave -1"),
 ("C24", "fix: 'LEFTOF and 'RIGHTOF of descending", "'leftof and 'rightof of a descending enumeration subtype gave those of the ascending type"),
 ("C07", "fix: length of array returned", "length of the array returned by a function not checked against a constrained result subtype"),
 ("C07", "fix: T'POS assumed to be", "i5'(t'pos (x)) not checked against i5"),
 ("C07", "fix: operand of short-circuit operator", "errors raised by the right operand of and, or, nand, nor that must not be evaluated"),
 ("C06", "fix: LLVM verification failure for a copy", "compiler failure on legal code"),
 ("C07", "fix: overflow of ** missed in compiled code", "4 ** 40000 gave 0 in compiled code"),
 ("C07", "fix: length check omitted when assigning a slice", "a (3 downto 2) := a (3 downto 3) accepted when the bounds are known"),
 ("C03", "fix: composite resolution with signals split", "resolution of a composite signal whose elements are split into several nexuses used wrong offsets and values"),
 ("C03", "fix: resolution functions of composites nested", "resolution function of a record inside another composite called with the wrong layout or not at all"),
 ("C03", "fix: update every element of a composite", "only the element that changed of a resolved record was updated"),
 ("C03", "fix: do not apply the resolution function to ports of mode in", "in port of a resolved subtype applied the resolution function again"),
 ("C03", "fix: a port is active whenever", "'active of a port false when the connected signal is active without an event"),
 ("C03", "fix: an inout port is active when", "'active of an inout port false when the connected signal is active"),
 ("C03", "fix: cloning a nexus with conversions", "splitting a signal with port conversions lost outputs and values"),
 ("C03", "fix: conversion functions of in ports read stale", "in port with conversion function one cycle behind when the actual also feeds inout ports"),
 ("C03", "fix: inout ports associated through conversion functions missed", "inout port with conversion functions not updated when the actual changed from elsewhere"),
 ("C03", "fix: conversion functions overwrote values", "result of resolution corrupted when a source is a conversion function: s : rvec(0 to 2) driven by conv(p) had only its last element resolved"),
 ("C07", "fix: crash reporting an error in a port conversion", "error in a conversion function of a port element crashed while printing the stack trace"),
 ("C07", "fix: calls and overflow checks dropped with dead stores", "v := f(x); v := 1; did not call f, or detect the overflow of an expression in place of f(x)"),
 ("C24", "fix: negative elements of arrays folded", "conversion between array types of negative elements, when folded, gave large positive numbers"),
 ("C24", "fix: 'VALUE of integers with base", "integer'value(\"16#1F#\"), integer'value(\"1e3\") and 'value of extended identifiers failed"),
 ("C24", "fix: 'IMAGE changed the case", "'image of an extended identifier was in lower case"),
 ("C24", "fix: wrong bounds of base type", "S'base'left gave S'left"),
 ("C24", "fix: arithmetic shifts replicated", "sla filled with the leftmost and sra with the rightmost element: (\"011\" sra 2) = \"110\""),
 ("C24", "fix: ordering of null arrays", "\"\" < \"\" was true; arrays of 2x3 and 3x2 elements compared equal"),
 ("C19", "fix: searching a hash table created with one or two", "hash_new(1); put; put; get of a missing key never returned"),
 ("C19", "fix: replacing a value in a generic hash table", "ghash_put of an existing key added a duplicate; ghash_delete of a missing key crashed"),
 ("C19", "fix: chash_cas did not count", "chash_cas of enough new keys filled the table: infinite loop"),
 ("C19", "fix: case insensitive comparison of identifiers", "ident_casecmp(\"\\xe9\", \"\\xc9\") was false although the hashes are equal"),
 ("C19", "fix: an update of the concurrent hash table", "put(k, 3) while another thread grows the table; get(k) = 2"),
 ("C22", "fix: conditional analysis of chained", "`if A = \"1\" and B = \"1\" and C = \"1\" was a syntax error; an undefined identifier inside a branch that is not selected was an error; repeated `else was accepted"),
 ("C22", "fix: conditional analysis identifiers given in lower", "-Dfoo=1 with `if FOO = \"1\": undefined identifier"),
 ("C09", "fix: FILE_SIZE and FILE_CANSEEK", "file_size(f) or file_canseek(f) with f closed: segmentation fault"),
 ("C15", "fix: names from use clauses", "a function or enumeration literal made visible by a use clause is denoted instead of a directly visible constant of the same name; a use-visible function is ambiguous with a directly visible one of the same profile"),
 ("C15", "fix: expanded names of later", "l.b within process l is rejected if another expanded name with prefix l occurs before the declaration of b"),
 ("C10", "fix: PSL until", "assert a until b continues to require a or b after a cycle where both hold"),
 ("C10", "fix: PSL before", "assert a before b never fails"),
 ("C10", "fix: PSL or with", "always (b or (a until c)) evaluates b again in every cycle of the until"),
 ("C10", "fix: PSL guards", "{a; b} |=> (...) with two different compound guards to the same state: the second is dropped; always ({a[->1]; ..} |=> ..) aborts nvc; (... |=> ...) sync_abort b"),
 ("C10", "fix: PSL cover", "cover {a; b[+]} is not reported at the longer matches of a start"),
 ("C10", "fix: repetitions were not accepted", "never {a[*2]}, {a[*2]} |-> b and eventually! {a[*2]} are rejected"),
 ("C10", "fix: crash with prev", "a strong PSL property using prev() that is pending at the end of the run crashes"),
 ("C12", "fix: arrays of arrays of integers were", "signal of array (1 to 2) of array (1 to 2) of integer with --dump-arrays: memory beyond the buffer in the dump"),
 ("C12", "fix: only the first element of an array of reals", "array (1 to 2) of real with --dump-arrays: no values for the second element"),
 ("C12", "fix: negative values of physical types", "signal t : time := -616 fs is dumped as 18446744073709551 PS"),
 ("C12", "fix: the wildcard of a glob", "--include=:t:s* does not select :t:s"),
 ("C12", "fix: character literals were dumped", "signal c : character := 'Z' is dumped as 'z'"),
 ("C07", "fix: aggregate with choices that are not literals", "variable v : bit_vector(1 downto 0) := (c1 => '1', 0 => '0') with a constant c1 = 1 gives v(1) = '0'"),
 ("C16", "fix: instance names inside if-generate", "'instance_name below an if generate statement: garbage, or an assertion failure of nvc"),
 ("C16", "fix: a condition of an if-generate statement that folds", "if g = 1 generate .. elsif pf(3) = 1 generate .. with the second condition folded to true after elaboration: fatal error of nvc"),
]
def main():
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
    fixed = []
    for p, subj, what in FIXED:
        h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subj)]
        assert len(h) == 1, (subj, h)
        fixed.append("fixed: property=%s %s %s" % (p, h[0], what))
    with open(os.path.join(R, "known_findings.json"), "w") as f:
        json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
main()
