-------------------------------- MODULE Run --------------------------------
(* When a simulation ends and with which status (C17).                       *)
(*                                                                           *)
(* A design is a set of processes, each a list of instructions:              *)
(*   <<"rep", sev, id>>     report or failing assertion of severity sev      *)
(*   <<"stop", fin, has, s>> std.env.stop/finish, with status s if has = 1   *)
(*   <<"err", id>>          an operation that violates a run-time check      *)
(*   <<"wait", t>>          wait for t ns (0: next delta cycle)              *)
(*   <<"act", t>>           a driver gets a transaction after t ns           *)
(*   <<"jmp", pc>>          jump                                             *)
(*   <<"en", sev, b>>       SetVhdlAssertEnable(sev, b = 1)                  *)
(*   <<"clear">>            ClearVhdlAssert                                  *)
(*   <<"count", sev, id>>   report of GetVhdlAssertCount(sev), severity note *)
(*   <<"end">>              wait forever                                     *)
(* "pre" is the part executed while the process is initialised, before the   *)
(* first cycle (initial values of its variables).                            *)
(* Severities: 0 note, 1 warning, 2 error, 3 failure.                        *)
(*                                                                           *)
(* Options: xsev - severity that ends the simulation (3 unless set); ssev -  *)
(* severity that makes the status non-zero (2 unless set, then xsev);        *)
(* tstop - time limit, Inf if none; dstop - limit on delta cycles, 0 none.   *)
(*                                                                           *)
(* A process that ends the run executes nothing further and no later cycle   *)
(* begins; the processes resumed in the same cycle may still run or not.     *)
EXTENDS Integers, Sequences, FiniteSets

Inf == 1000000

(* Messages: <<time, delta, kind, x, y>>                                     *)
(*   kind "r" severity x, id y; "s" stop (x: 0 stop, 1 finish; y: status or  *)
(*   -1); "e" run-time error id y; "c" count x in report y; "d" limit        *)

\* The state of a run
New(C) == [ now |-> 0, it |-> -1, ph |-> "pre",
            todo |-> 1..Len(C.procs),                  \* processes to run in this phase
            pc |-> [p \in 1..Len(C.procs) |-> 1],
            wake |-> [p \in 1..Len(C.procs) |-> Inf],  \* time of resumption
            delta |-> {},                              \* processes to resume in the next delta
            act |-> {},                                \* times of driver transactions
            dact |-> FALSE,                            \* a transaction in the next delta
            cnt |-> <<0, 0, 0, 0>>,
            en |-> <<TRUE, TRUE, TRUE, TRUE>>,
            force |-> FALSE, status |-> {}, out |-> <<>> ]

\* delta -1: during the initialisation
Msg(s, k, x, y) == << s.now, s.it, k, x, y >>

\* Executes one instruction of process p; code is its list.  The result has run = p still running.
Step(C, s, p, code) ==
  LET ins == code[s.pc[p]]
      nx == [s EXCEPT !.pc[p] = @ + 1]
  IN CASE ins[1] = "rep" ->
            LET sv == ins[2] + 1 IN
            IF ~s.en[sv] THEN <<nx, TRUE>>
            ELSE LET e == [nx EXCEPT !.out = Append(@, Msg(s, "r", ins[2], ins[3])), !.cnt[sv] = @ + 1]
                 IN IF ins[2] >= C.xsev THEN <<[e EXCEPT !.force = TRUE, !.status = {1}], FALSE>> ELSE <<e, TRUE>>
       [] ins[1] = "stop" ->
            << [nx EXCEPT !.out = Append(@, Msg(s, "s", ins[2], IF ins[3] = 1 THEN ins[4] ELSE -1)),
                          !.force = TRUE, !.status = IF ins[3] = 1 THEN {ins[4]} ELSE @], FALSE >>
       [] ins[1] = "err" ->
            << [nx EXCEPT !.out = Append(@, Msg(s, "e", 0, ins[2])), !.force = TRUE, !.status = {1}], FALSE >>
       [] ins[1] = "wait" ->
            << IF ins[2] = 0 THEN [nx EXCEPT !.delta = @ \cup {p}] ELSE [nx EXCEPT !.wake[p] = s.now + ins[2]], FALSE >>
       [] ins[1] = "act" ->
            << IF ins[2] = 0 THEN [nx EXCEPT !.dact = TRUE] ELSE [nx EXCEPT !.act = @ \cup {s.now + ins[2]}], TRUE >>
       [] ins[1] = "jmp" -> << [s EXCEPT !.pc[p] = ins[2]], TRUE >>
       [] ins[1] = "en" -> << [nx EXCEPT !.en[ins[2] + 1] = (ins[3] = 1)], TRUE >>
       [] ins[1] = "clear" -> << [nx EXCEPT !.cnt = <<0, 0, 0, 0>>], TRUE >>
       [] ins[1] = "count" ->
            IF ~s.en[1] THEN <<nx, TRUE>>
            ELSE LET e == [nx EXCEPT !.out = Append(@, Msg(s, "c", s.cnt[ins[2] + 1], ins[3])), !.cnt[1] = @ + 1]
                 IN IF C.xsev = 0 THEN <<[e EXCEPT !.force = TRUE, !.status = {1}], FALSE>> ELSE <<e, TRUE>>
       [] OTHER -> << s, FALSE >>

\* Runs process p until it waits or ends the run
RECURSIVE RunProc(_, _, _, _)
RunProc(C, s, p, code) ==
  \* singleton choice instead of LET: TLC evaluates it once
  LET r == CHOOSE x \in {Step(C, s, p, code)} : TRUE
  IN IF r[2] THEN RunProc(C, r[1], p, code) ELSE r[1]

Earliest(S) == CHOOSE x \in S : \A y \in S : x <= y
Times(s) == s.act \cup ({s.wake[p] : p \in DOMAIN s.wake} \ {Inf})

\* Whether the run is over between two cycles, and the state of the next cycle if not
More(s) == s.delta # {} \/ s.dact
Over(C, s) == IF s.force THEN TRUE
              ELSE IF More(s) THEN FALSE
              ELSE IF Times(s) = {} THEN TRUE
              ELSE Earliest(Times(s)) > C.tstop
LimitHit(C, s) == More(s) /\ C.dstop > 0 /\ s.it = C.dstop /\ ~s.force

NextCycle(s) ==
  IF More(s)
  THEN [s EXCEPT !.it = @ + 1, !.todo = s.delta, !.delta = {}, !.dact = FALSE, !.ph = "run"]
  ELSE LET t == Earliest(Times(s)) IN
       [s EXCEPT !.now = t, !.it = 0, !.todo = {p \in DOMAIN s.wake : s.wake[p] = t}, !.ph = "run",
                 !.wake = [p \in DOMAIN s.wake |-> IF s.wake[p] = t THEN Inf ELSE s.wake[p]],
                 !.act = @ \ {t}]

\* The status of a run that is over; a set because of several requests in one cycle
Status(C, s) ==
  IF s.status # {} THEN s.status
  ELSE {IF \E v \in C.ssev..3 : s.cnt[v + 1] > 0 THEN 1 ELSE 0}
=============================================================================
