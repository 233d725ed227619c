------------------------------ MODULE RunTrace ------------------------------
(* Runs of nvc: the sequence of messages and the exit status of each must be *)
(* one the specification allows.                                             *)
EXTENDS Run, TLC, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, s, li, done
vars == <<tc, s, li, done>>
C == Cases[tc]

Init == /\ tc \in 1..Len(Cases)
        /\ s = New(Cases[tc])
        /\ li = 0
        /\ done = FALSE

Matches(out) == /\ li + Len(out) <= Len(C.log)
                /\ \A i \in 1..Len(out) : out[i] = C.log[li + i]

\* one of the processes that are due runs
Run1 == \E p \in s.todo :
          \E r \in {RunProc(C, [s EXCEPT !.todo = @ \ {p}], p, IF s.ph = "pre" THEN C.procs[p].pre ELSE C.procs[p].code)} :
             /\ Matches(r.out)
             /\ li' = li + Len(r.out)
             /\ s' = [r EXCEPT !.out = <<>>]
             /\ UNCHANGED <<tc, done>>

\* after the end was requested the rest of the cycle need not run
Cut == /\ s.force /\ s.todo # {}
       /\ s' = [s EXCEPT !.todo = {}]
       /\ UNCHANGED <<tc, li, done>>

\* the initialisation is complete: the first cycle runs every process
First == /\ s.todo = {} /\ s.ph = "pre" /\ ~s.force
         /\ s' = [s EXCEPT !.ph = "run", !.todo = 1..Len(C.procs), !.it = 0, !.pc = [p \in DOMAIN s.pc |-> 1]]
         /\ UNCHANGED <<tc, li, done>>

Cycle == /\ s.todo = {} /\ s.ph = "run" /\ ~Over(C, s) /\ ~LimitHit(C, s)
         /\ s' = NextCycle(s)
         /\ UNCHANGED <<tc, li, done>>

Limit == /\ s.todo = {} /\ s.ph = "run" /\ (LimitHit(C, s) \/ (s.force /\ LimitHit(C, [s EXCEPT !.force = FALSE])))
         /\ Matches(<<Msg(s, "d", 0, 0)>>)
         /\ li' = li + 1
         /\ s' = [s EXCEPT !.force = TRUE, !.delta = {}, !.dact = FALSE, !.status = IF @ = {} THEN {1} ELSE @]
         /\ UNCHANGED <<tc, done>>

End == /\ s.todo = {} /\ s.ph \in {"run", "pre"} /\ ~done
       /\ s.force \/ (s.ph = "run" /\ Over(C, s))
       /\ li = Len(C.log)
       /\ C.rc \in Status(C, s)
       /\ PrintT(<<"ACCEPT", tc>>)
       /\ done' = TRUE
       /\ UNCHANGED <<tc, s, li>>

Next == ~done /\ (Run1 \/ Cut \/ First \/ Cycle \/ Limit \/ End)
=============================================================================
