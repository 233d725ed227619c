------------------------------ MODULE KernelMC ------------------------------
(* Model checking of the kernel on small designs: processes of one cycle run   *)
(* in every possible order.  The state at the end of the cycle must be the     *)
(* one the canonical order gives, whatever the order (C02); the waveforms stay *)
(* well formed and time moves as the standard says in every reachable state.   *)
EXTENDS KernelTrace

VARIABLE start      \* the state in which the process phase of this cycle began

mvars == <<tc, ph, s, pr, li, start>>

\* effect of running p in state st = [s, pr]
RunOne(st, p) ==
  LET w == st.pr[p].wt
      E == [s |-> st.s, v |-> st.pr[p].v, p |-> p]
      r == Exec(C, p, st.pr[p].pc, E, st.s.wf, <<>>, <<>>)
  IN IF w.cond # <<>> /\ st.pr[p].byev /\ Eval(C, w.cond, E) # 1
     THEN [st EXCEPT !.pr[p].rdy = FALSE]
     ELSE [s |-> [st.s EXCEPT !.wf = r.wf, !.pf = @ \o r.pf],
           pr |-> [st.pr EXCEPT ![p] = [pc |-> r.pc, v |-> r.v, rdy |-> FALSE, byev |-> FALSE, wt |-> r.wt]]]

RECURSIVE Canon(_, _)
Canon(st, todo) == IF todo = {} THEN st ELSE Canon(RunOne(st, Max(todo)), todo \ {Max(todo)})

Ready(post) == {p \in Procs : pr[p].rdy /\ Post(p) = post}

MCRun ==
  /\ ph = "run"
  /\ \E post \in {FALSE, TRUE} :
       /\ post => NonPostponedDone /\ PostNow
       /\ \E p \in Ready(post) :
            LET n == RunOne([s |-> s, pr |-> pr], p)
            IN /\ s' = n.s /\ pr' = n.pr
               /\ start' = IF start = <<>> THEN << [s |-> s, pr |-> pr], Ready(post) >> ELSE start
  /\ UNCHANGED <<tc, ph, li>>

\* all processes of the phase have run: compare with the canonical order and forget it
MCClose ==
  /\ start # <<>>
  /\ \A p \in start[2] : ~pr[p].rdy
  /\ start' = <<>>
  /\ UNCHANGED <<tc, ph, s, pr, li>>

MCCycle == start = <<>> /\ Cycle /\ UNCHANGED start

MCFinish == ph = "run" /\ start = <<>> /\ (\A p \in Procs : ~pr[p].rdy) /\ Next_ > C.tend
            /\ ph' = "done" /\ UNCHANGED <<tc, s, pr, li, start>>

MCInit == Init /\ start = <<>>
\* close a phase before anything else happens
MCNext == IF start # <<>> /\ \A p \in start[2] : ~pr[p].rdy THEN MCClose
          ELSE MCRun \/ MCCycle \/ MCFinish

MCSpec == MCInit /\ [][MCNext]_mvars

Confluent ==
  start # <<>> /\ (\A p \in start[2] : ~pr[p].rdy) =>
     LET c == Canon(start[1], start[2])
     IN s.wf = c.s.wf /\ pr = c.pr /\ {s.pf[i] : i \in 1..Len(s.pf)} = {c.s.pf[i] : i \in 1..Len(c.s.pf)}

\* time never moves back, a delta step keeps it, and it never passes a pending event
TimeStep == [][ s'.now >= s.now /\ (s'.now = s.now => s'.dl \in {s.dl, s.dl + 1})
                /\ (s'.now > s.now => s'.now = Next_ /\ s'.dl = 0) ]_mvars

\* a process only ever runs again because of an event in its sensitivity set or its timeout
\* (checked as: a suspended process with neither stays suspended)
WakeReason == [][ \A p \in Procs : ~pr[p].rdy /\ pr'[p].rdy =>
                    \/ pr[p].wt.at = s'.now
                    \/ pr[p].wt.nets \cap s'.ev # {} \/ pr[p].wt.imps \cap s'.iev # {} ]_mvars
=============================================================================
