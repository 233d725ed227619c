----------------------------- MODULE KernelTrace -----------------------------
(* Trace validation: every case of the file is a design together with the log  *)
(* its processes wrote when nvc simulated it.  The behaviour of Kernel for the *)
(* design must produce that log.  One behaviour per case; it ends by printing  *)
(* a verdict.                                                                  *)
EXTENDS Kernel, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES tc, ph, s, pr, li

vars == <<tc, ph, s, pr, li>>

C == Cases[tc]

Procs == 1..Len(C.procs)

InitState(CC) ==
  LET wf == [d \in 1..Len(CC.drivers) |-> << <<0, CC.drivers[d].init>> >>]
      N  == 1..Len(CC.nets)
      nul == [n \in N |-> NULLV]
      zero == [n \in N |-> CC.nets[n].init]
      dr == DriveAll(CC, CC.dord, wf, zero, nul)
      ef == EffAll(CC, CC.eord, dr, zero, nul)
  IN [now |-> 0, dl |-> 0, wf |-> wf, dr |-> dr, ef |-> ef, fd |-> nul, fe |-> nul, pf |-> <<>>,
      ev |-> {}, ac |-> {}, le |-> [n \in N |-> NEVER], la |-> [n \in N |-> NEVER], lv |-> ef,
      im |-> [k \in 1..Len(CC.imps) |->
                [v |-> CASE CC.imps[k].kind \in {"stable", "quiet"} -> 1
                         [] CC.imps[k].kind = "transaction" -> 0
                         [] OTHER -> ef[CC.imps[k].nets[1]],
                 q |-> <<>>]],
      iev |-> {}]

Init ==
  /\ tc \in 1..Len(Cases)
  /\ ph = "run"
  /\ s = InitState(Cases[tc])
  \* at initialization every process runs, the postponed ones last
  /\ pr = [p \in 1..Len(Cases[tc].procs) |->
             [pc |-> 1, v |-> [i \in 1..Cases[tc].procs[p].nv |-> 0], rdy |-> TRUE, byev |-> FALSE,
              wt |-> [nets |-> {}, imps |-> {}, cond |-> <<>>, at |-> INF]]]
  /\ li = [p \in 1..Len(Cases[tc].procs) |-> 0]

Post(p) == C.procs[p].post

\* the recorded log of process p must continue with `out`; log entries of postponed
\* processes carry no delta number
SameEntry(p, a, b) ==
  /\ Len(a) = Len(b)
  /\ a[1] = b[1]
  /\ Post(p) \/ a[2] = b[2]
  /\ \A i \in 3..Len(a) : a[i] = b[i]

Matches(p, out) ==
  /\ li[p] + Len(out) <= Len(C.log[p])
  /\ \A i \in 1..Len(out) : SameEntry(p, out[i], C.log[p][li[p] + i])

Reject(p, out) ==
  /\ PrintT(<<"REJECT", tc, p, s.now, s.dl, out, li[p], SubSeq(C.log[p], li[p] + 1,
         IF Len(C.log[p]) < li[p] + Len(out) THEN Len(C.log[p]) ELSE li[p] + Len(out))>>)
  /\ ph' = "done"
  /\ UNCHANGED <<tc, s, pr, li>>

\* One process runs to its next wait.  Processes write only their own drivers and
\* variables, so the order is immaterial (checked in KernelMC); the lowest goes first.
Run(p) ==
  /\ pr[p].rdy
  /\ \A q \in Procs : pr[q].rdy /\ Post(q) = Post(p) => p <= q
  /\ LET w == pr[p].wt
         E == [s |-> s, v |-> pr[p].v, p |-> p]
     IN IF w.cond # <<>> /\ pr[p].byev /\ Eval(C, w.cond, E) # 1
        THEN \* the condition is not met: the process suspends again
             /\ pr' = [pr EXCEPT ![p].rdy = FALSE]
             /\ UNCHANGED <<tc, ph, s, li>>
        ELSE \E r \in {Exec(C, p, pr[p].pc, E, s.wf, <<>>, <<>>)} :
             IF ~Matches(p, r.out) THEN Reject(p, r.out)
             ELSE /\ s' = [s EXCEPT !.wf = r.wf, !.pf = @ \o r.pf]
                  /\ pr' = [pr EXCEPT ![p] = [pc |-> r.pc, v |-> r.v, rdy |-> FALSE, byev |-> FALSE, wt |-> r.wt]]
                  /\ li' = [li EXCEPT ![p] = @ + Len(r.out)]
                  /\ UNCHANGED <<tc, ph>>

RunStep == ph = "run" /\ \E p \in Procs : ~Post(p) /\ Run(p)

\* Time of the next cycle
Pending ==
     {s.wf[d][2][1] : d \in {x \in 1..Len(s.wf) : Len(s.wf[x]) > 1}}
  \cup {pr[p].wt.at : p \in {q \in Procs : ~pr[q].rdy}}
  \cup {s.im[k].q[1][1] : k \in {x \in 1..Len(s.im) : s.im[x].q # <<>>}}
  \cup (IF s.pf # <<>> THEN {s.now} ELSE {})

Next_ == Min(Pending \cup {INF})

NonPostponedDone == \A p \in Procs : pr[p].rdy => Post(p)

\* postponed processes run when the next cycle is not a delta cycle; at
\* initialization (14.7.5.2) directly after the other processes
PostNow == Next_ # s.now \/ (s.now = 0 /\ s.dl = 0)

PostStart ==
  /\ ph = "run"
  /\ NonPostponedDone
  /\ PostNow
  /\ \E p \in Procs : Post(p) /\ Run(p)

Finish ==
  /\ ph = "run"
  /\ \A p \in Procs : ~pr[p].rdy
  /\ Next_ > C.tend
  /\ IF \A p \in Procs : li[p] = Len(C.log[p]) THEN PrintT(<<"ACCEPT", tc>>)
     ELSE PrintT(<<"REJECT", tc, "log has more entries than the specification allows",
                   [p \in Procs |-> SubSeq(C.log[p], li[p]+1, Len(C.log[p]))]>>)
  /\ ph' = "done"
  /\ UNCHANGED <<tc, s, pr, li>>

Cycle ==
  /\ ph = "run"
  /\ NonPostponedDone
  /\ Next_ <= C.tend
  /\ PostNow => \A p \in Procs : ~pr[p].rdy
  \* (singleton quantifiers rather than LET: TLC evaluates LET definitions again at every use)
  /\ LET \* the last request for a net in the list wins
         Req(m, n) == {i \in 1..Len(s.pf) : s.pf[i][1] = m /\ s.pf[i][2] = n}
         N == 1..Len(s.ef)
     IN
     \E t \in {Next_} :
     \E dact \in {{d \in 1..Len(s.wf) : Len(s.wf[d]) > 1 /\ s.wf[d][2][1] <= t}} :
     \E wf \in {[d \in 1..Len(s.wf) |-> IF d \in dact THEN Tail(s.wf[d]) ELSE s.wf[d]]} :
     \E fd \in {[n \in N |-> LET R == Req("out", n) IN IF R = {} THEN s.fd[n] ELSE s.pf[Max(R)][3]]} :
     \E fe \in {[n \in N |-> LET R == Req("in", n) IN IF R = {} THEN s.fe[n] ELSE s.pf[Max(R)][3]]} :
     \E forced \in {{s.pf[i][2] : i \in 1..Len(s.pf)}} :
     \E dr \in {DriveAll(C, C.dord, wf, s.dr, fd)} :
     \E ef \in {EffAll(C, C.eord, dr, s.ef, fe)} :
     \E ev \in {{n \in N : ef[n] # s.ef[n]}} :
     \E ac \in {ActiveDown(C, C.eord, ActiveUp(C, C.dord, dact, forced))} :
     \E im \in {[k \in 1..Len(s.im) |-> ImpNext(C, k, s.im, ev, ac, ef, t, FALSE)]} :
     \E iev \in {{k \in 1..Len(s.im) : im[k].v # s.im[k].v}} :
       LET TimedOut(p) == pr[p].wt.at <= t
           Woken(p) == LET w == pr[p].wt IN w.nets \cap ev # {} \/ w.imps \cap iev # {}
       IN
       /\ s' = [s EXCEPT !.now = t, !.dl = IF t = s.now THEN @ + 1 ELSE 0, !.wf = wf, !.dr = dr,
                         !.ef = ef, !.fd = fd, !.fe = fe, !.pf = <<>>, !.ev = ev, !.ac = ac,
                         !.le = [n \in N |-> IF n \in ev THEN t ELSE @[n]],
                         !.la = [n \in N |-> IF n \in ac THEN t ELSE @[n]],
                         !.lv = [n \in N |-> IF n \in ev THEN s.ef[n] ELSE @[n]],
                         !.im = im, !.iev = iev]
       /\ pr' = [p \in Procs |->
                    IF pr[p].rdy THEN pr[p]      \* a postponed process already waiting to run
                    ELSE IF TimedOut(p) THEN [pr[p] EXCEPT !.rdy = TRUE, !.byev = FALSE]
                    ELSE IF Woken(p) THEN [pr[p] EXCEPT !.rdy = TRUE, !.byev = TRUE]
                    ELSE pr[p]]
  /\ UNCHANGED <<tc, ph, li>>

Next == RunStep \/ PostStart \/ Cycle \/ Finish

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Invariants of the kernel, checked on every state of every validated run     *)
DriversOK == \A d \in 1..Len(s.wf) : WaveformOK(s.wf[d], s.now)
EventsAreActive == s.ev \subseteq s.ac \/ s.now = 0
Causality == \A n \in 1..Len(s.ef) : s.le[n] <= s.now /\ s.la[n] <= s.now /\ s.le[n] <= s.la[n]
Inv == DriversOK /\ Causality
=============================================================================
