------------------------------- MODULE Kernel -------------------------------
(* The VHDL simulation kernel (IEEE 1076-2008 clauses 10.2, 10.5, 14.7), as   *)
(* pure operators over a state.  A design is a record C read from a case      *)
(* file:                                                                       *)
(*   C.nets    scalar signals, each with its sources, resolution and (for a   *)
(*             port) the net its effective value comes from                    *)
(*   C.drivers one per (process, net) pair                                     *)
(*   C.procs   processes as instruction sequences                              *)
(*   C.imps    implicit signals (S'stable(T), S'quiet(T), S'delayed(T),        *)
(*             S'transaction), one per prefix scalar                           *)
(* Numbers stand for values of every scalar type (enumerations by position),   *)
(* times are numbers of nanoseconds.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, StdLogic, SequencesExt

NULLV == -999999     \* the value of a null transaction
INF   == 1000000000  \* no such time
NEVER == -1          \* "no event yet": the attribute is TIME'HIGH


-----------------------------------------------------------------------------
(* 10.5.2.2: updating a projected output waveform.                             *)
(* w is the driver's waveform: w[1] the current transaction <<time, value>>,   *)
(* the rest future ones in ascending time.  new is the sequence of new         *)
(* transactions (ascending times).  rej is the rejection limit; for transport  *)
(* delay it is NEVER.                                                          *)

Before(w, t) == SelectSeq(w, LAMBDA x : x[1] < t)

\* the old transactions that survive in front of the new ones
RECURSIVE KeepFrom(_, _, _, _, _)
\* scan i from the end to 2: nxt is the value of the marked transaction that
\* immediately follows element i, or the element i+1 if it is not marked
KeepFrom(w, i, lim, nxtv, acc) ==
  IF i < 2 THEN acc
  ELSE IF w[i][1] < lim
       THEN KeepFrom(w, i-1, lim, nxtv, <<w[i]>> \o acc)      \* step b: outside the window
       ELSE IF w[i][2] = nxtv.v /\ nxtv.m
            THEN KeepFrom(w, i-1, lim, [v |-> w[i][2], m |-> TRUE], <<w[i]>> \o acc)
            ELSE KeepFrom(w, i-1, lim, [v |-> w[i][2], m |-> FALSE], acc)

EditWaveform(w, new, rej, now) ==
  LET t1   == new[1][1]
      \* the current transaction is never deleted; pending ones at or after t1 are
      keep == <<w[1]>> \o Before(Tail(w), t1)
  IN  IF rej = NEVER THEN keep \o new
      ELSE LET lim == t1 - rej
               old == KeepFrom(keep, Len(keep), lim, [v |-> new[1][2], m |-> TRUE], <<>>)
           IN  <<keep[1]>> \o old \o new

WaveformOK(w, now) ==
  /\ Len(w) >= 1
  /\ \A i \in 2..Len(w) : w[i][1] >= now
  /\ \A i \in 3..Len(w) : w[i-1][1] < w[i][1]

-----------------------------------------------------------------------------
(* Resolution functions: all symmetric, so that the order of sources, which    *)
(* the standard leaves open, cannot matter.                                    *)
RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
RECURSIVE FoldStd(_, _)
FoldStd(q, a) == IF q = <<>> THEN a ELSE FoldStd(Tail(q), ResolveTable[a+1][q[1]+1])

Resolve(f, q) ==
  CASE f = "sum" -> SumSeq(q) + 100 * Len(q)
    [] f = "max" -> IF q = <<>> THEN 50 ELSE Max({q[i] : i \in 1..Len(q)})
    \* std_logic_1164: a single source is passed unchanged
    [] f = "std" -> IF Len(q) = 1 THEN q[1] ELSE FoldStd(q, 4)
    \* an enumeration of four values, weaker to stronger; conflict gives the first
    [] f = "enum" -> IF q = <<>> THEN 3
                     ELSE IF \A i \in 1..Len(q) : q[i] = q[1] THEN q[1] ELSE 0

Convert(f, v) ==
  CASE f = "id"  -> v
    [] f = "inv" -> 100 - v
    [] f = "dbl" -> 2 * v
    [] f = "half" -> v \div 2
    [] f = "not" -> NotTable[v+1]
    [] f = "rot" -> (v + 1) % 4
    [] f = "unrot" -> (v + 3) % 4

-----------------------------------------------------------------------------
(* State                                                                       *)
(*  wf[d]    projected waveform of driver d                                    *)
(*  dr[n], ef[n]  driving and effective value of net n                         *)
(*  fd[n], fe[n]  forced driving / effective value, or NULLV                   *)
(*  pf       force and release requests that take effect in the next cycle     *)
(*  ev, ac   nets with an event / active in this cycle                         *)
(*  le, la, lv    time of last event, of last activity, last value             *)
(*  im[k]    implicit signal k: value, pending driver transactions             *)
(*  iev      implicit signals with an event in this cycle                      *)

DriverVals(C, n, wf, dr) ==
  LET S == C.nets[n].src
      raw == [i \in 1..Len(S) |->
                IF S[i].k = "d" THEN wf[S[i].i][1][2]
                ELSE Convert(S[i].f, dr[S[i].i])]
  IN SelectSeq(raw, LAMBDA x : x # NULLV)

\* 14.7.3.2 driving value; `old` is the previous one (kept by a register whose
\* sources are all null)
DrivingOf(C, n, wf, dr, fd, old) ==
  LET N == C.nets[n]
      q == DriverVals(C, n, wf, dr)
  IN  IF fd[n] # NULLV THEN fd[n]
      ELSE IF Len(N.src) = 0 THEN N.init
      ELSE IF N.res = "none" THEN q[1]
      ELSE IF q = <<>> /\ N.kind = "register" THEN old
      ELSE Resolve(N.res, q)

\* (folds rather than recursion: TLC passes recursive arguments lazily)
DriveAll(C, ord, wf, dr0, fd) ==
  FoldLeft(LAMBDA dr, n : [dr EXCEPT ![n] = DrivingOf(C, n, wf, dr, fd, @)], dr0, ord)

\* 14.7.3.3 effective value
EffAll(C, ord, dr, ef0, fe) ==
  FoldLeft(LAMBDA ef, n :
             LET u == C.nets[n].up IN
             [ef EXCEPT ![n] = IF fe[n] # NULLV THEN fe[n]
                               ELSE IF u.i = 0 THEN dr[n] ELSE Convert(u.f, ef[u.i])],
           ef0, ord)

\* nets that are active because some source (or the actual of an in port) is; a whole array
\* associated through a conversion function (field g: its nets) is active if any element is
GroupOf(x) == IF "g" \in DOMAIN x THEN ToSet(x.g) ELSE {x.i}
ActiveUp(C, ord, dact, ac0) ==
  FoldLeft(LAMBDA ac, n :
             LET S == C.nets[n].src IN
             IF \E i \in 1..Len(S) : IF S[i].k = "d" THEN S[i].i \in dact ELSE GroupOf(S[i]) \cap ac # {}
             THEN ac \cup {n} ELSE ac,
           ac0, ord)
ActiveDown(C, ord, ac0) ==
  FoldLeft(LAMBDA ac, n :
             LET u == C.nets[n].up IN IF u.i # 0 /\ GroupOf(u) \cap ac # {} THEN ac \cup {n} ELSE ac,
           ac0, ord)

-----------------------------------------------------------------------------
(* Expressions.  E = [s |-> kernel state, v |-> variables, p |-> process]      *)
B2I(b) == IF b THEN 1 ELSE 0

LastTime(t, now) == IF t = NEVER THEN NEVER ELSE now - t

DriverOf(C, p, n) == CHOOSE d \in 1..Len(C.drivers) : C.drivers[d].p = p /\ C.drivers[d].n = n

RECURSIVE Eval(_, _, _)
Eval(C, e, E) ==
  LET op == e[1] IN
  CASE op = "c" -> e[2]
    [] op = "v" -> E.v[e[2]]
    [] op = "s" -> E.s.ef[e[2]]
    [] op = "sd" -> E.s.ef[e[2][Eval(C, e[3], E) + 1]]
    [] op = "+" -> Eval(C, e[2], E) + Eval(C, e[3], E)
    [] op = "-" -> Eval(C, e[2], E) - Eval(C, e[3], E)
    [] op = "*" -> Eval(C, e[2], E) * Eval(C, e[3], E)
    [] op = "mod" -> Eval(C, e[2], E) % Eval(C, e[3], E)
    [] op = "=" -> B2I(Eval(C, e[2], E) = Eval(C, e[3], E))
    [] op = "<" -> B2I(Eval(C, e[2], E) < Eval(C, e[3], E))
    [] op = "and" -> B2I(Eval(C, e[2], E) = 1 /\ Eval(C, e[3], E) = 1)
    [] op = "or" -> B2I(Eval(C, e[2], E) = 1 \/ Eval(C, e[3], E) = 1)
    [] op = "not" -> 1 - Eval(C, e[2], E)
    [] op = "event" -> B2I(\E i \in 1..Len(e[2]) : e[2][i] \in E.s.ev)
    [] op = "active" -> B2I(\E i \in 1..Len(e[2]) : e[2][i] \in E.s.ac)
    [] op = "last_event" -> LastTime(Max({E.s.le[e[2][i]] : i \in 1..Len(e[2])}), E.s.now)
    [] op = "last_active" -> LastTime(Max({E.s.la[e[2][i]] : i \in 1..Len(e[2])}), E.s.now)
    [] op = "last_value" -> E.s.lv[e[2]]
    [] op = "imp" -> E.s.im[e[2]].v
    [] op = "ievent" -> B2I(e[2] \in E.s.iev)
    [] op = "driving" -> B2I(\A i \in 1..Len(e[2]) : E.s.wf[DriverOf(C, E.p, e[2][i])][1][2] # NULLV)
    [] op = "driving_value" -> E.s.wf[DriverOf(C, E.p, e[2])][1][2]
    [] op = "now" -> E.s.now

-----------------------------------------------------------------------------
(* Process execution: run from pc until a wait statement.  Returns             *)
(* [pc, v, wf, pf, wt, out].                                                   *)

\* one element of a waveform assignment: elems is a sequence of <<expr or "null", delay expr>>
NewTrans(C, elems, E, k) ==
  [i \in 1..Len(elems) |->
     << E.s.now + Eval(C, elems[i][2], E),
        IF elems[i][1][1] = "null" THEN NULLV
        ELSE IF elems[i][1][1] = "agg" THEN Eval(C, elems[i][1][2][k], E)
        ELSE Eval(C, elems[i][1], E) >>]

RECURSIVE AssignNets(_, _, _, _, _, _)
AssignNets(C, ins, nets, k, E, wf) ==
  IF k > Len(nets) THEN wf
  ELSE LET d   == DriverOf(C, E.p, nets[k])
           new == NewTrans(C, ins[5], E, k)
           rej == IF ins[3] = "transport" THEN NEVER
                  ELSE IF ins[3] = "inertial" THEN new[1][1] - E.s.now
                  ELSE Eval(C, ins[4], E)
       IN AssignNets(C, ins, nets, k+1, E, [wf EXCEPT ![d] = EditWaveform(@, new, rej, E.s.now)])

RECURSIVE Exec(_, _, _, _, _, _, _)
Exec(C, p, pc, E, wf, pf, out) ==
  LET code == C.procs[p].code
      ins  == code[pc]
      op   == ins[1]
      Go(npc) == Exec(C, p, npc, E, wf, pf, out)
  IN
  CASE op = "set" -> Exec(C, p, pc+1, [E EXCEPT !.v[ins[2]] = Eval(C, ins[3], E)], wf, pf, out)
    [] op = "jmp" -> Go(ins[2])
    [] op = "jz"  -> Go(IF Eval(C, ins[2], E) = 0 THEN ins[3] ELSE pc + 1)
    [] op = "log" -> Exec(C, p, pc+1, E, wf, pf,
                          Append(out, <<E.s.now, E.s.dl, ins[2]>> \o
                                      [i \in 1..Len(ins[3]) |-> Eval(C, ins[3][i], E)]))
    \* ins = <<"sig", nets, mech, reject, elems>>
    [] op = "sig" -> Exec(C, p, pc+1, E, AssignNets(C, ins, ins[2], 1, E, wf), pf, out)
    \* <<"sigd", nets, mech, reject, elems, index>>: one element selected at run time
    [] op = "sigd" -> Exec(C, p, pc+1, E,
                           AssignNets(C, ins, <<ins[2][Eval(C, ins[6], E) + 1]>>, 1, E, wf), pf, out)
    \* <<"force", mode, nets, expr sequence>> / <<"release", mode, nets>>
    [] op = "force" -> Exec(C, p, pc+1, E, wf,
                            pf \o [i \in 1..Len(ins[3]) |-> <<ins[2], ins[3][i], Eval(C, ins[4][i], E)>>], out)
    [] op = "release" -> Exec(C, p, pc+1, E, wf,
                              pf \o [i \in 1..Len(ins[3]) |-> <<ins[2], ins[3][i], NULLV>>], out)
    \* <<"wait", nets, implicit signals, condition or <<>>, timeout expr or <<>> >>
    [] op = "wait" ->
         [pc |-> pc + 1, v |-> E.v, wf |-> wf, pf |-> pf, out |-> out,
          wt |-> [nets |-> {ins[2][i] : i \in 1..Len(ins[2])},
                  imps |-> {ins[3][i] : i \in 1..Len(ins[3])},
                  cond |-> ins[4],
                  at   |-> IF ins[5] = <<>> THEN INF ELSE E.s.now + Eval(C, ins[5], E)]]

-----------------------------------------------------------------------------
(* Implicit signals (14.7.4).  im[k] = [v, q] with q pending transactions of   *)
(* the implicit driver: <<time, value>> ascending.                             *)
ImpNext(C, k, im, ev, ac, ef, now, fresh) ==
  LET I  == C.imps[k]
      m  == im[k]
      \* transactions that mature in this cycle (scheduled earlier)
      due == SelectSeq(m.q, LAMBDA x : x[1] <= now)
      rest == SelectSeq(m.q, LAMBDA x : x[1] > now)
      cur == IF due = <<>> THEN m.v ELSE due[Len(due)][2]
      pev == \E i \in 1..Len(I.nets) : I.nets[i] \in ev
      pac == \E i \in 1..Len(I.nets) : I.nets[i] \in ac
  IN CASE I.kind = "stable" ->
            IF pev THEN [v |-> 0, q |-> << <<now + I.t, 1>> >>]
            ELSE [v |-> cur, q |-> rest]
       [] I.kind = "quiet" ->
            IF pac THEN [v |-> 0, q |-> << <<now + I.t, 1>> >>]
            ELSE [v |-> cur, q |-> rest]
       [] I.kind = "transaction" ->
            [v |-> IF pac THEN 1 - m.v ELSE m.v, q |-> <<>>]
       \* the equivalent process: process (S) begin R <= transport S after T; end;
       [] I.kind = "delayed" ->
            [v |-> cur,
             q |-> IF pev THEN rest \o << <<now + I.t, ef[I.nets[1]]>> >> ELSE rest]

=============================================================================
