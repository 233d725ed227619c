------------------------------ MODULE SeqTrace ------------------------------
(* Every case is a sequential program and what nvc did with it: the log it     *)
(* wrote and how it ended.  One step executes one declaration or top-level     *)
(* statement.  Verdicts are printed.                                           *)
EXTENDS Seq, Json, IOUtils

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES tc, pc, st, li, ph
vars == <<tc, pc, st, li, ph>>
C == Cases[tc]

Undef == -77777

Init == /\ tc \in 1..Len(Cases)
        /\ pc = 0
        /\ st = [i \in 1..Len(Cases[tc].vars) |-> Undef]
        /\ li = 0
        /\ ph = "run"

Accept == PrintT(<<"ACCEPT", tc>>)
Reject(why, x) == PrintT(<<"REJECT", tc, why, x>>)

Ends == C.result.k     \* "ok", "err"

\* nvc stopped with an error of kind r.kind at line r.line
ErrMatches(er) == \E e \in er : (e[1] = 0 \/ C.result.line = 0 \/ e[1] = C.result.line) /\ e[2] = C.result.kind

OutOK(out) == li + Len(out) <= Len(C.log) /\ \A i \in 1..Len(out) : out[i] = C.log[li + i]

Judge(r) ==
  IF ~OutOK(r.out)
  THEN /\ Reject("log", <<r.out, SubSeq(C.log, li + 1, Len(C.log)), C.result>>)
       /\ ph' = "done" /\ UNCHANGED <<tc, pc, st, li>>
  ELSE IF r.s.k = "err"
  THEN /\ IF li + Len(r.out) # Len(C.log) THEN Reject("runs past an error", <<r.s.er, C.result>>)
          ELSE IF Ends # "err" THEN Reject("error missed", <<r.s.er, C.result>>)
          ELSE IF ~ErrMatches(r.s.er) THEN Reject("wrong error", <<r.s.er, C.result>>)
          ELSE Accept
       /\ ph' = "done" /\ UNCHANGED <<tc, pc, st, li>>
  ELSE /\ st' = r.st /\ li' = li + Len(r.out) /\ pc' = pc + 1 /\ UNCHANGED <<tc, ph>>

Step ==
  /\ ph = "run" /\ pc <= Len(C.body)
  /\ IF pc = 0
     THEN LET d == Locals(C, C.decls, 1, st)
          IN Judge(IF d.k THEN Done(d.v, <<>>) ELSE Fail(st, d.er, <<>>))
     ELSE \E r \in {Stmt(C, C.body[pc], st)} : Judge(r)

End ==
  /\ ph = "run" /\ pc > Len(C.body)
  /\ IF li # Len(C.log) THEN Reject("extra log", <<SubSeq(C.log, li + 1, Len(C.log))>>)
     ELSE IF Ends # "ok" THEN Reject("unexpected error", <<C.result>>)
     ELSE Accept
  /\ ph' = "done" /\ UNCHANGED <<tc, pc, st, li>>

Next == Step \/ End
Spec == Init /\ [][Next]_vars

\* every variable always holds a value of its subtype
InSubtype(t, v) ==
  LET T == C.types[t] IN
  CASE T.k = "s" -> v >= T.lo /\ v <= T.hi
    [] T.k = "a" -> /\ T.n < 0 \/ (Len(v.v) = T.n /\ v.l = T.l /\ v.d = T.d)
                    /\ T.e = 0 \/ \A i \in 1..Len(v.v) : v.v[i] >= C.types[T.e].lo /\ v.v[i] <= C.types[T.e].hi
    [] OTHER -> TRUE
Inv == pc = 0 \/ \A i \in 1..Len(C.decls) : InSubtype(C.vars[C.decls[i][1]], st[C.decls[i][1]])
=============================================================================
