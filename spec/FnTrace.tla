------------------------------ MODULE FnTrace ------------------------------
(* Trace specification for functional behaviour: every case is a context C     *)
(* (types, objects ...) and a sequence of items, evaluated one after another   *)
(* by the program; item i was observed to give C.obs[i].  Value(C, item) is    *)
(* the value the specification gives it.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Value(_, _)

Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES tc, li, ph
vars == <<tc, li, ph>>
C == Cases[tc]

Init == tc \in 1..Len(Cases) /\ li = 0 /\ ph = "run"

Step == /\ ph = "run" /\ li < Len(C.items)
        /\ LET it == C.items[li + 1] IN
           \E v \in {Value(C, it)} :
              IF v = C.obs[li + 1]
              THEN li' = li + 1 /\ ph' = ph
              ELSE /\ PrintT(<<"REJECT", tc, li + 1, it, "expected", v, "observed", C.obs[li + 1]>>)
                   /\ ph' = "done" /\ li' = li
        /\ UNCHANGED tc
End  == /\ ph = "run" /\ li = Len(C.items)
        /\ PrintT(<<"ACCEPT", tc>>)
        /\ ph' = "done" /\ UNCHANGED <<tc, li>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
