----------------------------- MODULE AdtTrace -----------------------------
(* C.ops were executed by the real code; operation i gave the integers in    *)
(* C.obs[i]; a run that died has fewer results than operations.              *)
EXTENDS Adt, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, st, pc, ph
vars == <<tc, st, pc, ph>>
C == Cases[tc]
Init == tc \in 1..Len(Cases) /\ st = Init0 /\ pc = 0 /\ ph = "run"
Step == /\ ph = "run" /\ pc < Len(C.ops)
        /\ LET o == C.ops[pc + 1] IN
           IF pc >= Len(C.obs)
           THEN PrintT(<<"REJECT", tc, pc + 1, o, "no result">>) /\ ph' = "done" /\ UNCHANGED <<st, pc>>
           ELSE \E d \in {Do(st, o, C.obs[pc + 1])} :
                  IF d[2] THEN st' = d[1] /\ pc' = pc + 1 /\ ph' = ph
                  ELSE PrintT(<<"REJECT", tc, pc + 1, o, "observed", C.obs[pc + 1], "state", st>>) /\ ph' = "done" /\ UNCHANGED <<st, pc>>
        /\ UNCHANGED tc
End == /\ ph = "run" /\ pc = Len(C.ops)
       /\ PrintT(<<"ACCEPT", tc>>) /\ ph' = "done" /\ UNCHANGED <<tc, st, pc>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
===========================================================================
