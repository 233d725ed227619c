------------------------------ MODULE HeapTrace ------------------------------
(* C.ops were executed by a process on the initial heap C.init; operation i     *)
(* logged C.obs[i]; C.err is "null" if the run ended with a null access error.  *)
EXTENDS Heap, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, h, pc, ph
vars == <<tc, h, pc, ph>>
C == Cases[tc]
Init == tc \in 1..Len(Cases) /\ h = C.init /\ pc = 0 /\ ph = "run"
Reject(w, e) == PrintT(<<"REJECT", tc, pc + 1, IF pc < Len(C.ops) THEN C.ops[pc + 1] ELSE "end", w, e, "observed", IF pc < Len(C.ops) THEN C.obs[pc + 1] ELSE C.err>>)
Step == /\ ph = "run" /\ pc < Len(C.ops)
        /\ \E e \in {Effect(h, C.ops[pc + 1])} :
             IF e = <<>> THEN
               /\ IF C.err = "null" /\ \A j \in (pc + 1)..Len(C.ops) : C.obs[j] = <<>> THEN PrintT(<<"ACCEPT", tc>>) ELSE Reject("expected null access error", C.err)
               /\ ph' = "done" /\ UNCHANGED <<h, pc>>
             ELSE IF e[2] = C.obs[pc + 1] THEN h' = e[1] /\ pc' = pc + 1 /\ ph' = ph
             ELSE Reject("expected", e[2]) /\ ph' = "done" /\ UNCHANGED <<h, pc>>
        /\ UNCHANGED tc
End == /\ ph = "run" /\ pc = Len(C.ops)
       /\ IF C.err = "" THEN PrintT(<<"ACCEPT", tc>>) ELSE Reject("unexpected error", C.err)
       /\ ph' = "done" /\ UNCHANGED <<tc, h, pc>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
