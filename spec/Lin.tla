-------------------------------- MODULE Lin --------------------------------
(* Linearizability of concurrent histories of one cell: operations            *)
(* [th, op, val, cmp, res, t0, t1] with real time intervals [t0, t1].  The    *)
(* behaviours choose an order; a case is accepted if some order explains it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, cell, todo
vars == <<tc, cell, todo>>
H == Cases[tc].ops
Init == tc \in 1..Len(Cases) /\ cell = Cases[tc].init /\ todo = 1..Len(Cases[tc].ops)
\* an operation may take effect next if no other one that is still to do ended before it began
Ready(i) == \A j \in todo : H[j].t1 > H[i].t0
Apply(i) == LET o == H[i] IN
   CASE o.op = "put" -> cell' = o.val
     [] o.op = "get" -> o.res = cell /\ cell' = cell
     [] o.op = "cas" -> o.res = cell /\ cell' = (IF cell = o.cmp THEN o.val ELSE cell)
Next == \E i \in todo : /\ Ready(i) /\ Apply(i) /\ todo' = todo \ {i} /\ UNCHANGED tc
                        /\ (todo' = {} => PrintT(<<"ACCEPT", tc>>))
Spec == Init /\ [][Next]_vars
============================================================================
