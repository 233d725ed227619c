------------------------------- MODULE Mspace -------------------------------
(* The managed heap at the level of its allocator: objects at addresses,      *)
(* links between them, roots.  An object is live while it can be reached from *)
(* a root through links, also by pointers into its interior or one past its   *)
(* end.  New objects never overlap live ones, live ones keep their contents   *)
(* and are found from any pointer into them.  The collector is conservative:  *)
(* it may keep more, so memory may be reported exhausted only when the live   *)
(* objects and some slack leave no room.                                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Line == 32
Lines(size) == (size + Line) \div Line        \* a pointer one past the end must be inside
Cases == JsonDeserialize(IOEnv.CASES)

VARIABLES tc, objs, roots, pc, ph
vars == <<tc, objs, roots, pc, ph>>
C == Cases[tc]
Total == (C.heap - Line) \div Line

Step1(o, S) == S \cup (UNION {{o[i].links[k] : k \in DOMAIN o[i].links} : i \in S} \ {-1})
RECURSIVE Reach(_, _)
Reach(o, S) == IF Step1(o, S) = S THEN S ELSE Reach(o, Step1(o, S))
LiveSet == Reach(objs, {roots[k] : k \in DOMAIN roots} \ {-1})
LinesOf(o) == (o.off \div Line)..(o.off \div Line + Lines(o.size) - 1)
LiveLines(L) == FoldLeft(LAMBDA a, i : a + Lines(objs[i].size), 0, SetToSeq(L))
\* there must be room for n lines if the live objects, and as much again kept by accident, cannot fill or fragment the heap
MustFit(L, n) == Total - 2 * LiveLines(L) - Total \div 4 > (2 * Cardinality(L) + 8) * (n - 1)

Init == tc \in 1..Len(Cases) /\ objs = <<>> /\ roots = [k \in 0..7 |-> -1] /\ pc = 0 /\ ph = "run"
Legal(o, r, L) ==
  CASE o.c = "alloc" -> IF r[1] = -2 THEN ~MustFit(L, Lines(o.a[2]))
                        ELSE /\ r[1] >= 0 /\ r[1] % Line = 0
                             /\ r[1] \div Line + Lines(o.a[2]) <= Total
                             /\ \A i \in L : LinesOf(objs[i]) \cap LinesOf([off |-> r[1], size |-> o.a[2]]) = {}
    [] o.c = "check" -> r = <<1>>
    [] o.c = "find" -> r = <<0, Lines(objs[o.a[1]].size) * Line>>
    [] o.c = "churn" -> r[1] = 0 \/ ~MustFit(L, Lines(o.a[2]))
    [] OTHER -> r = <<>>
Effect(o, r) ==
  CASE o.c = "alloc" -> objs' = (o.a[1] :> [off |-> r[1], size |-> o.a[2], links |-> [k \in {} |-> -1]]) @@ objs /\ roots' = roots
    [] o.c = "link" -> objs' = [objs EXCEPT ![o.a[1]].links = (o.a[2] :> o.a[3]) @@ @] /\ roots' = roots
    [] o.c = "root" -> objs' = objs /\ roots' = [roots EXCEPT ![o.a[1]] = o.a[2]]
    [] OTHER -> UNCHANGED <<objs, roots>>
Step == /\ ph = "run" /\ pc < Len(C.ops)
        /\ LET o == C.ops[pc + 1] IN
           IF pc >= Len(C.obs) THEN PrintT(<<"REJECT", tc, pc + 1, o, "no result">>) /\ ph' = "done" /\ UNCHANGED <<objs, roots, pc>>
           ELSE \E L \in {IF o.c \in {"alloc", "churn"} THEN LiveSet ELSE {}} :
                  IF ~Legal(o, C.obs[pc + 1], L)
                  THEN /\ PrintT(<<"REJECT", tc, pc + 1, o, "observed", C.obs[pc + 1], "live", [i \in L |-> <<objs[i].off, objs[i].size>>]>>)
                       /\ ph' = "done" /\ UNCHANGED <<objs, roots, pc>>
                  ELSE Effect(o, C.obs[pc + 1]) /\ pc' = pc + 1 /\ ph' = ph
        /\ UNCHANGED tc
End == /\ ph = "run" /\ pc = Len(C.ops) /\ PrintT(<<"ACCEPT", tc>>) /\ ph' = "done" /\ UNCHANGED <<tc, objs, roots, pc>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
