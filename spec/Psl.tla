--------------------------------- MODULE Psl ---------------------------------
(* PSL directives over clocked traces (IEEE 1850, simple subset).  The state  *)
(* is the clock tick and, per directive, the ticks at which an evaluation was *)
(* started that has neither failed nor ended; every tick letter is the vector *)
(* of signal values.  A property fails at the first tick where the weak view  *)
(* of the finite prefix (letters after it satisfy everything) is false.       *)
(* Booleans:   <<"b"|"inv", i>> <<"eq", i, c>> <<"not", b>> <<"and"|"or", list>>     *)
(*             <<"prev", i, n>> <<"rose"|"fell"|"stable", i>>                  *)
(* Sequences:  a Boolean, <<"cat"|"fus", list>>, <<"rep", r, lo, hi>> (hi = -1 *)
(*             for inf), <<"goto"|"equ", b, lo, hi>>, <<"len", r1, r2>>        *)
(* Properties: <<"bool", b>> <<"next", n, P>> <<"imp"|"lor", b, P>>            *)
(*             <<"iff", b, b>> <<"until"|"untilI"|"before"|"beforeI", a, b,    *)
(*             strong>> <<"seq", r>> <<"over"|"non", r, P>> <<"abort", P, b>>  *)
(*             <<"ev", r>>                                                     *)
(* Directives: [k |-> "assert"|"always"|"never"|"cover", p |-> P or sequence]  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, t, active, bad
vars == <<tc, t, active, bad>>
C == Cases[tc]
N == C.n
CAP == 12     \* letters after the prefix that are told apart

True(c) == c \in {"1", "H", "true"}
S(i, p) == C.sig[i][p]

RECURSIVE Val(_, _)
Val(b, p) ==
  CASE b[1] = "b"    -> True(S(b[2], p))
    [] b[1] = "inv"  -> S(b[2], p) \in {"0", "L", "false"}
    [] b[1] = "eq"   -> S(b[2], p) = b[3]
    [] b[1] = "not"  -> ~Val(b[2], p)
    [] b[1] = "and"  -> \A i \in 1..Len(b[2]) : Val(b[2][i], p)
    [] b[1] = "or"   -> \E i \in 1..Len(b[2]) : Val(b[2][i], p)
    [] b[1] = "prev" -> IF p - b[3] < 1 THEN FALSE ELSE True(S(b[2], p - b[3]))
    [] b[1] = "rose" -> IF p = 1 THEN True(S(b[2], p)) ELSE True(S(b[2], p)) /\ ~True(S(b[2], p - 1))
    [] b[1] = "fell" -> IF p = 1 THEN FALSE ELSE ~True(S(b[2], p)) /\ True(S(b[2], p - 1))
    [] b[1] = "stable" -> IF p = 1 THEN ~True(S(b[2], p)) ELSE S(b[2], p) = S(b[2], p - 1)

Holds(b, p, e) == IF p > e THEN TRUE ELSE Val(b, p)
Step1(p, e) == IF p > e + CAP THEN p ELSE p + 1

\* the positions after a tight match of r that begins at position i (prefix 1..e)
RECURSIVE Ends(_, _, _), Pow(_, _, _, _), Closure(_, _, _, _)
Pow(r, X, k, e) == IF k = 0 THEN X ELSE Pow(r, UNION {Ends(r, x, e) : x \in X}, k - 1, e)
Closure(r, X, new, e) == IF new = {} THEN X
                         ELSE Closure(r, X \cup new, UNION {Ends(r, x, e) : x \in new} \ (X \cup new), e)
Ends(r, i, e) ==
  CASE r[1] = "cat"  -> FoldLeft(LAMBDA X, q : UNION {Ends(q, x, e) : x \in X}, {i}, r[2])
    [] r[1] = "fus"  -> FoldLeft(LAMBDA X, q : UNION {{y \in Ends(q, x - 1, e) : y > x - 1} : x \in {x \in X : x > i}},
                                 Ends(r[2][1], i, e), Tail(r[2]))
    [] r[1] = "rep"  -> IF r[4] = -1 THEN Closure(r[2], {}, Pow(r[2], {i}, r[3], e), e)
                        ELSE UNION {Pow(r[2], {i}, k, e) : k \in r[3]..r[4]}
    [] r[1] = "goto" -> Ends(<<"rep", <<"cat", << <<"rep", <<"not", r[2]>>, 0, -1>>, r[2]>> >>, r[3], r[4]>>, i, e)
    [] r[1] = "equ"  -> Ends(<<"cat", << <<"goto", r[2], r[3], r[4]>>, <<"rep", <<"not", r[2]>>, 0, -1>> >> >>, i, e)
    [] r[1] = "len"  -> Ends(r[2], i, e) \cap Ends(r[3], i, e)
    [] OTHER         -> IF Holds(r, i, e) THEN {Step1(i, e)} ELSE {}

\* weak satisfaction from position i by the prefix 1..e
RECURSIVE Weak(_, _, _)
Weak(P, i, e) ==
  CASE P[1] = "bool" -> Holds(P[2], i, e)
    [] P[1] = "next" -> Weak(P[3], i + P[2], e)
    [] P[1] = "imp"  -> i > e \/ ~Val(P[2], i) \/ Weak(P[3], i, e)
    [] P[1] = "lor"  -> Holds(P[2], i, e) \/ Weak(P[3], i, e)
    [] P[1] = "iff"  -> i > e \/ Val(P[2], i) = Val(P[3], i)
    [] P[1] = "until"  -> i > e \/ \E k \in i..e + 1 : Holds(P[3], k, e) /\ \A j \in i..k - 1 : Holds(P[2], j, e)
    [] P[1] = "untilI" -> i > e \/ \E k \in i..e + 1 : Holds(P[3], k, e) /\ \A j \in i..k : Holds(P[2], j, e)
    [] P[1] = "before"  -> i > e \/ \E k \in i..e + 1 : Holds(P[2], k, e) /\ \A j \in i..k : j > e \/ ~Val(P[3], j)
    [] P[1] = "beforeI" -> i > e \/ \E k \in i..e + 1 : Holds(P[2], k, e) /\ \A j \in i..k - 1 : j > e \/ ~Val(P[3], j)
    [] P[1] = "seq"  -> i > e \/ \E y \in Ends(P[2], i, e) : y > i
    [] P[1] = "over" -> \A y \in Ends(P[2], i, e) : (y > i /\ y <= e + 1) => Weak(P[3], y - 1, e)
    [] P[1] = "non"  -> \A y \in Ends(P[2], i, e) : y <= e + 1 => Weak(P[3], y, e)
    [] P[1] = "abort" -> Weak(P[2], i, e) \/ \E k \in i..e : Val(P[3], k) /\ Weak(P[2], i, k - 1)
    [] P[1] = "ev"   -> TRUE

\* an obligation of a strong operator that is still open at the end of the run
RECURSIVE Open(_, _)
Open(P, i) ==
  CASE P[1] = "next" -> i + P[2] <= N /\ Open(P[3], i + P[2])
    [] P[1] = "imp"  -> Val(P[2], i) /\ Open(P[3], i)
    [] P[1] = "lor"  -> ~Val(P[2], i) /\ Open(P[3], i)
    [] P[1] = "ev"   -> \A j \in i..N : \A y \in Ends(P[2], j, N) : y > N + 1
    [] P[1] \in {"until", "untilI", "before", "beforeI"} ->
         P[4] /\ Weak(P, i, N) /\ ~\E k \in i..N : Holds(IF P[1] \in {"before", "beforeI"} THEN P[2] ELSE P[3], k, N)
    [] P[1] = "over" -> \E y \in Ends(P[2], i, N) : y > i /\ y <= N + 1 /\ Open(P[3], y - 1)
    [] P[1] = "non"  -> \E y \in Ends(P[2], i, N) : y <= N /\ Open(P[3], y)
    [] P[1] = "abort" -> Open(P[2], i) /\ \A k \in i..N : ~Val(P[3], k)
    [] OTHER -> FALSE

Init == /\ tc \in 1..Len(Cases)
        /\ t = 1
        /\ active = [d \in 1..Len(C.dirs) |-> {}]
        /\ bad = <<>>

Starts(d) == IF C.dirs[d].k = "assert" THEN IF t = 1 THEN {1} ELSE active[d] ELSE active[d] \cup {t}
Failed(d, A) == {i \in A : ~Weak(C.dirs[d].p, i, t)}
Matched(d, A) == {i \in A : (t + 1) \in Ends(C.dirs[d].p, i, t)}
\* a never property fails once for every start; further matches may be reported too
First(d, A) == {i \in A : \A u \in i..t - 1 : (u + 1) \notin Ends(C.dirs[d].p, i, u)}
Temporal(d) == C.dirs[d].k \in {"assert", "always"}

\* a tick: the directives that report are those with a failing (matching) evaluation
Tick == /\ t <= N
        /\ \E A \in {[d \in 1..Len(C.dirs) |-> Starts(d)]} :
           \E R \in {[d \in 1..Len(C.dirs) |-> IF Temporal(d) THEN Failed(d, A[d]) ELSE Matched(d, A[d])]} :
              /\ active' = [d \in 1..Len(C.dirs) |-> IF Temporal(d) THEN A[d] \ R[d] ELSE A[d]]
              /\ \E X \in {{d \in 1..Len(C.dirs) : R[d] # {}}} :
                   bad' = bad \o SetToSeq({<<d, t, IF d \in X THEN "missing" ELSE "unexpected">> :
                                           d \in {d \in 1..Len(C.dirs) : /\ (d \in X) # (d \in ToSet(C.log[t]))
                                                                        /\ ~(C.dirs[d].k = "never" /\ d \in X /\ First(d, R[d]) = {})}})
        /\ t' = t + 1
        /\ UNCHANGED tc

\* the end of the run: open obligations of strong operators are reported
End == /\ t = N + 1
       /\ \E X \in {{d \in 1..Len(C.dirs) : Temporal(d) /\ \E i \in active[d] : i <= N /\ Open(C.dirs[d].p, i)}} :
          \E B \in {bad \o SetToSeq({<<d, N + 1, IF d \in X THEN "missing" ELSE "unexpected">> :
                                     d \in {d \in 1..Len(C.dirs) : (d \in X) # (d \in ToSet(C.end))}})} :
            IF B = <<>> THEN PrintT(<<"ACCEPT", tc>>) ELSE PrintT(<<"REJECT", tc, B>>)
       /\ t' = N + 2
       /\ UNCHANGED <<tc, active, bad>>
Next == Tick \/ End
=============================================================================
