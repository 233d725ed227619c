-------------------------------- MODULE Wave --------------------------------
(* Waveform dumps.  A case has the objects of an elaborated design (signals  *)
(* and ports: scope, path, type, initial value or the part of another object *)
(* that a port is connected to), the options of the dump, the script of      *)
(* assignments (time, delta cycle, object, part, value), and the dump that   *)
(* nvc wrote: for every variable its texts by time.                          *)
(* The state is the simulation: the values of the signals, and the history   *)
(* of the values that each variable has at the end of each time step.        *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, now, at, vals, hist, phase, ev      \* ev: the variables of the dump
vars == <<tc, now, at, vals, hist, phase, ev>>
C == Cases[tc]

(* -- values --------------------------------------------------------------- *)
(* a scalar is an integer, arrays and records are sequences; a part is a     *)
(* sequence of <<"i", k>> and <<"s", first, last>> (a slice)                 *)
RECURSIVE Get(_, _), Put(_, _, _)
Get(v, p) == IF p = <<>> THEN v
             ELSE IF p[1][1] = "i" THEN Get(v[p[1][2]], Tail(p))
             ELSE Get(SubSeq(v, p[1][2], p[1][3]), Tail(p))
Put(v, p, x) == IF p = <<>> THEN x
                ELSE IF p[1][1] = "i" THEN [v EXCEPT ![p[1][2]] = Put(@, Tail(p), x)]
                ELSE SubSeq(v, 1, p[1][2] - 1) \o Put(SubSeq(v, p[1][2], p[1][3]), Tail(p), x) \o SubSeq(v, p[1][3] + 1, Len(v))
\* a port is the part of another object that it is connected to
RECURSIVE Root(_, _)
Root(o, p) == IF C.objs[o].conn = <<>> THEN <<o, p>> ELSE Root(C.objs[o].conn[1], C.objs[o].conn[2] \o p)
Read(vs, o, p) == LET r == Root(o, p) IN Get(vs[r[1]], r[2])
Write(vs, o, p, x) == LET r == Root(o, p) IN [vs EXCEPT ![r[1]] = Put(@, r[2], x)]

(* -- representation ------------------------------------------------------- *)
RECURSIVE Pow2(_), Bits(_, _)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Bits(v, n) == IF n = 0 THEN "" ELSE Bits(v \div 2, n - 1) \o (IF v % 2 = 1 THEN "1" ELSE "0")   \* two's complement: \div rounds down
Join(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
\* the largest unit that divides the value; a factor of zero is one too large for any value but zero
Unit(units, v) == LET s == {i \in 1..Len(units) : IF units[i][1] = 0 THEN v = 0 ELSE (IF v < 0 THEN -v ELSE v) % units[i][1] = 0}
                  IN units[CHOOSE i \in s : \A j \in s : j <= i]
Scalar(t, v) ==
  CASE t.k \in {"logic", "enum"} -> t.lits[v + 1]
    [] t.k = "int" -> Bits(v, t.bits)
    [] t.k = "real" -> ToString(v)                 \* in halves
    [] t.k = "phys" -> LET u == Unit(t.units, v) IN
                       (IF u[1] = 0 THEN "0" ELSE IF v < 0 THEN "-" \o ToString((-v) \div u[1]) ELSE ToString(v \div u[1])) \o " " \o u[2]
RECURSIVE Text(_, _)
Text(t, v) == IF t.k = "array" THEN Join([i \in 1..Len(v) |-> Text(t.elem, v[i])]) ELSE Scalar(t, v)

(* -- the variables that represent an object ------------------------------- *)
Ix(l, dir, i) == ToString(IF dir = "to" THEN l + i - 1 ELSE l - i + 1)
Rng(t) == "[" \o ToString(t.l) \o ":" \o ToString(t.r) \o "]"
Len1(t) == IF t.dir = "to" THEN (IF t.r < t.l THEN 0 ELSE t.r - t.l + 1) ELSE (IF t.l < t.r THEN 0 ELSE t.l - t.r + 1)
RECURSIVE Innermost(_), Total(_), Vars(_, _, _, _), Mem(_, _, _)
Innermost(t) == IF t.k = "array" THEN Innermost(t.elem) ELSE t
Total(t) == IF t.k = "array" THEN Len1(t) * Total(t.elem) ELSE 1
Ok(n) == C.arrays > 0 /\ n <= C.arrays
Flatten(s) == FoldLeft(LAMBDA a, x : a \o x, <<>>, s)
\* arrays of arrays of scalars: one variable for each innermost array
Mem(name, t, part) ==
  IF t.elem.k # "array" THEN <<[name |-> name \o Rng(t), t |-> t, part |-> part]>>
  ELSE Flatten([i \in 1..Len1(t) |-> Mem(name \o "[" \o Ix(t.l, t.dir, i) \o "]", t.elem, Append(part, <<"i", i>>))])
Vars(scope, name, t, part) ==
  IF t.k = "record"
  THEN Flatten([i \in 1..Len(t.fields) |-> Vars(scope \o "." \o name, t.fields[i][1], t.fields[i][2], Append(part, <<"i", i>>))])
  ELSE IF t.k # "array" THEN <<[name |-> scope \o "." \o name, t |-> t, part |-> part]>>
  ELSE IF Innermost(t).k = "record"
  THEN IF Ok(Total(t)) \/ t.inner
       THEN Flatten([i \in 1..Len1(t) |-> Vars(scope, name \o "[" \o Ix(t.l, t.dir, i) \o "]",
                                               IF t.elem.k = "array" THEN [t.elem EXCEPT !.inner = TRUE] ELSE t.elem, Append(part, <<"i", i>>))])
       ELSE <<>>
  ELSE IF t.elem.k = "logic" THEN <<[name |-> scope \o "." \o name \o Rng(t), t |-> t, part |-> part]>>
  ELSE IF ~Ok(Len1(t)) THEN <<>>
  ELSE IF t.elem.k = "array" THEN Mem(scope \o "." \o name, t, part)
  ELSE [i \in 1..Len1(t) |-> [name |-> scope \o "." \o name \o "[" \o Ix(t.l, t.dir, i) \o "]", t |-> t.elem, part |-> Append(part, <<"i", i>>)]]

(* -- which objects are selected ------------------------------------------- *)
RECURSIVE Glob(_, _)
Glob(g, s) == IF g = <<>> THEN s = <<>>
              ELSE IF g[1] = "*" THEN Glob(Tail(g), s) \/ (s # <<>> /\ Glob(g, Tail(s)))
              ELSE s # <<>> /\ s[1] = g[1] /\ Glob(Tail(g), Tail(s))
Selected(o) == o.pkg \/ ((~ \E i \in 1..Len(C.excl) : Glob(C.excl[i], o.path))
                         /\ (C.incl = <<>> \/ \E i \in 1..Len(C.incl) : Glob(C.incl[i], o.path)))
VarsOf(i) == LET o == C.objs[i] IN IF Selected(o) THEN Vars(o.scope, o.name, o.t, <<>>) ELSE <<>>
\* the variables of all objects
Expected == Flatten([i \in 1..Len(C.objs) |-> LET r == Root(i, <<>>) IN
                     FoldLeft(LAMBDA a, x : Append(a, [name |-> x.name, t |-> x.t, root |-> r[1], part |-> r[2] \o x.part, obj |-> i]), <<>>, VarsOf(i))])
\* a port that is the same signal as its actual may be missing if that is not represented by one variable
RECURSIVE Chain(_)
Chain(i) == IF C.objs[i].conn = <<>> THEN {} ELSE {C.objs[i].conn[1]} \cup Chain(C.objs[i].conn[1])
Optional(i) == C.collapse /\
               \E r \in Chain(i) : ~Selected(C.objs[r]) \/ Len(Vars("", "", C.objs[r].t, <<>>)) # 1 \/ C.objs[r].t.k = "record"

(* -- the simulation ------------------------------------------------------- *)
Init == /\ tc \in 1..Len(Cases)
        /\ now = 0 /\ at = 1 /\ phase = "run"
        /\ vals = [i \in 1..Len(C.objs) |-> C.objs[i].init]
        /\ ev = Expected
        /\ hist = [i \in 1..Len(ev) |-> <<>>]

Delta == /\ phase = "run" /\ at <= Len(C.script) /\ C.script[at].time = now
         /\ vals' = FoldLeft(LAMBDA a, e : Write(a, e.obj, e.part, e.v), vals, C.script[at].assign)
         /\ at' = at + 1
         /\ UNCHANGED <<tc, ev, now, hist, phase>>
Record(h) == [i \in 1..Len(ev) |->
               LET x == Text(ev[i].t, Get(vals[ev[i].root], ev[i].part))
               IN IF h[i] # <<>> /\ Last(h[i])[2] = x THEN h[i] ELSE Append(h[i], <<now, x>>)]
Tick == /\ phase = "run"
        /\ IF at <= Len(C.script) THEN C.script[at].time > now ELSE TRUE
        /\ hist' = Record(hist)
        /\ IF at <= Len(C.script) /\ C.script[at].time <= C.stop
           THEN now' = C.script[at].time /\ phase' = phase ELSE now' = now /\ phase' = "done"
        /\ UNCHANGED <<tc, ev, at, vals>>

\* null arrays have no values
Same(h, d) == \/ (\A i \in 1..Len(h) : h[i][2] = "") /\ (\A i \in 1..Len(d) : d[i][2] = "")
              \/ Len(h) = Len(d) /\ \A i \in 1..Len(h) : h[i][1] = d[i][1] /\ h[i][2] = d[i][2]
Names == {ev[i].name : i \in 1..Len(ev)}
Done == /\ phase = "done"
        /\ phase' = "end"
        /\ \E missing \in {{i \in 1..Len(ev) : ev[i].name \notin DOMAIN C.dump /\ ~Optional(ev[i].obj)}},
              wrong \in {{i \in 1..Len(ev) : ev[i].name \in DOMAIN C.dump /\ ~Same(hist[i], C.dump[ev[i].name])}},
              extra \in {(DOMAIN C.dump) \ (Names \cup {"%"})} :
             IF C.failed
             THEN IF \A i \in missing : \A j \in 1..Len(hist[i]) : hist[i][j][2] = "" THEN PrintT(<<"ACCEPT", tc>>)   \* known finding no-signals
                  ELSE PrintT(<<"REJECT", tc, "failed">>)
             ELSE IF C.log # C.plain THEN PrintT(<<"REJECT", tc, "the dump changes the simulation">>)
             ELSE IF missing = {} /\ wrong = {} /\ extra = {} THEN PrintT(<<"ACCEPT", tc>>)
             ELSE PrintT(<<"REJECT", tc, "missing", {ev[i].name : i \in missing}, "wrong",
                           {<<ev[i].name, hist[i], C.dump[ev[i].name]>> : i \in wrong}, "extra", extra>>)
        /\ UNCHANGED <<tc, ev, now, at, vals, hist>>
Next == Delta \/ Tick \/ Done
=============================================================================
