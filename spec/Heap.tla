-------------------------------- MODULE Heap --------------------------------
(* Objects created by allocators and the access values that designate them.    *)
(* Every object is a sequence of words; object 1 holds the variables.  A word  *)
(* is an integer or an access value: 0 for null, else the number of the        *)
(* designated object.  A path <<i, f, g>> denotes field g of the object        *)
(* designated by field f of the object designated by variable i.               *)
(* There is no collection here: objects exist for ever, so an implementation   *)
(* refines this only if its collector never shows.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

NoLoc == <<0, 0>>
\* h: sequence of objects; <<object, field>> or NoLoc if a null access value is dereferenced
Loc(h, p) == FoldLeft(LAMBDA l, f : IF l = NoLoc THEN l ELSE
                          LET r == h[l[1]][l[2]] IN IF r = 0 THEN NoLoc ELSE <<r, f>>, <<1, p[1]>>, Tail(p))
Get(h, p) == LET l == Loc(h, p) IN h[l[1]][l[2]]
PutL(h, l, v) == [h EXCEPT ![l[1]][l[2]] = v]
Put(h, p, v) == PutL(h, Loc(h, p), v)
Ok(h, p) == Loc(h, p) # NoLoc
\* the object designated by the access value at p
Ok2(h, p) == Ok(h, p) /\ Get(h, p) # 0

\* cells are <<value, a, b, w>>
RECURSIVE Build(_, _, _, _)
\* a list of n cells with values b+n-1 .. b; tail t: <<heap, head>>
Build(h, t, n, b) == IF n = 0 THEN <<h, t>> ELSE Build(Append(h, <<b, t, 0, 0>>), Len(h) + 1, n - 1, b + 1)
RECURSIVE Copy(_, _, _)
\* copy of depth d through a and b
Copy(h, r, d) ==
  IF r = 0 \/ d = 0 THEN <<h, 0>> ELSE
  LET x == Copy(h, h[r][2], d - 1)
      y == Copy(x[1], h[r][3], d - 1)
  IN <<Append(y[1], <<h[r][1], x[2], y[2], 0>>), Len(y[1]) + 1>>
\* values met walking a list, at most n
RECURSIVE Walk(_, _, _)
Walk(h, r, n) == IF r = 0 \/ n = 0 THEN <<>> ELSE <<h[r][1]>> \o Walk(h, h[r][2], n - 1)

Fields(o, it) ==     \* the words of an allocated cell; it: sequence of [k, n, p]
  [i \in 1..Len(it) |-> IF it[i].k = "int" THEN it[i].n ELSE IF it[i].k = "null" THEN 0 ELSE Get(o, it[i].p)]

(* The effect of operation o on heap h: <<new heap, logged values>>; <<>> when   *)
(* a null access value is dereferenced.                                        *)
Paths(o) == {o.p} \cup (IF o.op \in {"set", "swap", "copy", "eq", "copyall", "newcopy", "vecset2", "cat", "get"} THEN {o.q} ELSE {})
            \cup (IF o.op = "cat" THEN {o.r} ELSE {})
            \cup (IF o.op = "new" THEN {o.f[i].p : i \in {j \in 1..Len(o.f) : o.f[j].k = "path"}} ELSE {})
\* paths that must designate an object
Derefs(o) == (IF o.op \in {"vecget", "vecset", "vecall", "vecsum", "pop", "copyall"} THEN {o.p} ELSE {})
             \cup (IF o.op \in {"copyall", "newcopy"} THEN {o.q} ELSE {}) \cup (IF o.op = "cat" THEN {o.q, o.r} ELSE {})
Effect(h, o) ==
  IF (\E p \in Paths(o) : ~Ok(h, p)) \/ (\E p \in Derefs(o) : ~Ok2(h, p)) THEN <<>> ELSE
  CASE o.op = "set"    -> <<Put(h, o.p, Get(h, o.q)), <<>>>>
    [] o.op = "null"   -> <<Put(h, o.p, 0), <<>>>>
    [] o.op = "free"   -> <<Put(h, o.p, 0), <<>>>>
    [] o.op = "int"    -> <<Put(h, o.p, o.n), <<>>>>
    [] o.op = "new"    -> <<Put(Append(h, Fields(h, o.f)), o.p, Len(h) + 1), <<>>>>
    [] o.op = "newvec" -> <<Put(Append(h, o.v), o.p, Len(h) + 1), <<>>>>
    [] o.op = "bigvec" -> <<Put(Append(h, [i \in 1..o.n |-> (o.m * i) % 1009]), o.p, Len(h) + 1), <<>>>>
    \* allocator with the value of another object
    [] o.op = "newcopy" -> <<Put(Append(h, h[Get(h, o.q)]), o.p, Len(h) + 1), <<>>>>
    [] o.op = "copyall" -> <<[h EXCEPT ![Get(h, o.p)] = h[Get(h, o.q)]], <<>>>>
    [] o.op = "cat"    -> <<Put(Append(h, h[Get(h, o.q)] \o h[Get(h, o.r)]), o.p, Len(h) + 1), <<>>>>
    [] o.op = "swap"   -> <<PutL(PutL(h, Loc(h, o.p), Get(h, o.q)), Loc(h, o.q), Get(h, o.p)), <<>>>>
    [] o.op = "list"   -> LET b == Build(h, Get(h, o.p), o.n, o.m) IN <<Put(b[1], o.p, b[2]), <<>>>>
    [] o.op = "copy"   -> LET c == Copy(h, Get(h, o.q), o.n) IN <<Put(c[1], o.p, c[2]), <<>>>>
    [] o.op = "vecset" -> <<[h EXCEPT ![Get(h, o.p)][o.m] = o.n], <<>>>>
    [] o.op = "push"   -> <<Put(Append(h, <<o.n, Get(h, o.p), 0, 0>>), o.p, Len(h) + 1), <<>>>>
    [] o.op = "pop"    -> <<Put(h, o.p, h[Get(h, o.p)][2]), <<h[Get(h, o.p)][1]>>>>
    [] o.op = "get"    -> <<h, <<Get(h, o.p), Get(h, o.q)>>>>
    [] o.op = "log"    -> <<h, <<Get(h, o.p)>>>>
    [] o.op = "isnull" -> <<h, <<IF Get(h, o.p) = 0 THEN 1 ELSE 0>>>>
    [] o.op = "eq"     -> <<h, <<IF Get(h, o.p) = Get(h, o.q) THEN 1 ELSE 0>>>>
    [] o.op = "walk"   -> <<h, Walk(h, Get(h, o.p), o.n)>>
    [] o.op = "vecall" -> <<h, h[Get(h, o.p)]>>
    [] o.op = "vecsum" -> <<h, <<FoldLeft(LAMBDA s, x : (s + x) % 10007, 0, h[Get(h, o.p)]), Len(h[Get(h, o.p)])>>>>
    [] o.op = "vecget" -> <<h, <<h[Get(h, o.p)][o.m]>>>>
    [] o.op = "churn"  -> <<h, <<>>>>

=============================================================================
