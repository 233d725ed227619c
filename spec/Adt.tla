-------------------------------- MODULE Adt --------------------------------
(* Abstract data types behind nvc's tables and queues.  A state is a record;  *)
(* Do(s, o) is <<next state, results>> where results is the set of admissible *)
(* results (sequences of integers) of operation o = [c, a, s, t].             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions, TLC

(* maps of small integers; 0 is "no value" *)
NoMap == [k \in {} |-> 0]
Get(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
Put(m, k, v) == (k :> v) @@ m
Live(m) == {k \in DOMAIN m : m[k] # 0}
Pairs(r) == {<<r[2 * i - 1], r[2 * i]>> : i \in 1..(Len(r) \div 2)}
\* a failed exchange may leave an entry without a value
Listing(m, r) == /\ Len(r) = 2 * Cardinality(Pairs(r))
                 /\ {x \in Pairs(r) : x[2] # 0} = {<<k, m[k]>> : k \in Live(m)}
                 /\ \A x \in Pairs(r) : x[1] \in DOMAIN m \/ x[2] = 0

Init0 == [m |-> NoMap, q |-> {}, b |-> <<<<>>, <<>>>>, l |-> <<>>, names |-> <<>>, known |-> {}]

Key(o) == IF o.f = "ghash" THEN o.a[1] \div 2 ELSE o.a[1]       \* the user supplied equality of the harness

MapDo(s, o, r) ==
  CASE o.c = "new" -> <<[s EXCEPT !.m = NoMap], TRUE>>
    [] o.c = "put" -> <<[s EXCEPT !.m = Put(s.m, Key(o), IF o.f = "hset" THEN 1 ELSE o.a[2])],
                        (o.f = "hash" /\ (Get(s.m, Key(o)) # 0 \/ Key(o) \notin DOMAIN s.m)) => r = <<IF Get(s.m, Key(o)) # 0 THEN 1 ELSE 0>> >>
    [] o.c = "get" -> <<s, r = <<Get(s.m, Key(o))>> >>
    [] o.c = "delete" -> <<[s EXCEPT !.m = Put(s.m, Key(o), 0)], TRUE>>
    [] o.c = "iter" -> <<s, Listing(s.m, r)>>
    [] o.c = "cas" -> <<IF Get(s.m, Key(o)) = o.a[2] THEN [s EXCEPT !.m = Put(s.m, Key(o), o.a[3])] ELSE s, r = <<Get(s.m, Key(o))>> >>

(* priority queue: a set of <<key, value>> with distinct values *)
MinKey(q) == CHOOSE k \in {x[1] : x \in q} : \A x \in q : k <= x[1]
QueueDo(s, o, r) ==
  CASE o.c = "new" -> <<[s EXCEPT !.q = {}], TRUE>>
    [] o.c = "insert" -> <<[s EXCEPT !.q = @ \cup {<<o.a[1], o.a[2]>>}], TRUE>>
    [] o.c = "min" -> <<s, r[1] = MinKey(s.q) /\ <<r[1], r[2]>> \in s.q>>
    [] o.c = "extract" -> <<[s EXCEPT !.q = @ \ {<<r[1], r[2]>>}], r[1] = MinKey(s.q) /\ <<r[1], r[2]>> \in s.q>>
    [] o.c = "size" -> <<s, r = <<Cardinality(s.q)>> >>
    [] o.c = "walk" -> <<s, Len(r) = 2 * Cardinality(s.q) /\ Pairs(r) = s.q>>
    [] o.c = "delete" -> <<[s EXCEPT !.q = {x \in @ : x[2] # o.a[1]}], r = <<IF \E x \in s.q : x[2] = o.a[1] THEN 1 ELSE 0>> >>

(* two bit vectors of the same length, numbered from 0: a set of bits each *)
MaskDo(s, o, r) ==
  LET i == IF o.c \in {"new", "eq"} THEN 1 ELSE o.a[1] + 1
      n == s.b[1]
      M == s.b[1 + i]
      O == s.b[4 - i]
      Set(x) == [s EXCEPT !.b[1 + i] = x]
      Rng == o.a[2]..(o.a[2] + o.a[3] - 1)
  IN
  CASE o.c = "new" -> <<[s EXCEPT !.b = <<o.a[1], {}, {}>>], TRUE>>
    [] o.c = "set" -> <<Set(M \cup {o.a[2]}), TRUE>>
    [] o.c = "clear" -> <<Set(M \ {o.a[2]}), TRUE>>
    [] o.c = "test" -> <<s, r = <<IF o.a[2] \in M THEN 1 ELSE 0>> >>
    [] o.c = "tas" -> <<Set(M \cup {o.a[2]}), r = <<IF o.a[2] \in M THEN 1 ELSE 0>> >>
    [] o.c = "setr" -> <<Set(M \cup Rng), TRUE>>
    [] o.c = "clearr" -> <<Set(M \ Rng), TRUE>>
    [] o.c = "testr" -> <<s, r = <<IF Rng \cap M # {} THEN 1 ELSE 0>> >>
    [] o.c = "setall" -> <<Set(0..(n - 1)), TRUE>>
    [] o.c = "clearall" -> <<Set({}), TRUE>>
    [] o.c = "pop" -> <<s, r = <<Cardinality(M)>> >>
    [] o.c = "back" -> <<s, LET S == {b \in M : b <= o.a[2]} IN r = <<IF S = {} THEN -1 ELSE CHOOSE b \in S : \A x \in S : x <= b>> >>
    [] o.c = "count" -> <<s, LET S == {b \in M : b >= o.a[2]} IN r = <<(IF S = {} THEN n ELSE CHOOSE b \in S : \A x \in S : b <= x) - o.a[2]>> >>
    [] o.c = "sub" -> <<Set(M \ O), TRUE>>
    [] o.c = "union" -> <<Set(M \cup O), TRUE>>
    [] o.c = "inter" -> <<Set(M \cap O), TRUE>>
    [] o.c = "copy" -> <<Set(O), TRUE>>
    [] o.c = "eq" -> <<s, r = <<IF s.b[2] = s.b[3] THEN 1 ELSE 0>> >>
    [] o.c = "iter" -> <<s, Len(r) = Cardinality(M) /\ Range(r) = M /\ \A j \in 1..(Len(r) - 1) : r[j] < r[j + 1]>>

(* sequences *)
ListDo(s, o, r) ==
  LET l == s.l IN
  CASE o.c = "new" -> <<[s EXCEPT !.l = <<>>], TRUE>>
    [] o.c = "push" -> <<[s EXCEPT !.l = Append(l, o.a[1])], TRUE>>
    [] o.c = "pop" -> <<[s EXCEPT !.l = SubSeq(l, 1, Len(l) - 1)], r = <<l[Len(l)]>> >>
    [] o.c = "get" -> <<s, r = <<l[o.a[1] + 1]>> >>
    [] o.c = "trim" -> <<[s EXCEPT !.l = SubSeq(l, 1, o.a[1])], TRUE>>
    [] o.c = "resize" -> <<[s EXCEPT !.l = [i \in 1..o.a[1] |-> IF i <= Len(l) THEN l[i] ELSE o.a[2]]], TRUE>>
    [] o.c = "all" -> <<s, r = l>>

-----------------------------------------------------------------------------
(* names: strings of character codes; a handle is the position of the name in *)
(* the order in which handles were first handed out                           *)
Lower(c) == IF (c \in 65..90) \/ (c \in 192..222 /\ c # 215) THEN c + 32 ELSE c
LowerS(x) == [i \in DOMAIN x |-> Lower(x[i])]
First(x, c) == LET P == {i \in DOMAIN x : x[i] = c} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Last1(x, c) == LET P == {i \in DOMAIN x : x[i] = c} IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : j <= i
Until(x, c) == IF First(x, c) = 0 THEN x ELSE SubSeq(x, 1, First(x, c) - 1)
RUntil(x, c) == IF Last1(x, c) = 0 THEN x ELSE SubSeq(x, 1, Last1(x, c) - 1)
RFrom(x, c) == IF Last1(x, c) = 0 THEN x ELSE SubSeq(x, Last1(x, c) + 1, Len(x))
RECURSIVE Glob(_, _)
\* a star stands for any number of characters
Glob(x, g) == IF g = <<>> THEN x = <<>>
              ELSE IF g[1] = 42 THEN Glob(x, Tail(g)) \/ (x # <<>> /\ Glob(Tail(x), g))
              ELSE x # <<>> /\ x[1] = g[1] /\ Glob(Tail(x), Tail(g))
Prefix(x, y) == Len(x) <= Len(y) /\ SubSeq(y, 1, Len(x)) = x
RECURSIVE Cmp(_, _)
Cmp(x, y) == IF x = <<>> /\ y = <<>> THEN 0 ELSE IF x = <<>> THEN -1 ELSE IF y = <<>> THEN 1
             ELSE IF x[1] = y[1] THEN Cmp(Tail(x), Tail(y)) ELSE IF x[1] < y[1] THEN -1 ELSE 1
\* edit distance, row by row
MinOf(a, b) == IF a < b THEN a ELSE b
Row(v, x, i, y) == FoldLeft(LAMBDA w, j : Append(w, MinOf(MinOf(v[j + 1] + 1, w[j] + 1), IF x[i] = y[j] THEN v[j] ELSE v[j] + 1)),
                            <<i>>, [j \in 1..Len(y) |-> j])
Dist(x, y) == FoldLeft(LAMBDA v, i : Row(v, x, i, y), [j \in 1..(Len(y) + 1) |-> j - 1], [i \in 1..Len(x) |-> i])[Len(y) + 1]
\* selected names: separated by dots that are neither in an extended identifier nor in a character or string of quotes
Dot(x) == FoldLeft(LAMBDA st, i : IF st[2] # 0 THEN st
                                  ELSE IF x[i] = 46 /\ st[1] = 0 THEN <<0, i>>
                                  ELSE IF x[i] = 39 /\ st[1] # 92 THEN <<IF st[1] = 39 THEN 0 ELSE 39, 0>>
                                  ELSE IF x[i] = 92 /\ st[1] # 39 THEN <<IF st[1] = 92 THEN 0 ELSE 92, 0>> ELSE st,
                   <<0, 0>>, [i \in 1..Len(x) |-> i])[2]
RECURSIVE Parts(_)
Parts(x) == IF Dot(x) = 0 THEN <<x>> ELSE <<SubSeq(x, 1, Dot(x) - 1)>> \o Parts(SubSeq(x, Dot(x) + 1, Len(x)))

\* handing out names: the expected rendering "handle length characters" and the new list
Handle(ns, x) == IF \E i \in DOMAIN ns : ns[i] = x THEN ns ELSE Append(ns, x)
Render(ns, x) == <<(CHOOSE i \in DOMAIN ns : ns[i] = x) - 1, Len(x)>> \o x
IsDigits(x) == \A i \in DOMAIN x : x[i] \in 48..57
Names(s, o, new, r, used) ==      \* the operation hands out the names new, one after another
  \E ns \in {FoldLeft(LAMBDA l, x : Handle(l, x), s.names, new)} :
     r = FoldLeft(LAMBDA acc, x : acc \o Render(ns, x), <<>>, new)
NamesNext(s, new, used) == [s EXCEPT !.names = FoldLeft(LAMBDA l, x : Handle(l, x), @, new), !.known = @ \cup ToSet(new) \cup used]
NameDo(s, o, r) ==
  LET x == o.s
      y == o.t
      Out(n) == <<NamesNext(s, <<n>>, {x}), Names(s, o, <<n>>, r, {x})>>
      Val(v) == <<[s EXCEPT !.known = @ \cup (IF o.c = "glob" THEN {x} ELSE {x, y})], r = v>>
      B(p) == IF p THEN 1 ELSE 0
  IN
  CASE o.c = "new" \/ o.c = "sprintf" -> Out(x)
    [] o.c = "new_n" -> <<NamesNext(s, <<SubSeq(x, 1, o.a[1])>>, {}), Names(s, o, <<SubSeq(x, 1, o.a[1])>>, r, {})>>
    [] o.c = "uniq" -> LET n == SubSeq(r, 3, Len(r)) IN
                       <<NamesNext(s, <<n>>, {}), /\ n \notin s.known /\ Prefix(x, n) /\ IsDigits(SubSeq(n, Len(x) + 1, Len(n)))
                                                  /\ Names(s, o, <<n>>, r, {}) >>
    [] o.c = "prefix" -> <<NamesNext(s, <<x \o (IF o.a[1] = 0 THEN <<>> ELSE <<o.a[1]>>) \o y>>, {x, y}),
                           Names(s, o, <<x \o (IF o.a[1] = 0 THEN <<>> ELSE <<o.a[1]>>) \o y>>, r, {x, y})>>
    [] o.c = "until" -> Out(Until(x, o.a[1]))
    [] o.c = "runtil" -> Out(RUntil(x, o.a[1]))
    [] o.c = "from" -> IF First(x, o.a[1]) = 0 THEN Val(<<-1>>) ELSE Out(SubSeq(x, First(x, o.a[1]) + 1, Len(x)))
    [] o.c = "rfrom" -> Out(RFrom(x, o.a[1]))
    [] o.c = "pos" -> Val(<<First(x, o.a[1]) - 1>>)
    [] o.c = "down" -> Out(LowerS(x))
    [] o.c = "starts" -> Val(<<B(Prefix(y, x))>>)
    [] o.c = "glob" -> Val(<<B(Glob(x, y))>>)
    [] o.c = "cmp" -> Val(<<Cmp(x, y), B(x = y)>>)
    [] o.c = "casecmp" -> Val(<<B(LowerS(x) = LowerS(y)), 1>>)
    [] o.c = "dist" -> Val(<<Dist(x, y)>>)
    [] o.c = "walk" -> <<NamesNext(s, Parts(x), {x}), Names(s, o, Parts(x), Tail(r), {x})>>
    [] o.c = "many" -> <<s, r = <<>> >>

Do(s, o, r) == IF o.f = "heap" THEN QueueDo(s, o, r)
               ELSE IF o.f = "mask" THEN MaskDo(s, o, r)
               ELSE IF o.f = "arr" THEN ListDo(s, o, r)
               ELSE IF o.f = "id" THEN NameDo(s, o, r)
               ELSE MapDo(s, o, r)
=============================================================================
