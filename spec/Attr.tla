-------------------------------- MODULE Attr --------------------------------
(* Predefined attributes of scalar and array types, string representations,    *)
(* conversions, and the predefined operators on arrays (IEEE Std 1076-2008     *)
(* 5.2, 5.3, 9.2, 16.2).  Scalar values are positions (numbers).               *)
(*   type:  [k |-> "int" | "enum" | "phys", l, r, d (0 to, 1 downto), bl, br   *)
(*           (bounds of the base type), names (enum), units, mult (phys)]      *)
(*   array: [dims |-> <<[l, r, d, ...]>>]                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Lo(T) == IF T.d = 0 THEN T.l ELSE T.r
Hi(T) == IF T.d = 0 THEN T.r ELSE T.l
Length(T) == IF Hi(T) < Lo(T) THEN 0 ELSE Hi(T) - Lo(T) + 1
Bit(b) == IF b THEN 1 ELSE 0
Indices(T) == [i \in 1..Length(T) |-> IF T.d = 0 THEN T.l + i - 1 ELSE T.l - i + 1]

Image(T, v) == CASE T.k = "int" -> ToString(v)
                 [] T.k = "enum" -> T.names[v + 1]
                 [] T.k = "phys" -> ToString(v) \o " " \o T.units[1]

RECURSIVE Digits(_, _)
Digits(ds, base) == IF ds = <<>> THEN 0 ELSE Digits(SubSeq(ds, 1, Len(ds) - 1), base) * base + ds[Len(ds)]
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)

-----------------------------------------------------------------------------
(* Arrays of discrete elements                                                 *)
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b)
              ELSE Less(Tail(a), Tail(b))
Rel(op, a, b) == CASE op = "=" -> a = b [] op = "/=" -> a # b
                   [] op = "<" -> Less(a, b) [] op = "<=" -> a = b \/ Less(a, b)
                   [] op = ">" -> Less(b, a) [] op = ">=" -> a = b \/ Less(b, a)
RelI(op, a, b) == CASE op = "=" -> a = b [] op = "/=" -> a # b [] op = "<" -> a < b
                    [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b

L2(op, x, y) == CASE op = "and" -> x * y [] op = "or" -> x + y - x * y [] op = "xor" -> (x + y) % 2
                  [] op = "nand" -> 1 - x * y [] op = "nor" -> 1 - (x + y - x * y) [] op = "xnor" -> (x + y + 1) % 2
LogicV(op, a, b) == [i \in 1..Len(a) |-> L2(op, a[i], b[i])]

\* reduction: the null array gives the identity of the operator
Reduce(op, a) ==
  LET pos == CASE op \in {"and", "nand"} -> FoldLeft(LAMBDA x, y : x * y, 1, a)
               [] op \in {"or", "nor"} -> FoldLeft(LAMBDA x, y : IF x + y > 0 THEN 1 ELSE 0, 0, a)
               [] OTHER -> FoldLeft(LAMBDA x, y : (x + y) % 2, 0, a)
  IN IF op \in {"nand", "nor", "xnor"} THEN 1 - pos ELSE pos

Mod(a, b) == a % b        \* b > 0
RECURSIVE Shift(_, _, _, _)
Shift(op, a, n, fill) ==
  LET len == Len(a) IN
  IF len = 0 THEN a ELSE
  CASE op = "sll" -> IF n < 0 THEN Shift("srl", a, -n, fill)
                     ELSE [i \in 1..len |-> IF i + n <= len THEN a[i + n] ELSE fill]
    [] op = "srl" -> IF n < 0 THEN Shift("sll", a, -n, fill)
                     ELSE [i \in 1..len |-> IF i - n >= 1 THEN a[i - n] ELSE fill]
    [] op = "sla" -> IF n < 0 THEN Shift("sra", a, -n, fill) ELSE Shift("sll", a, n, a[len])
    [] op = "sra" -> IF n < 0 THEN Shift("sla", a, -n, fill) ELSE Shift("srl", a, n, a[1])
    [] op = "rol" -> [i \in 1..len |-> a[((i - 1 + n) % len) + 1]]
    [] op = "ror" -> [i \in 1..len |-> a[((i - 1 - n) % len) + 1]]


HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
StrOf(a) == FoldLeft(LAMBDA s, x : s \o HexDigit[x + 1], "", a)
\* groups of n bits from the right, the leftmost extended with 0
Groups(a, n) ==
  LET m == (Len(a) + n - 1) \div n
      pad == m * n - Len(a)
      bit(k) == IF k <= pad THEN 0 ELSE a[k - pad]
  IN [g \in 1..m |-> Digits([j \in 1..n |-> bit((g - 1) * n + j)], 2)]

\* rounding to the nearest integer of a number given in quarters (ties excluded)
Round4(q) == IF q >= 0 THEN (q + 2) \div 4 ELSE -((-q + 2) \div 4)

-----------------------------------------------------------------------------
AttrValue(C, it) ==
  LET T == C.types[it.t]
      A == it.a
      op == it.op
      D == T.dims[it.n]
  IN
  CASE op = "left" -> <<T.l>>
    [] op = "right" -> <<T.r>>
    [] op = "low" -> <<Lo(T)>>
    [] op = "high" -> <<Hi(T)>>
    [] op = "ascending" -> <<Bit(T.d = 0)>>
    [] op = "bleft" -> <<T.bl>>
    [] op = "bright" -> <<T.br>>
    [] op = "pos" -> A
    [] op = "val" -> A
    [] op = "succ" -> <<A[1] + 1>>
    [] op = "pred" -> <<A[1] - 1>>
    [] op = "leftof" -> <<IF T.d = 0 THEN A[1] - 1 ELSE A[1] + 1>>
    [] op = "rightof" -> <<IF T.d = 0 THEN A[1] + 1 ELSE A[1] - 1>>
    [] op = "image" -> Image(T, A[1])
    [] op = "roundtrip" -> A
    [] op = "value" ->     \* digits A in base it.base with exponent it.exp and sign, units it.n
         <<it.sign * Digits(A, it.base) * Pow(it.base, it.exp) * (IF T.k = "phys" THEN T.mult[it.n] ELSE 1)>>
    [] op = "rel" -> <<Bit(RelI(it.f, A[1], A[2]))>>
    [] op = "min" -> <<Min({A[1], A[2]})>>
    [] op = "max" -> <<Max({A[1], A[2]})>>
    [] op = "in" -> Indices(T)
    \* arrays: attribute of dimension n
    [] op = "aleft" -> <<D.l>>
    [] op = "aright" -> <<D.r>>
    [] op = "alow" -> <<Lo(D)>>
    [] op = "ahigh" -> <<Hi(D)>>
    [] op = "aascending" -> <<Bit(D.d = 0)>>
    [] op = "alength" -> <<Length(D)>>
    [] op = "arange" -> Indices(D)
    [] op = "arevrange" -> Reverse(Indices(D))
    \* operators on one-dimensional arrays
    [] op = "vrel" -> <<Bit(Rel(it.f, A, it.b))>>
    \* arrays of the same elements: equal if each element has a matching one
    [] op = "mdeq" -> <<Bit((A = it.b \/ (A[1] * A[2] = 0 /\ it.b[1] * it.b[2] = 0)) = (it.f = "="))>>
    [] op = "vlogic" -> LogicV(it.f, A, it.b)
    [] op = "vslogic" -> [i \in 1..Len(A) |-> L2(it.f, A[i], it.b[1])]
    [] op = "svlogic" -> [i \in 1..Len(A) |-> L2(it.f, it.b[1], A[i])]
    [] op = "vnot" -> [i \in 1..Len(A) |-> 1 - A[i]]
    [] op = "vreduce" -> <<Reduce(it.f, A)>>
    [] op = "vshift" -> Shift(it.f, A, it.n, it.b[1])
    [] op = "vmin" -> IF Less(A, it.b) THEN A ELSE it.b
    [] op = "vmax" -> IF Less(A, it.b) THEN it.b ELSE A
    [] op = "vmine" -> <<Min(ToSet(A))>>
    [] op = "vmaxe" -> <<Max(ToSet(A))>>
    [] op = "vcat" -> A \o it.b
    [] op = "vslice" -> SubSeq(A, it.b[1], it.b[2])
    [] op = "vstr" -> StrOf(A)
    [] op = "vhstr" -> StrOf(Groups(A, 4))
    [] op = "vostr" -> StrOf(Groups(A, 3))
    [] op = "round" -> <<Round4(A[1])>>
    [] op = "conv" -> A
=============================================================================
