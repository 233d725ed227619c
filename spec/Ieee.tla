-------------------------------- MODULE Ieee --------------------------------
(* The functions of IEEE std_logic_1164 and numeric_std on values of any       *)
(* length.  A vector is the sequence of the positions 0..8 of its elements     *)
(* 'U' 'X' '0' '1' 'Z' 'W' 'L' 'H' '-', leftmost (most significant) first.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, StdLogic

Bit(b) == IF b THEN 1 ELSE 0
Xs(n) == [i \in 1..n |-> 1]
Zeros(n) == [i \in 1..n |-> 0]
Max2(a, b) == IF a > b THEN a ELSE b
Meta(x) == x \notin {2, 3, 6, 7}
HasMeta(a) == \E i \in 1..Len(a) : Meta(a[i])
\* to and from sequences of bits
Bits(a) == [i \in 1..Len(a) |-> IF a[i] \in {3, 7} THEN 1 ELSE 0]
Std(b) == [i \in 1..Len(b) |-> b[i] + 2]

-----------------------------------------------------------------------------
(* Arithmetic on sequences of bits of any length, most significant bit first   *)
Idx(n) == [i \in 1..n |-> i]
AddC(a, b, c) ==      \* same length, result modulo 2^length
  FoldLeft(LAMBDA s, i : LET t == a[Len(a) + 1 - i] + b[Len(a) + 1 - i] + s[1] IN <<t \div 2, <<t % 2>> \o s[2]>>, <<c, <<>>>>, Idx(Len(a)))[2]
Not(a) == [i \in 1..Len(a) |-> 1 - a[i]]
Add(a, b) == AddC(a, b, 0)
Sub(a, b) == AddC(a, Not(b), 1)
Neg(a) == AddC(Not(a), Zeros(Len(a)), 1)
\* -1, 0, 1 as a < b, a = b, a > b (same length)
Cmp(a, b) == FoldLeft(LAMBDA c, i : IF c # 0 THEN c ELSE a[i] - b[i], 0, Idx(Len(a)))
ZExt(a, n) == IF n <= Len(a) THEN SubSeq(a, Len(a) - n + 1, Len(a)) ELSE Zeros(n - Len(a)) \o a
SExt(a, n) == IF n <= Len(a) THEN SubSeq(a, Len(a) - n + 1, Len(a)) ELSE [i \in 1..(n - Len(a)) |-> a[1]] \o a
Shl1(a) == Tail(a) \o <<0>>
\* product modulo 2^length
MulMod(a, b) == FoldLeft(LAMBDA s, x : IF x = 1 THEN Add(Shl1(s), b) ELSE Shl1(s), Zeros(Len(b)), a)
MulU(a, b) == MulMod(a, ZExt(b, Len(a) + Len(b)))
MulS(a, b) == LET n == Len(a) + Len(b) IN MulMod(SExt(a, n), SExt(b, n))
\* <<quotient (length of a), remainder (length of b)>> by long division
DivU(a, b) ==
  LET d == <<0>> \o b
      r == FoldLeft(LAMBDA s, x : IF Cmp(Tail(s[2]) \o <<x>>, d) >= 0
                                  THEN <<Append(s[1], 1), Sub(Tail(s[2]) \o <<x>>, d)>>
                                  ELSE <<Append(s[1], 0), Tail(s[2]) \o <<x>>>>,
                    <<<<>>, Zeros(Len(d))>>, a)
  IN <<r[1], Tail(r[2])>>
Mag(a) == IF a[1] = 1 THEN Neg(a) ELSE a
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
QuotS(a, b) == LET q == DivU(Mag(a), Mag(b))[1] IN IF a[1] = b[1] THEN q ELSE Neg(q)
RemS(a, b) == LET r == DivU(Mag(a), Mag(b))[2] IN IF a[1] = 1 THEN Neg(r) ELSE r
ModS(a, b) == LET r == RemS(a, b) IN IF IsZero(r) \/ r[1] = b[1] THEN r ELSE Add(r, b)
\* signed comparison: same length
CmpS(a, b) == IF a[1] # b[1] THEN b[1] - a[1] ELSE Cmp(a, b)
RECURSIVE UVal(_)
UVal(a) == IF a = <<>> THEN 0 ELSE 2 * UVal(SubSeq(a, 1, Len(a) - 1)) + a[Len(a)]
\* value of at most 32 bits in two's complement without exceeding 32 bits
SVal(a) == IF a[1] = 0 THEN UVal(a) ELSE -1 - UVal(Not(a))
\* n bits of an integer in two's complement
FromInt(x, n) == LET f == FoldLeft(LAMBDA s, i : <<s[1] \div 2, <<s[1] % 2>> \o s[2]>>, <<x, <<>>>>, Idx(n)) IN f[2]

-----------------------------------------------------------------------------
(* std_logic_1164                                                              *)
L2(f, x, y) == CASE f = "and" -> AndTable[x + 1][y + 1]
                 [] f = "or" -> OrTable[x + 1][y + 1]
                 [] f = "xor" -> XorTable[x + 1][y + 1]
                 [] f = "nand" -> NotTable[AndTable[x + 1][y + 1] + 1]
                 [] f = "nor" -> NotTable[OrTable[x + 1][y + 1] + 1]
                 [] f = "xnor" -> NotTable[XorTable[x + 1][y + 1] + 1]
Reduce(f, a) ==
  LET g == CASE f \in {"and", "nand"} -> "and" [] f \in {"or", "nor"} -> "or" [] OTHER -> "xor"
      v == FoldLeft(LAMBDA s, x : L2(g, s, x), IF g = "and" THEN 3 ELSE 2, a)
  IN IF f \in {"and", "or", "xor"} THEN v ELSE NotTable[v + 1]
X01 == To01Table
X01Z == <<1, 1, 2, 3, 4, 1, 2, 3, 1>>
UX01 == <<0, 1, 2, 3, 1, 1, 2, 3, 1>>
MapT(t, a) == [i \in 1..Len(a) |-> t[a[i] + 1]]
To01(a, x) == IF HasMeta(a) THEN [i \in 1..Len(a) |-> x] ELSE Std(Bits(a))
Resolve(a) == IF Len(a) = 1 THEN a[1] ELSE FoldLeft(LAMBDA s, x : ResolveTable[s + 1][x + 1], 4, a)
\* matching equality of elements: "-" matches everything, "U" dominates
MatchEq(x, y) == IF x = 8 \/ y = 8 THEN 3 ELSE IF x = 0 \/ y = 0 THEN 0 ELSE IF Meta(x) \/ Meta(y) THEN 1
                 ELSE IF X01[x + 1] = X01[y + 1] THEN 3 ELSE 2
MatchLt(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF Meta(x) \/ Meta(y) THEN 1
                 ELSE IF X01[x + 1] = 2 /\ X01[y + 1] = 3 THEN 3 ELSE 2
MatchEqV(a, b) == FoldLeft(LAMBDA s, i : L2("and", s, MatchEq(a[i], b[i])), 3, Idx(Len(a)))
StdMatch(x, y) == x = 8 \/ y = 8 \/ (~Meta(x) /\ ~Meta(y) /\ X01[x + 1] = X01[y + 1])
RECURSIVE Shift(_, _, _, _, _)
\* f: direction; elements shifted in at the left (l) and right (r) end
Shift(f, a, n, l, r) ==
  LET len == Len(a) IN
  IF f = "l" THEN IF n < 0 THEN Shift("r", a, -n, l, r) ELSE [i \in 1..len |-> IF i + n <= len THEN a[i + n] ELSE r]
  ELSE IF n < 0 THEN Shift("l", a, -n, l, r) ELSE [i \in 1..len |-> IF i - n >= 1 THEN a[i - n] ELSE l]
Rot(a, n) == [i \in 1..Len(a) |-> a[((i - 1 + n) % Len(a)) + 1]]
HexDigit == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
Letter == <<"U","X","0","1","Z","W","L","H","-">>
\* n elements as one digit
Digit(q) == IF \A i \in 1..Len(q) : q[i] = 4 THEN "Z"
            ELSE IF HasMeta(q) THEN "X" ELSE HexDigit[UVal(Bits(q)) + 1]
DigitString(a, n, pad) ==
  LET m == (Len(a) + n - 1) \div n
      b == [i \in 1..(m * n - Len(a)) |-> pad] \o a
  IN FoldLeft(LAMBDA s, g : s \o Digit(SubSeq(b, (g - 1) * n + 1, g * n)), "", Idx(m))

-----------------------------------------------------------------------------
(* numeric_std; ty: "uns" or "sgn"                                             *)
Ext(ty, a, n) == IF ty = "uns" THEN ZExt(a, n) ELSE SExt(a, n)
Arith(ty, f, a, b) ==
  LET null == a = <<>> \/ b = <<>>
      meta == HasMeta(a) \/ HasMeta(b)
      n == Max2(Len(a), Len(b))
      x == Bits(a)
      y == Bits(b)
      len == CASE f \in {"+", "-"} -> n [] f = "*" -> Len(a) + Len(b) [] f = "/" -> Len(a) [] OTHER -> Len(b)
  IN IF null THEN <<>> ELSE IF meta THEN Xs(len) ELSE
     Std(CASE f = "+" -> Add(Ext(ty, x, n), Ext(ty, y, n))
           [] f = "-" -> Sub(Ext(ty, x, n), Ext(ty, y, n))
           [] f = "*" -> IF ty = "uns" THEN MulU(x, y) ELSE MulS(x, y)
           [] f = "/" -> IF ty = "uns" THEN DivU(x, y)[1] ELSE QuotS(x, y)
           [] f = "rem" -> IF ty = "uns" THEN DivU(x, y)[2] ELSE RemS(x, y)
           [] f = "mod" -> IF ty = "uns" THEN DivU(x, y)[2] ELSE ModS(x, y))
RelC(f, c) == CASE f = "=" -> c = 0 [] f = "/=" -> c # 0 [] f = "<" -> c < 0 [] f = "<=" -> c <= 0 [] f = ">" -> c > 0 [] f = ">=" -> c >= 0
CmpN(ty, a, b) == LET n == Max2(Len(a), Len(b)) IN
  IF ty = "uns" THEN Cmp(ZExt(Bits(a), n), ZExt(Bits(b), n)) ELSE CmpS(SExt(Bits(a), n), SExt(Bits(b), n))
Rel(ty, f, a, b) == IF a = <<>> \/ b = <<>> \/ HasMeta(a) \/ HasMeta(b) THEN f = "/=" ELSE RelC(f, CmpN(ty, a, b))
\* comparison with an integer, by value (33 bits hold every integer)
IntVec(x) == Std(FromInt(x, 33))
RelInt(ty, f, a, x) == IF a = <<>> \/ HasMeta(a) THEN f = "/=" ELSE RelC(f, CmpN("sgn", IF ty = "uns" THEN <<2>> \o a ELSE a, IntVec(x)))
Flip(f) == CASE f = "<" -> ">" [] f = ">" -> "<" [] f = "<=" -> ">=" [] f = ">=" -> "<=" [] OTHER -> f
\* extremes: a metavalue in the left (then right) operand gives all 'X'
MinMax(ty, f, a, b) ==
  LET n == Max2(Len(a), Len(b)) IN
  IF a = <<>> \/ b = <<>> THEN <<>> ELSE IF HasMeta(a) \/ HasMeta(b) THEN Xs(n)
  ELSE Std(Ext(ty, IF (CmpN(ty, a, b) < 0) = (f = "minimum") THEN Bits(a) ELSE Bits(b), n))
\* resize copies the elements, metavalues included; truncation of a signed value keeps the sign
Resize(ty, a, n) ==
  IF n = 0 THEN <<>>
  ELSE IF a = <<>> THEN [i \in 1..n |-> 2]
  ELSE IF n > Len(a) THEN [i \in 1..(n - Len(a)) |-> IF ty = "uns" THEN 2 ELSE a[1]] \o a
  ELSE IF ty = "uns" THEN SubSeq(a, Len(a) - n + 1, Len(a))
  ELSE <<a[1]>> \o SubSeq(a, Len(a) - n + 2, Len(a))
\* matching relations
MatchRel(ty, f, a, b) ==
  IF a = <<>> \/ b = <<>> THEN 1
  ELSE IF f \in {"?=", "?/="} THEN
    LET n == Max2(Len(a), Len(b))
        x == Resize(ty, a, n)
        y == Resize(ty, b, n)
        m == {MatchEq(x[i], y[i]) : i \in 1..n}
        v == IF 0 \in m THEN 0 ELSE IF 1 \in m THEN 1 ELSE IF 2 \in m THEN 2 ELSE 3
    IN IF f = "?=" THEN v ELSE NotTable[v + 1]
  ELSE IF HasMeta(a) \/ HasMeta(b) THEN 1
  ELSE IF RelC(CASE f = "?<" -> "<" [] f = "?<=" -> "<=" [] f = "?>" -> ">" [] f = "?>=" -> ">=", CmpN(ty, a, b)) THEN 3 ELSE 2
\* index of the leftmost (rightmost) matching element of a vector with left bound l and direction d
FindAt(l, d, i) == IF d = 0 THEN l + i - 1 ELSE l - i + 1
Find(f, a, y, l, d) ==
  LET S == {i \in 1..Len(a) : MatchEq(a[i], y) = 3} IN
  IF S = {} THEN -1
  ELSE FindAt(l, d, IF f = "find_leftmost" THEN CHOOSE i \in S : \A j \in S : i <= j ELSE CHOOSE i \in S : \A j \in S : i >= j)

-----------------------------------------------------------------------------
IeeeValue(C, it) ==
  LET A == it.a
      B == it.b
      op == it.op
      f == it.f
      ty == it.ty
  IN
  CASE op = "logic" -> [i \in 1..Len(A) |-> L2(f, A[i], B[i])]
    [] op = "logicvs" -> [i \in 1..Len(A) |-> L2(f, A[i], B[1])]
    [] op = "not" -> MapT(NotTable, A)
    [] op = "reduce" -> <<Reduce(f, A)>>
    [] op = "x01" -> MapT(X01, A)
    [] op = "x01z" -> MapT(X01Z, A)
    [] op = "ux01" -> MapT(UX01, A)
    [] op = "to01" -> To01(A, B[1])
    [] op = "tobit" -> [i \in 1..Len(A) |-> IF Meta(A[i]) THEN B[1] ELSE X01[A[i] + 1] - 2]
    [] op = "isx" -> <<Bit(HasMeta(A))>>
    [] op = "resolved" -> <<Resolve(A)>>
    [] op = "cond" -> <<Bit(A[1] \in {3, 7})>>
    [] op = "matchel" -> <<CASE f = "?=" -> MatchEq(A[1], B[1])
                             [] f = "?/=" -> NotTable[MatchEq(A[1], B[1]) + 1]
                             [] f = "?<" -> MatchLt(A[1], B[1])
                             [] f = "?<=" -> L2("or", MatchLt(A[1], B[1]), MatchEq(A[1], B[1]))
                             [] f = "?>" -> MatchLt(B[1], A[1])
                             [] f = "?>=" -> L2("or", MatchLt(B[1], A[1]), MatchEq(A[1], B[1]))>>
    [] op = "matchvec" -> <<IF f = "?=" THEN MatchEqV(A, B) ELSE NotTable[MatchEqV(A, B) + 1]>>
    [] op = "stdmatch" -> <<Bit(A # <<>> /\ Len(A) = Len(B) /\ \A i \in 1..Len(A) : StdMatch(A[i], B[i]))>>
    [] op = "shift" -> IF A = <<>> THEN A ELSE
         (CASE f \in {"sll", "shift_left"} -> Shift("l", A, it.n, 2, 2)
           [] f = "srl" \/ (f = "shift_right" /\ ty = "uns") -> Shift("r", A, it.n, 2, 2)
           [] f = "shift_right" -> Shift("r", A, it.n, A[1], 2)
           \* sla of numeric_std is a logical left shift, arithmetic to the right for signed
           [] f = "sla" -> Shift("l", A, it.n, IF ty = "sgn" THEN A[1] ELSE 2, 2)
           [] f = "sra" -> Shift("r", A, it.n, IF ty = "sgn" THEN A[1] ELSE 2, 2)
           [] f \in {"rol", "rotate_left"} -> Rot(A, it.n)
           [] f \in {"ror", "rotate_right"} -> Rot(A, -it.n))
    [] op = "string" -> FoldLeft(LAMBDA s, x : s \o Letter[x + 1], "", A)
    [] op = "hstring" -> DigitString(A, 4, IF ty = "sgn" /\ A # <<>> THEN A[1] ELSE IF A # <<>> /\ A[1] = 4 THEN 4 ELSE 2)
    [] op = "ostring" -> DigitString(A, 3, IF ty = "sgn" /\ A # <<>> THEN A[1] ELSE IF A # <<>> /\ A[1] = 4 THEN 4 ELSE 2)
    [] op = "arith" -> Arith(ty, f, A, B)
    \* one operand an integer or a single element, converted to the length of the other
    [] op = "arithvi" -> Arith(ty, f, A, IF A = <<>> THEN A ELSE Std(FromInt(it.n, Len(A))))
    [] op = "arithiv" -> Arith(ty, f, IF A = <<>> THEN A ELSE Std(FromInt(it.n, Len(A))), A)
    [] op = "arithve" -> Arith(ty, f, A, IF A = <<>> THEN A ELSE [i \in 1..Len(A) |-> IF i = Len(A) THEN B[1] ELSE 2])
    [] op = "neg" -> IF HasMeta(A) THEN Xs(Len(A)) ELSE Std(Neg(Bits(A)))
    [] op = "abs" -> IF HasMeta(A) THEN Xs(Len(A)) ELSE IF A = <<>> THEN A ELSE Std(Mag(Bits(A)))
    [] op = "rel" -> <<Bit(Rel(ty, f, A, B))>>
    [] op = "relvi" -> <<Bit(RelInt(ty, f, A, it.n))>>
    [] op = "reliv" -> <<Bit(RelInt(ty, Flip(f), A, it.n))>>
    [] op = "minmax" -> MinMax(ty, f, A, B)
    [] op = "matchrel" -> <<MatchRel(ty, f, A, B)>>
    [] op = "resize" -> Resize(ty, A, it.n)
    [] op = "toint" -> <<IF A = <<>> \/ HasMeta(A) THEN 0 ELSE IF ty = "uns" THEN UVal(Bits(A)) ELSE SVal(Bits(A))>>
    [] op = "fromint" -> Std(FromInt(it.n, B[1]))
    [] op = "find" -> <<Find(f, A, B[1], it.n, B[2])>>
=============================================================================
