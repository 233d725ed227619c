--------------------------------- MODULE Seq ---------------------------------
(* Sequential VHDL (IEEE 1076-2008 clauses 4, 8, 9, 10) as an evaluator over a *)
(* store.  A program is a record C read from a case file:                      *)
(*   C.types  the subtypes used                                                *)
(*   C.vars   the subtype of every variable, parameter and loop parameter      *)
(*   C.funcs  the subprograms                                                  *)
(* Values: integers for scalars (enumerations by position), records            *)
(* [l, d, v] (left bound, direction, elements) for arrays, sequences for       *)
(* records.  The result of evaluating an expression is [k, v, er]: er is the   *)
(* set of errors <<line, kind>> the language allows the program to stop with   *)
(* (operands may be evaluated in any order, so there may be several).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MAXI == 2147483647
MINI == -2147483647 - 1

Ok(v)      == [k |-> TRUE,  v |-> v, er |-> {}]
Err(ln, s) == [k |-> FALSE, v |-> 0, er |-> {<<ln, s>>}]
Errs(es)   == [k |-> FALSE, v |-> 0, er |-> es]

B2I(b) == IF b THEN 1 ELSE 0
Mn(a, b) == IF a < b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x

-----------------------------------------------------------------------------
(* Integer arithmetic with the overflow rules of a 32-bit type.                *)
AddI(a, b, ln) ==
  IF (b > 0 /\ a > MAXI - b) \/ (b < 0 /\ a < MINI - b) THEN Err(ln, "overflow") ELSE Ok(a + b)
NegI(a, ln) == IF a = MINI THEN Err(ln, "overflow") ELSE Ok(-a)
SubI(a, b, ln) ==
  IF (b < 0 /\ a > MAXI + b) \/ (b > 0 /\ a < MINI + b) THEN Err(ln, "overflow") ELSE Ok(a - b)
\* truncating division of non-negative numbers; MINI handled apart
MulFits(a, b) ==
  \/ a = 0 \/ b = 0
  \/ IF a = MINI THEN b = 1 ELSE IF b = MINI THEN a = 1
     ELSE IF (a > 0) = (b > 0) THEN Abs(a) <= MAXI \div Abs(b)
     ELSE \* result is negative: |a|*|b| <= 2^31
          Abs(a) <= MAXI \div Abs(b) \/ (MAXI % Abs(b) = Abs(b) - 1 /\ Abs(a) = MAXI \div Abs(b) + 1)
MulI(a, b, ln) ==
  IF ~MulFits(a, b) THEN Err(ln, "overflow")
  ELSE IF a # 0 /\ b # 0 /\ a # MINI /\ b # MINI /\ Abs(a) > MAXI \div Abs(b) THEN Ok(MINI)
  ELSE Ok(a * b)
\* quotient truncated towards zero
Quot(a, b) ==
  IF b = MINI THEN (IF a = MINI THEN 1 ELSE 0)
  ELSE IF a = MINI
       THEN IF b > 0 THEN -1 - ((MAXI - (b - 1)) \div b)      \* -(2^31 div b)
            ELSE 1 + ((MAXI - (-b - 1)) \div (-b))
       ELSE LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
DivI(a, b, ln) ==
  IF b = 0 THEN Err(ln, "div0")
  ELSE IF a = MINI /\ b = -1 THEN Err(ln, "overflow")
  ELSE Ok(Quot(a, b))
\* a rem b has the sign of a, a mod b the sign of b
Rem_(a, b) ==
  IF b = MINI THEN (IF a = MINI THEN 0 ELSE a)
  ELSE IF a = MINI
       THEN LET r == ((MAXI % Abs(b)) + 1) % Abs(b) IN -r
       ELSE LET r == Abs(a) % Abs(b) IN IF a < 0 THEN -r ELSE r
RemI(a, b, ln) == IF b = 0 THEN Err(ln, "div0") ELSE IF b = -1 THEN Ok(0) ELSE Ok(Rem_(a, b))
ModI(a, b, ln) ==
  IF b = 0 THEN Err(ln, "div0") ELSE IF b = -1 THEN Ok(0)
  ELSE LET r == Rem_(a, b) IN IF r # 0 /\ (r < 0) # (b < 0) THEN Ok(r + b) ELSE Ok(r)
AbsI(a, ln) == IF a = MINI THEN Err(ln, "overflow") ELSE Ok(Abs(a))
RECURSIVE PowI(_, _, _)
PowI(a, n, ln) ==
  IF n < 0 THEN Err(ln, "negexp")
  ELSE IF n = 0 \/ a = 1 THEN Ok(1)
  ELSE IF a = 0 THEN Ok(0)
  ELSE IF a = -1 THEN Ok(IF n % 2 = 0 THEN 1 ELSE -1)
  ELSE IF n > 31 THEN Err(ln, "overflow")
  ELSE LET r == PowI(a, n - 1, ln) IN IF ~r.k THEN r ELSE MulI(r.v, a, ln)

-----------------------------------------------------------------------------
(* Arrays                                                                      *)
\* position (1..Len) of index i, 0 if out of bounds; d = 0 is "to", 1 "downto"
Pos(a, i) ==
  LET p == IF a.d = 0 THEN i - a.l + 1 ELSE a.l - i + 1
  IN IF p >= 1 /\ p <= Len(a.v) THEN p ELSE 0
Right(a) == IF a.d = 0 THEN a.l + Len(a.v) - 1 ELSE a.l - Len(a.v) + 1
Low(a)  == IF a.d = 0 THEN a.l ELSE Right(a)
High(a) == IF a.d = 0 THEN Right(a) ELSE a.l

\* lexicographic "<" (9.2.3)
RECURSIVE LessSeq(_, _)
LessSeq(a, b) ==
  IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
  ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE LessSeq(Tail(a), Tail(b))

\* conversion to subtype number t (0: none); kind of the scalar error is "range"
Conv(C, t, v, ln) ==
  IF t = 0 THEN Ok(v)
  ELSE LET T == C.types[t] IN
  CASE T.k = "s" -> IF v < T.lo \/ v > T.hi THEN Err(ln, "range") ELSE Ok(v)
    [] T.k = "a" -> IF T.n < 0 THEN Ok(v)                     \* unconstrained: keeps its bounds
                    ELSE IF Len(v.v) # T.n THEN Err(ln, "length")
                    ELSE Ok([l |-> T.l, d |-> T.d, v |-> v.v])
    [] OTHER -> Ok(v)

RECURSIVE Eval(_, _, _, _), Exec(_, _, _, _), Stmt(_, _, _), Call(_, _, _, _, _), WhileLoop(_, _, _), ForLoop(_, _, _, _, _, _),
          EvalAll(_, _, _, _), SetPath(_, _, _, _, _), Locals(_, _, _, _), EvalAgg(_, _, _, _, _),
          CopyBack(_, _, _, _, _, _, _)

Lift2(a, b, F(_, _)) ==
  IF a.k /\ b.k THEN F(a.v, b.v) ELSE Errs(a.er \cup b.er)

\* expressions that can only be values of the type's range (mod of a range etc.) need no more rules
Eval(C, e, st, ln) ==
  LET op == e[1]
      A == Eval(C, e[2], st, ln)
      B == Eval(C, e[3], st, ln)
  IN
  CASE op = "c" -> Ok(e[2])
    [] op = "v" -> Ok(st[e[2]])
    [] op = "+" -> Lift2(A, B, LAMBDA x, y : AddI(x, y, ln))
    [] op = "-" -> Lift2(A, B, LAMBDA x, y : SubI(x, y, ln))
    [] op = "*" -> Lift2(A, B, LAMBDA x, y : MulI(x, y, ln))
    [] op = "/" -> Lift2(A, B, LAMBDA x, y : DivI(x, y, ln))
    [] op = "mod" -> Lift2(A, B, LAMBDA x, y : ModI(x, y, ln))
    [] op = "rem" -> Lift2(A, B, LAMBDA x, y : RemI(x, y, ln))
    [] op = "**" -> Lift2(A, B, LAMBDA x, y : PowI(x, y, ln))
    [] op = "neg" -> IF A.k THEN NegI(A.v, ln) ELSE A
    [] op = "abs" -> IF A.k THEN AbsI(A.v, ln) ELSE A
    [] op = "=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x = y)))
    [] op = "/=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x # y)))
    [] op = "<" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x < y)))
    [] op = "<=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x <= y)))
    [] op = ">" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x > y)))
    [] op = ">=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x >= y)))
    [] op = "a=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x.v = y.v)))
    [] op = "a/=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x.v # y.v)))
    [] op = "a<" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(LessSeq(x.v, y.v))))
    [] op = "a<=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(~LessSeq(y.v, x.v))))
    [] op = "a>" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(LessSeq(y.v, x.v))))
    [] op = "a>=" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(~LessSeq(x.v, y.v))))
    \* the short-circuit operators of BOOLEAN and BIT
    [] op = "and"  -> IF A.k /\ A.v = 1 THEN B ELSE A
    [] op = "nand" -> IF ~A.k THEN A ELSE IF A.v = 0 THEN Ok(1) ELSE IF B.k THEN Ok(1 - B.v) ELSE B
    [] op = "or"   -> IF A.k /\ A.v = 0 THEN B ELSE A
    [] op = "nor"  -> IF ~A.k THEN A ELSE IF A.v = 1 THEN Ok(0) ELSE IF B.k THEN Ok(1 - B.v) ELSE B
    [] op = "xor"  -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x # y)))
    [] op = "xnor" -> Lift2(A, B, LAMBDA x, y : Ok(B2I(x = y)))
    [] op = "not"  -> IF A.k THEN Ok(1 - A.v) ELSE A
    [] op = "ix" -> Lift2(A, B, LAMBDA a, i : IF Pos(a, i) = 0 THEN Err(ln, "index") ELSE Ok(a.v[Pos(a, i)]))
    \* <<"sl", array, left, right, direction>>
    [] op = "sl" ->
         LET R == Eval(C, e[4], st, ln)
         IN IF ~(A.k /\ B.k /\ R.k) THEN Errs(A.er \cup B.er \cup R.er)
            ELSE LET n == IF e[5] = 0 THEN R.v - B.v + 1 ELSE B.v - R.v + 1
                 IN IF n <= 0 THEN Ok([l |-> B.v, d |-> e[5], v |-> <<>>])
                    ELSE IF Pos(A.v, B.v) = 0 \/ Pos(A.v, R.v) = 0 THEN Err(ln, "index")
                    ELSE Ok([l |-> B.v, d |-> e[5], v |-> SubSeq(A.v.v, Pos(A.v, B.v), Pos(A.v, R.v))])
    [] op = "fd" -> IF A.k THEN Ok(A.v[e[3]]) ELSE A
    [] op = "length" -> IF A.k THEN Ok(Len(A.v.v)) ELSE A
    [] op = "left" -> IF A.k THEN Ok(A.v.l) ELSE A
    [] op = "right" -> IF A.k THEN Ok(Right(A.v)) ELSE A
    [] op = "low" -> IF A.k THEN Ok(Low(A.v)) ELSE A
    [] op = "high" -> IF A.k THEN Ok(High(A.v)) ELSE A
    [] op = "asc" -> IF A.k THEN Ok(1 - A.v.d) ELSE A
    \* concatenation; the bounds of the result are never observed
    [] op = "&" -> Lift2(A, B, LAMBDA x, y : Ok([l |-> 0, d |-> 0, v |-> x.v \o y.v]))
    [] op = "&e" -> Lift2(A, B, LAMBDA x, y : Ok([l |-> 0, d |-> 0, v |-> Append(x.v, y)]))
    \* array aggregate of given bounds: <<"agg", left, dir, element expressions, element subtype>>
    [] op = "agg" -> LET r == EvalAgg(C, e[4], st, ln, e[5])
                     IN IF r.k THEN Ok([l |-> e[2], d |-> e[3], v |-> r.v]) ELSE r
    [] op = "rec" -> EvalAgg(C, e[2], st, ln, 0)
    \* qualified expression or type conversion to subtype e[3]
    [] op = "cv" -> IF A.k THEN Conv(C, e[3], A.v, ln) ELSE A
    \* 'succ and friends: <<op, expr, low pos, high pos of the type>>
    [] op = "succ" -> IF ~A.k THEN A ELSE IF A.v = e[4] THEN Err(ln, "range") ELSE Ok(A.v + 1)
    [] op = "pred" -> IF ~A.k THEN A ELSE IF A.v = e[3] THEN Err(ln, "range") ELSE Ok(A.v - 1)
    [] op = "val"  -> IF ~A.k THEN A ELSE IF A.v < e[3] \/ A.v > e[4] THEN Err(ln, "range") ELSE A
    \* conditional value is not an expression of VHDL-2008; functions are
    [] op = "call" -> LET r == Call(C, e[2], e[3], st, ln)
                      IN IF r.s.k = "ret" THEN Ok(r.s.v) ELSE Errs(r.s.er)

\* all the expressions of a sequence, each converted to subtype t
EvalAgg(C, es, st, ln, t) ==
  IF es = <<>> THEN Ok(<<>>)
  ELSE LET a == Eval(C, es[1], st, ln)
           b == IF a.k THEN Conv(C, t, a.v, ln) ELSE a
           r == EvalAgg(C, Tail(es), st, ln, t)
       IN IF b.k /\ r.k THEN Ok(<<b.v>> \o r.v) ELSE Errs(b.er \cup r.er)

EvalAll(C, es, st, ln) == EvalAgg(C, es, st, ln, 0)

-----------------------------------------------------------------------------
(* Statements: the result is [st, s, out]; s is the way control leaves         *)
Go == [k |-> "ok", l |-> "", v |-> 0, er |-> {}]
Fail(st, er, out) == [st |-> st, s |-> [k |-> "err", l |-> "", v |-> 0, er |-> er], out |-> out]
Done(st, out) == [st |-> st, s |-> Go, out |-> out]

\* store v into the object denoted by path: [k, st (in v), er]
SetPath(C, path, v, st, ln) ==
  CASE path[1] = "v" -> Ok([st EXCEPT ![path[2]] = v])
    [] path[1] = "ix" ->
         LET a == Eval(C, path[2], st, ln)
             i == Eval(C, path[3], st, ln)
         IN IF ~(a.k /\ i.k) THEN Errs(a.er \cup i.er)
            ELSE IF Pos(a.v, i.v) = 0 THEN Err(ln, "index")
            ELSE SetPath(C, path[2], [a.v EXCEPT !.v[Pos(a.v, i.v)] = v], st, ln)
    [] path[1] = "fd" ->
         LET a == Eval(C, path[2], st, ln)
         IN IF ~a.k THEN a ELSE SetPath(C, path[2], [a.v EXCEPT ![path[3]] = v], st, ln)
    [] path[1] = "sl" ->
         LET a == Eval(C, path[2], st, ln)
             s == Eval(C, path, st, ln)
         IN IF ~s.k THEN s
            ELSE IF Len(s.v.v) # Len(v.v) THEN Err(ln, "length")
            ELSE IF Len(v.v) = 0 THEN Ok(st)
            ELSE LET p == Pos(a.v, s.v.l)
                 IN SetPath(C, path[2],
                       [a.v EXCEPT !.v = [i \in 1..Len(a.v.v) |->
                          IF i >= p /\ i < p + Len(v.v) THEN v.v[i - p + 1] ELSE a.v.v[i]]], st, ln)

Restore(st, saved, own) == [i \in DOMAIN st |-> IF \E j \in 1..Len(own) : own[j] = i THEN saved[i] ELSE st[i]]

\* declarations <<id, initial expression, line>> in order
Locals(C, ls, i, st) ==
  IF i > Len(ls) THEN Ok(st)
  ELSE LET a == Eval(C, ls[i][2], st, ls[i][3])
           b == IF a.k THEN Conv(C, C.vars[ls[i][1]], a.v, ls[i][3]) ELSE a
       IN IF ~b.k THEN b ELSE Locals(C, ls, i + 1, [st EXCEPT ![ls[i][1]] = b.v])

\* copy the out and inout parameters, values in fin, back to their actuals
CopyBack(C, F, args, i, fin, s, ln) ==
  IF i > Len(args) THEN Ok(s)
  ELSE IF F.modes[i] = "in" THEN CopyBack(C, F, args, i + 1, fin, s, ln)
  ELSE LET c == Conv(C, args[i][2], fin[F.ps[i]], ln)
           o == IF c.k THEN SetPath(C, args[i][1], c.v, s, ln) ELSE c
       IN IF o.k THEN CopyBack(C, F, args, i + 1, fin, o.v, ln) ELSE o

\* call of subprogram f: args are <<expression, 0>>, or <<variable path, its subtype>> for out and inout
Call(C, f, args, st, ln) ==
  LET F == C.funcs[f]
      N == 1..Len(args)
      val(i) == IF F.modes[i] = "out" THEN Ok(F.outs[i])
                ELSE LET a == Eval(C, args[i][1], st, ln)
                     IN IF a.k THEN Conv(C, C.vars[F.ps[i]], a.v, ln) ELSE a
      vals == [i \in N |-> val(i)]
      er == UNION {vals[i].er : i \in N}
  IN IF \E i \in N : ~vals[i].k THEN Fail(st, er, <<>>)
     ELSE LET st1 == [x \in DOMAIN st |-> IF \E i \in N : F.ps[i] = x
                                           THEN vals[CHOOSE i \in N : F.ps[i] = x].v ELSE st[x]]
              d == Locals(C, F.ls, 1, st1)
          IN IF ~d.k THEN Fail(st, d.er, <<>>)
             ELSE LET r == Exec(C, F.body, 1, d.v)
                  IN IF r.s.k = "err" THEN Fail(st, r.s.er, r.out)
                     ELSE IF F.rt # 0 /\ r.s.k # "ret" THEN Fail(st, {<<0, "noreturn">>}, r.out)
                     ELSE LET back == Restore(r.st, st, F.own)
                              cb == CopyBack(C, F, args, 1, r.st, back, ln)
                          IN IF cb.k THEN [st |-> cb.v, s |-> r.s, out |-> r.out] ELSE Fail(st, cb.er, r.out)

Matches(lbl, s) == s.l = "" \/ s.l = lbl

WhileLoop(C, q, st) ==          \* q = <<"while", ln, label, cond, body>>
  LET c == Eval(C, q[4], st, q[2])
  IN IF ~c.k THEN Fail(st, c.er, <<>>)
     ELSE IF c.v = 0 THEN Done(st, <<>>)
     ELSE LET r == Exec(C, q[5], 1, st)
          IN IF r.s.k = "exit" /\ Matches(q[3], r.s) THEN Done(r.st, r.out)
             ELSE IF r.s.k = "ok" \/ (r.s.k = "next" /\ Matches(q[3], r.s))
                  THEN LET x == WhileLoop(C, q, r.st) IN [x EXCEPT !.out = r.out \o @]
             ELSE r

ForLoop(C, q, i, last, d, st) ==   \* q = <<"for", ln, label, id, lo, hi, dir, body>>
  IF (d = 0 /\ i > last) \/ (d = 1 /\ i < last) THEN Done(st, <<>>)
  ELSE LET r == Exec(C, q[8], 1, [st EXCEPT ![q[4]] = i])
           nxt == IF d = 0 THEN i + 1 ELSE i - 1
       IN IF r.s.k = "exit" /\ Matches(q[3], r.s) THEN Done(r.st, r.out)
          ELSE IF r.s.k = "ok" \/ (r.s.k = "next" /\ Matches(q[3], r.s))
               THEN IF i = last THEN Done(r.st, r.out)
                    ELSE LET x == ForLoop(C, q, nxt, last, d, r.st) IN [x EXCEPT !.out = r.out \o @]
          ELSE r

RECURSIVE Flatten(_)
Flatten(vs) ==
  IF vs = <<>> THEN <<>>
  ELSE LET v == vs[1] IN v \o Flatten(Tail(vs))

ChoiceHit(ch, v) == ch = <<>> \/ \E i \in 1..Len(ch) : v >= ch[i][1] /\ v <= ch[i][2]

Stmt(C, q, st) ==
  LET op == q[1]
      ln == q[2]
  IN
  CASE op = "as" ->           \* <<"as", ln, path, expr, subtype>>
         LET a == Eval(C, q[4], st, ln)
             b == IF a.k THEN Conv(C, q[5], a.v, ln) ELSE a
             w == IF b.k THEN SetPath(C, q[3], b.v, st, ln)
                  ELSE LET t == Eval(C, q[3], st, ln) IN Errs(b.er \cup t.er)
             \* an index error of the target is possible too when the value is out of range
         IN IF w.k THEN Done(w.v, <<>>) ELSE Fail(st, w.er, <<>>)
    [] op = "if" -> LET c == Eval(C, q[3], st, ln)
                    IN IF ~c.k THEN Fail(st, c.er, <<>>)
                       ELSE Exec(C, IF c.v = 1 THEN q[4] ELSE q[5], 1, st)
    [] op = "case" -> LET c == Eval(C, q[3], st, ln)
                          j == CHOOSE j \in 1..Len(q[4]) :
                                 /\ ChoiceHit(q[4][j][1], c.v)
                                 /\ \A m \in 1..(j-1) : ~ChoiceHit(q[4][m][1], c.v)
                      IN IF ~c.k THEN Fail(st, c.er, <<>>) ELSE Exec(C, q[4][j][2], 1, st)
    [] op = "while" -> WhileLoop(C, q, st)
    [] op = "for" -> LET a == Eval(C, q[5], st, ln)
                         b == Eval(C, q[6], st, ln)
                         d == Eval(C, q[7], st, ln)
                         old == st[q[4]]
                     IN IF ~(a.k /\ b.k) THEN Fail(st, a.er \cup b.er, <<>>)
                        ELSE LET r == ForLoop(C, q, a.v, b.v, d.v, st)
                             IN [r EXCEPT !.st = [@ EXCEPT ![q[4]] = old]]
    [] op \in {"exit", "next"} ->
         LET c == IF q[4] = <<>> THEN Ok(1) ELSE Eval(C, q[4], st, ln)
         IN IF ~c.k THEN Fail(st, c.er, <<>>)
            ELSE IF c.v = 0 THEN Done(st, <<>>)
            ELSE [st |-> st, s |-> [Go EXCEPT !.k = op, !.l = q[3]], out |-> <<>>]
    [] op = "ret" ->          \* <<"ret", ln, expr or <<>>, subtype>>
         IF q[3] = <<>> THEN [st |-> st, s |-> [Go EXCEPT !.k = "ret"], out |-> <<>>]
         ELSE LET a == Eval(C, q[3], st, ln)
                  b == IF a.k THEN Conv(C, q[4], a.v, ln) ELSE a
              IN IF b.k THEN [st |-> st, s |-> [Go EXCEPT !.k = "ret", !.v = b.v], out |-> <<>>]
                 ELSE Fail(st, b.er, <<>>)
    [] op = "call" -> LET r == Call(C, q[3], q[4], st, ln)
                      IN IF r.s.k = "err" THEN r ELSE [r EXCEPT !.s = Go]
    [] op = "log" ->          \* <<"log", ln, tag, exprs, kinds>>: arrays are logged as length and elements
         LET r == EvalAll(C, q[4], st, ln)
             one(i) == IF q[5][i] = "a" THEN <<Len(r.v[i].v)>> \o r.v[i].v ELSE <<r.v[i]>>
         IN IF ~r.k THEN Fail(st, r.er, <<>>)
            ELSE Done(st, << <<q[3]>> \o Flatten([i \in 1..Len(q[4]) |-> one(i)]) >>)
    [] op = "null" -> Done(st, <<>>)
    \* <<"assert", ln, cond>>: a failing assertion of severity failure stops the program
    [] op = "assert" -> LET c == Eval(C, q[3], st, ln)
                        IN IF ~c.k THEN Fail(st, c.er, <<>>)
                           ELSE IF c.v = 1 THEN Done(st, <<>>) ELSE Fail(st, {<<ln, "assert">>}, <<>>)

Exec(C, ss, i, st) ==
  IF i > Len(ss) THEN Done(st, <<>>)
  ELSE LET r == Stmt(C, ss[i], st)
       IN IF r.s.k # "ok" THEN r
          ELSE LET x == Exec(C, ss, i + 1, r.st) IN [x EXCEPT !.out = r.out \o @]
=============================================================================
