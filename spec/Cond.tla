-------------------------------- MODULE Cond --------------------------------
(* Conditional analysis (IEEE 1076-2019 section 24): which text is analysed. *)
(* Every case is a file as a sequence of items, each with its line:          *)
(*   <<"text", line, id>>      a whole statement that reports id at its line *)
(*   <<"open", line, id>>      the start of such a statement ...             *)
(*   <<"frag", line, id>>      ... a piece of its text ...                   *)
(*   <<"close", line, 0>>      ... and its end                               *)
(*   <<"warn"/"error", line, id>>  `warning and `error directives            *)
(*   <<"if"/"elsif", line, expr>>, <<"else", line, 0>>, <<"end", line, 0>>   *)
(* Expressions: <<"rel", name, op, string>>, <<op, list>>, <<"not", e>>;     *)
(* names and strings are sequences of character codes.  defs: <<name, value>>*)
(* pairs, later ones replacing earlier ones; names are not case sensitive.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, pc, stack, stmt, out, diag, bad
vars == <<tc, pc, stack, stmt, out, diag, bad>>
C == Cases[tc]

Lower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]

Value(defs, name) ==
  LET idx == {i \in 1..Len(defs) : Lower(defs[i][1]) = Lower(name)}
  IN IF idx = {} THEN <<FALSE, <<>>>> ELSE <<TRUE, defs[CHOOSE i \in idx : \A j \in idx : j <= i][2]>>

RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE
              ELSE IF a = <<>> THEN TRUE
              ELSE IF a[1] # b[1] THEN a[1] < b[1]
              ELSE Less(Tail(a), Tail(b))

Rel(op, a, b) == CASE op = "="  -> a = b
                   [] op = "/=" -> a # b
                   [] op = "<"  -> Less(a, b)
                   [] op = "<=" -> a = b \/ Less(a, b)
                   [] op = ">"  -> Less(b, a)
                   [] op = ">=" -> a = b \/ Less(b, a)

Xor(a, b) == a # b
RECURSIVE Eval(_, _)
Eval(defs, e) ==
  CASE e[1] = "rel" -> Rel(e[3], Value(defs, e[2])[2], e[4])
    [] e[1] = "not" -> ~Eval(defs, e[2])
    [] e[1] = "and" -> \A i \in 1..Len(e[2]) : Eval(defs, e[2][i])
    [] e[1] = "or"  -> \E i \in 1..Len(e[2]) : Eval(defs, e[2][i])
    [] e[1] = "xor"  -> FoldLeft(LAMBDA a, x : Xor(a, Eval(defs, x)), FALSE, e[2])
    [] e[1] = "xnor" -> FoldLeft(LAMBDA a, x : ~Xor(a, Eval(defs, x)), Eval(defs, e[2][1]), Tail(e[2]))

\* undefined identifiers used by an expression
RECURSIVE Undef(_, _)
Undef(defs, e) == CASE e[1] = "rel" -> ~Value(defs, e[2])[1]
                    [] e[1] = "not" -> Undef(defs, e[2])
                    [] OTHER -> \E i \in 1..Len(e[2]) : Undef(defs, e[2][i])

Init == /\ tc \in 1..Len(Cases)
        /\ pc = 1 /\ stack = <<>> /\ stmt = <<>> /\ out = <<>> /\ diag = <<>> /\ bad = 0

Top == stack[Len(stack)]
Selected == stack = <<>> \/ Top.sel
Enclosing == Len(stack) < 2 \/ stack[Len(stack) - 1].sel
SetTop(r) == [stack EXCEPT ![Len(stack)] = r]

\* the line of the first error, 0 if none
Fail(line) == bad' = IF bad = 0 THEN line ELSE bad

Item(it) ==
  LET line == it[2] IN
  CASE it[1] = "text" -> /\ out' = IF Selected THEN Append(out, <<line, <<it[3]>>>>) ELSE out
                         /\ UNCHANGED <<stack, stmt, diag, bad>>
    [] it[1] = "open" -> /\ stmt' = IF Selected THEN <<line, <<it[3]>>>> ELSE stmt
                         /\ UNCHANGED <<stack, out, diag, bad>>
    [] it[1] = "frag" -> /\ stmt' = IF Selected THEN <<stmt[1], Append(stmt[2], it[3])>> ELSE stmt
                         /\ UNCHANGED <<stack, out, diag, bad>>
    [] it[1] = "close" -> /\ out' = IF Selected THEN Append(out, stmt) ELSE out
                          /\ stmt' = IF Selected THEN <<>> ELSE stmt
                          /\ UNCHANGED <<stack, diag, bad>>
    [] it[1] = "warn" -> /\ diag' = IF Selected THEN Append(diag, <<line, it[3]>>) ELSE diag
                         /\ UNCHANGED <<stack, stmt, out, bad>>
    [] it[1] = "error" -> /\ IF Selected THEN Fail(line) ELSE UNCHANGED bad
                          /\ UNCHANGED <<stack, stmt, out, diag>>
    [] it[1] = "if" ->
         /\ IF Selected /\ Undef(C.defs, it[3]) THEN Fail(line) ELSE UNCHANGED bad
         /\ \E v \in {Selected /\ Eval(C.defs, it[3])} :
              stack' = Append(stack, [sel |-> v, taken |-> v \/ ~Selected, els |-> FALSE, line |-> line])
         /\ UNCHANGED <<stmt, out, diag>>
    [] it[1] = "elsif" ->
         IF stack = <<>> \/ (stack # <<>> /\ Top.els)
         THEN Fail(line) /\ UNCHANGED <<stack, stmt, out, diag>>
         ELSE /\ IF Enclosing /\ ~Top.taken /\ Undef(C.defs, it[3]) THEN Fail(line) ELSE UNCHANGED bad
              /\ \E v \in {~Top.taken /\ Eval(C.defs, it[3])} :
                   stack' = SetTop([Top EXCEPT !.sel = v, !.taken = @ \/ v])
              /\ UNCHANGED <<stmt, out, diag>>
    [] it[1] = "else" ->
         IF stack = <<>> \/ (stack # <<>> /\ Top.els)
         THEN Fail(line) /\ UNCHANGED <<stack, stmt, out, diag>>
         ELSE /\ stack' = SetTop([Top EXCEPT !.sel = ~Top.taken, !.taken = TRUE, !.els = TRUE])
              /\ UNCHANGED <<stmt, out, diag, bad>>
    [] it[1] = "end" ->
         IF stack = <<>>
         THEN Fail(line) /\ UNCHANGED <<stack, stmt, out, diag>>
         ELSE stack' = Front(stack) /\ UNCHANGED <<stmt, out, diag, bad>>

Step == /\ pc <= Len(C.items)
        /\ bad = 0
        /\ Item(C.items[pc])
        /\ pc' = pc + 1
        /\ UNCHANGED tc

\* nvc reports an unterminated block at its `if
Final == IF bad # 0 THEN bad ELSE IF stack # <<>> THEN stack[Len(stack)].line ELSE 0
\* an error in a condition that extends over several lines is reported at one of them
LastLine == IF bad # 0 /\ pc > 1 THEN IF C.items[pc - 1][1] \in {"if", "elsif"} THEN bad + C.items[pc - 1][4] ELSE Final ELSE Final
Done == /\ pc <= Len(C.items) + 1
        /\ bad # 0 \/ pc = Len(C.items) + 1
        /\ IF Final # 0
           THEN IF C.rc # 0 /\ C.errline \in Final..LastLine THEN PrintT(<<"ACCEPT", tc>>)
                ELSE PrintT(<<"REJECT", tc, "error expected at line", Final, "nvc", C.rc, C.errline>>)
           ELSE IF C.rc = 0 /\ C.log = out /\ C.warn = diag THEN PrintT(<<"ACCEPT", tc>>)
                ELSE PrintT(<<"REJECT", tc, "expected", out, diag, "nvc", C.rc, C.errline, C.log, C.warn>>)
        /\ pc' = Len(C.items) + 2
        /\ UNCHANGED <<tc, stack, stmt, out, diag, bad>>
Next == Step \/ Done
=============================================================================
