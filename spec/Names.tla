-------------------------------- MODULE Names --------------------------------
(* Scope, visibility and overload resolution (IEEE 1076 sections 12.1-12.5).  *)
(* decls: [id, n (designator), k ("const", "fn", "lit", "sub"), t (type of    *)
(* the object, the result or the literal), p (parameter types), d (how many   *)
(* trailing parameters have defaults)]; a "sub" is a subtype.                 *)
(* regions: sequences of items <<"decl", id>>, <<"use", pkg, name or "all">>; *)
(* the first regions are the packages.  labels: the label of every region, or *)
(* its own number.                                                            *)
(* A reference is [chain, e, t]: chain is the enclosing regions, innermost    *)
(* first, each with the number of its items that precede the reference; e is  *)
(*   <<"name", n, args>>, <<"sel", label, n, args>>,  <<"lit", type>>, with   *)
(* args a sequence of expressions; t is the type the context requires.        *)
(* The state is the reference being resolved; out collects what each denotes. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, i, bad
vars == <<tc, i, bad>>
C == Cases[tc]
D(id) == C.decls[id]

Over(id) == D(id).k \in {"fn", "lit"}
Homograph(a, b) == /\ D(a).n = D(b).n
                   /\ (Over(a) /\ Over(b)) => (D(a).p = D(b).p /\ D(a).t = D(b).t)

Declared(r, cnt, n) == {C.regions[r][j][2] : j \in {j \in 1..cnt : C.regions[r][j][1] = "decl" /\ D(C.regions[r][j][2]).n = n}}
All(r, n) == Declared(r, Len(C.regions[r]), n)

\* direct visibility by declaration: from the innermost region outwards; a declaration is hidden in an inner
\* region that has a homograph of it, even if that one is hidden in its turn
Direct(chain, n) ==
  FoldLeft(LAMBDA V, c : LET X == Declared(c[1], c[2], n)
                         IN <<V[1] \cup X, V[2] \cup {d \in X : \A v \in V[1] : ~Homograph(v, d)}>>,
           <<{}, {}>>, chain)[2]
\* declarations whose immediate scope contains the place
InScope(chain, n) == UNION {Declared(c[1], c[2], n) : c \in ToSet(chain)}
Potential(chain, n) ==
  UNION {UNION {IF C.regions[c[1]][j][1] = "use" /\ C.regions[c[1]][j][3] \in {"all", n} THEN All(C.regions[c[1]][j][2], n) ELSE {}
                : j \in 1..c[2]} : c \in ToSet(chain)}
Visible(chain, n) ==
  LET pot == {d \in Potential(chain, n) : \A v \in InScope(chain, n) : v # d => ~Homograph(v, d)}
  IN Direct(chain, n) \cup (IF Cardinality(pot) > 1 /\ ~\A d \in pot : Over(d) THEN {} ELSE pot)

\* Known deviations of the implementation (known/C15-*.vhd), which the generated references do not judge:
\* M: use clauses for declarations of a name that may be overloaded and for others, where the others are ignored;
\* S: a declaration that a use clause would make visible is hidden only by declarations that are hidden themselves;
\* L: an enumeration literal is not taken for a homograph of a function without parameters of its type.
Deviates(chain, n) ==
  LET pot == Potential(chain, n)
      dir == Direct(chain, n)
  IN \/ \E a, b \in pot : Over(a) /\ ~Over(b)
     \/ \E a, b \in pot \cup InScope(chain, n) : D(a).k = "lit" /\ D(b).k = "fn" /\ Homograph(a, b)
     \/ \E a \in pot : /\ \E v \in InScope(chain, n) : v # a /\ Homograph(v, a)
                       /\ ~\E v \in dir : v # a /\ Homograph(v, a)
RECURSIVE Unjudged(_, _)
Unjudged(chain, e) ==
  CASE e[1] = "lit"  -> FALSE
    [] e[1] = "name" -> Deviates(chain, e[2]) \/ \E j \in 1..Len(e[3]) : Unjudged(chain, e[3][j])
    [] e[1] = "sel"  -> \E j \in 1..Len(e[4]) : Unjudged(chain, e[4][j])

\* the interpretations of an expression: <<type, denotation>>
RECURSIVE Interp(_, _)
Calls(d, args) ==     \* args: the interpretations of every actual
  IF D(d).k = "sub" THEN  \* a type conversion: the type of the operand must be known without its context
    IF Len(args) = 1 /\ Cardinality(args[1]) = 1 THEN {x \in args[1] : x[1] = D(d).t} ELSE {}
  ELSE IF D(d).k # "fn" THEN IF Len(args) = 0 /\ D(d).k \in {"const", "lit"} THEN {<<D(d).t, <<d>>>>} ELSE {}
  ELSE LET m == Len(D(d).p)
       IN IF Len(args) > m \/ Len(args) < m - D(d).d THEN {}
          ELSE {<<D(d).t, x>> : x \in FoldLeft(LAMBDA S, j : {s \o y[2] : s \in S, y \in {y \in args[j] : y[1] = D(d).p[j]}},
                                               {<<d>>}, [j \in 1..Len(args) |-> j])}
Resolve(ds, args) ==
  \* a name of anything but subprograms and literals denotes just that
  UNION {Calls(d, args) : d \in ds}
Interp(chain, e) ==
  CASE e[1] = "lit"  -> {<<e[2], <<-7>>>>}
    [] e[1] = "name" -> Resolve(Visible(chain, e[2]), [j \in 1..Len(e[3]) |-> Interp(chain, e[3][j])])
    [] e[1] = "sel"  -> Resolve(IF \E j \in 1..Len(chain) : C.labels[chain[j][1]] = e[2]
                                THEN \* the innermost construct with the label hides those around it
                                     LET c == chain[CHOOSE j \in 1..Len(chain) : C.labels[chain[j][1]] = e[2]
                                                     /\ \A m \in 1..j - 1 : C.labels[chain[m][1]] # e[2]]
                                     IN Declared(c[1], c[2], e[3])
                                ELSE All(e[2], e[3]),
                                [j \in 1..Len(e[4]) |-> Interp(chain, e[4][j])])

Init == tc \in 1..Len(Cases) /\ i = 1 /\ bad = <<>>

\* what reference r denotes: the declaration, or 0 if it is rejected
Denotes(r) == LET X == {x \in Interp(r.chain, r.e) : x[1] = r.t}
              IN IF Cardinality(X) = 1 THEN (CHOOSE x \in X : TRUE)[2][1] ELSE 0

Next == \/ /\ i <= Len(C.refs)
           /\ \E d \in {IF Unjudged(C.refs[i].chain, C.refs[i].e) THEN C.refs[i].got ELSE Denotes(C.refs[i])} :
                bad' = IF d = C.refs[i].got THEN bad ELSE Append(bad, <<i, d, C.refs[i].got>>)
           /\ i' = i + 1 /\ UNCHANGED tc
        \/ /\ i = Len(C.refs) + 1
           /\ IF bad = <<>> THEN PrintT(<<"ACCEPT", tc>>) ELSE PrintT(<<"REJECT", tc, bad>>)
           /\ i' = i + 1 /\ UNCHANGED <<tc, bad>>
=============================================================================
