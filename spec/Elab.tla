-------------------------------- MODULE Elab --------------------------------
(* Elaboration of a design hierarchy (IEEE 1076-2008 section 14).            *)
(* A case has entities (generics with defaults, architectures, which one was *)
(* analysed last), component declarations, configuration declarations, and   *)
(* the values given on the command line.  The state is a list of scopes that *)
(* remain to be elaborated and the log of those that were: for every block,  *)
(* generate iteration or alternative, and architecture its instance name and *)
(* the value of a constant declared there.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt

Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES tc, todo, log, fin
vars == <<tc, todo, log, fin>>
C == Cases[tc]

\* environments: sequences of <<name, value>>, the last one of a name counts
Lookup(env, n) == LET s == {i \in 1..Len(env) : env[i][1] = n}
                  IN env[CHOOSE i \in s : \A j \in s : j <= i][2]
Has(env, n) == \E i \in 1..Len(env) : env[i][1] = n

RECURSIVE Eval(_, _)
Eval(e, env) ==
  CASE e[1] = "n" -> e[2]
    [] e[1] = "v" -> Lookup(env, e[2])
    [] e[1] = "+" -> Eval(e[2], env) + Eval(e[3], env)
    [] e[1] = "-" -> Eval(e[2], env) - Eval(e[3], env)
    [] e[1] = "*" -> Eval(e[2], env) * Eval(e[3], env)
    [] e[1] = "mod" -> Eval(e[2], env) % e[3]
    [] e[1] = "f" -> LET x == Eval(e[2], env) IN IF x > 2 THEN x - 2 ELSE 2 * x + 1    \* a function of the package
    [] e[1] = "true" -> TRUE
    [] e[1] = "=" -> Eval(e[2], env) = Eval(e[3], env)
    [] e[1] = "<" -> Eval(e[2], env) < Eval(e[3], env)
    [] e[1] = "not" -> ~Eval(e[2], env)
    [] e[1] = "and" -> Eval(e[2], env) /\ Eval(e[3], env)
    [] e[1] = "or" -> Eval(e[2], env) \/ Eval(e[3], env)

\* generics: declared <<name, default>>, associated by a map of <<name, expression>>
Generics(decl, gmap, env) ==
  [i \in 1..Len(decl) |-> <<decl[i][1], IF Has(gmap, decl[i][1]) THEN Eval(Lookup(gmap, decl[i][1]), env)
                                       ELSE Eval(decl[i][2], <<>>)>>]

Scope(name, body, env, cfg) == [name |-> name, body |-> body, env |-> env, cfg |-> cfg]
ArchScope(name, ent, arch, gens, cfg) ==
  Scope(name \o "@" \o ent \o "(" \o arch \o ")", C.ents[ent].archs[arch], gens, cfg)

\* the items of a block configuration that apply within a generate or block
Sub(cfg, label, index) ==
  FoldLeft(LAMBDA a, it : IF it.t = "scope" /\ it.label = label /\ (it.idx = <<>> \/ (index # <<>> /\ index[1] \in it.idx[1]..it.idx[2]))
                          THEN a \o it.items ELSE a, <<>>, cfg)

Mentions(sel, label) == sel[1] = "all" \/ sel[1] = "others" \/ label \in Range(sel[2])
\* specifications: one that names the label, else others, else all (which is alone)
Spec(specs, comp, label) ==
  LET named == SelectSeq(specs, LAMBDA s : s.comp = comp /\ s.sel[1] = "named" /\ label \in Range(s.sel[2]))
      rest == SelectSeq(specs, LAMBDA s : s.comp = comp /\ s.sel[1] # "named")
  IN named \o rest

NoScopes == <<>>
Bound(st, s, cenv, b, items) ==
  \* b: binding; cenv: the generics of the component
  CASE b.kind = "open" -> NoScopes
    [] b.kind = "entity" ->
         LET e == C.ents[b.ent]
             gens == IF b.hasmap THEN Generics(e.gens, b.gmap, s.env \o cenv)
                     ELSE [i \in 1..Len(e.gens) |-> <<e.gens[i][1], IF Has(cenv, e.gens[i][1]) THEN Lookup(cenv, e.gens[i][1])
                                                                   ELSE Eval(e.gens[i][2], <<>>)>>]
         IN <<ArchScope(s.name \o ":" \o st.label, b.ent, IF b.arch = "" THEN e.last ELSE b.arch, gens, items)>>
    [] b.kind = "config" ->
         LET cf == C.cfgs[b.cfg]
             e == C.ents[cf.ent]
             gens == IF b.hasmap THEN Generics(e.gens, b.gmap, s.env \o cenv)
                     ELSE [i \in 1..Len(e.gens) |-> <<e.gens[i][1], IF Has(cenv, e.gens[i][1]) THEN Lookup(cenv, e.gens[i][1])
                                                                   ELSE Eval(e.gens[i][2], <<>>)>>]
         IN <<ArchScope(s.name \o ":" \o st.label, cf.ent, cf.arch, gens, cf.items)>>

Instance(st, s) ==
  CASE st.kind = "entity" ->
         <<ArchScope(s.name \o ":" \o st.label, st.ent, IF st.arch = "" THEN C.ents[st.ent].last ELSE st.arch,
                     Generics(C.ents[st.ent].gens, st.gmap, s.env), <<>>)>>
    [] st.kind = "config" ->
         <<ArchScope(s.name \o ":" \o st.label, C.cfgs[st.ent].ent, C.cfgs[st.ent].arch,
                     Generics(C.ents[C.cfgs[st.ent].ent].gens, st.gmap, s.env), C.cfgs[st.ent].items)>>
    [] st.kind = "component" ->
         LET cenv == Generics(C.comps[st.ent].gens, st.gmap, s.env)
             cf == SelectSeq(s.cfg, LAMBDA it : it.t = "comp" /\ it.comp = st.ent /\ Mentions(it.sel, st.label))
             cn == SelectSeq(cf, LAMBDA it : it.sel[1] = "named")
             ci == IF cn # <<>> THEN cn ELSE cf
             sp == Spec(s.body.specs, st.ent, st.label)
             default == [kind |-> IF st.ent \in DOMAIN C.ents THEN "entity" ELSE "open", ent |-> st.ent, arch |-> "", hasmap |-> FALSE,
                         gmap |-> <<>>, cfg |-> ""]
         IN IF ci # <<>> THEN Bound(st, s, cenv, IF ci[1].bind.kind = "default" THEN (IF sp # <<>> THEN sp[1].bind ELSE default)
                                                 ELSE ci[1].bind, ci[1].items)
            ELSE IF sp # <<>> THEN Bound(st, s, cenv, sp[1].bind, <<>>)
            ELSE Bound(st, s, cenv, default, <<>>)

FirstAlt(alts, ok(_)) == LET q == {i \in 1..Len(alts) : ok(alts[i])}
                         IN IF q = {} THEN <<>> ELSE <<alts[CHOOSE i \in q : \A j \in q : i <= j]>>

Children(st, s) ==
  CASE st.t = "inst" -> Instance(st, s)
    [] st.t = "block" -> <<Scope(s.name \o ":" \o st.label, st.body, s.env \o Generics(st.gens, st.gmap, s.env), Sub(s.cfg, st.label, <<>>))>>
    [] st.t = "for" ->
         LET lo == Eval(st.lo, s.env)
             hi == Eval(st.hi, s.env)
         IN [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |->
               Scope(s.name \o ":" \o st.label \o "(" \o ToString(lo + i - 1) \o ")", st.body, Append(s.env, <<st.var, lo + i - 1>>),
                     Sub(s.cfg, st.label, <<lo + i - 1>>))]
    [] st.t = "if" ->
         LET a == FirstAlt(st.alts, LAMBDA x : Eval(x.cond, s.env))
         IN IF a = <<>> THEN <<>> ELSE <<Scope(s.name \o ":" \o st.label, a[1].body, s.env, Sub(s.cfg, st.label, <<>>))>>
    [] st.t = "case" ->
         LET v == Eval(st.expr, s.env)
             a == FirstAlt(st.alts, LAMBDA x : x.choices = <<>> \/ \E i \in 1..Len(x.choices) : v \in x.choices[i][1]..x.choices[i][2])
         IN IF a = <<>> THEN <<>> ELSE <<Scope(s.name \o ":" \o st.label, a[1].body, s.env, Sub(s.cfg, st.label, <<>>))>>

Init == /\ tc \in 1..Len(Cases)
        /\ log = <<>> /\ fin = FALSE
        /\ todo = LET e == C.ents[C.top] IN
                  <<Scope(":" \o C.top \o "(" \o (IF C.topcfg = "" THEN (IF C.toparch = "" THEN e.last ELSE C.toparch) ELSE C.cfgs[C.topcfg].arch) \o ")",
                          e.archs[IF C.topcfg = "" THEN (IF C.toparch = "" THEN e.last ELSE C.toparch) ELSE C.cfgs[C.topcfg].arch],
                          [i \in 1..Len(e.gens) |-> <<e.gens[i][1], IF Has(C.over, e.gens[i][1]) THEN Lookup(C.over, e.gens[i][1]) ELSE Eval(e.gens[i][2], <<>>)>>],
                          IF C.topcfg = "" THEN <<>> ELSE C.cfgs[C.topcfg].items)>>

Step == /\ todo # <<>>
        /\ \E s \in {Head(todo)} :
             /\ log' = Append(log, <<s.name, Eval(s.body.k, s.env)>>)
             /\ todo' = FoldLeft(LAMBDA a, st : a \o Children(st, s), Tail(todo), s.body.stmts)
        /\ UNCHANGED <<tc, fin>>

Done == /\ todo = <<>> /\ ~fin
        /\ fin' = TRUE
        /\ IF C.rc = 0 /\ Len(C.log) = Len(log) /\ Range(C.log) = Range(log) THEN PrintT(<<"ACCEPT", tc>>)
           ELSE PrintT(<<"REJECT", tc, "missing", Range(log) \ Range(C.log), "unexpected", Range(C.log) \ Range(log), C.rc, Len(log), Len(C.log)>>)
        /\ UNCHANGED <<tc, todo, log>>
Next == Step \/ Done
=============================================================================
