--------------------------------- MODULE VxApp ---------------------------------
(***************************************************************************)
(* Who runs a program and what they may do.                                *)
(*                                                                         *)
(* A context says who the user is, which guarded functions they may call   *)
(* and which permissions they hold.  A function declared with :permission  *)
(* is carried out only for a user who may call that very function; a call  *)
(* that is not allowed gives the empty value of the result type, wherever  *)
(* it stands.  The context reaches every function that asks for it, however*)
(* deep the call.                                                          *)
(*                                                                         *)
(* An application is a main function and a function that makes the context *)
(* from the arguments; it prints what main computes from the arguments.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Mode,      \* "permit": functions and contexts; "apps": applications
          Size,      \* functions of a drawn program
          OutFile

VARIABLES funcs,     \* the functions, each may call earlier ones
          ctxs,      \* the contexts
          apps,      \* the applications, with the argument lists they are given
          phase

vars == <<funcs, ctxs, apps, phase>>

Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
One(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
Users == {"ann", "bob", "cy"}
Perms == {"p1", "p2", "p1x"}
ShortNames == {"alpha", "alphas", "beta"}
Places == {"one", "two"}         \* "one" uses "two"

\* k: "leaf" computes a value of kind rk from its parameter; "user" gives the name of the user; "holds" tells
\* whether the user holds permission q; "relay" calls function c in some way and tells whether the call was
\* carried out (and, of a relay, whether that one said so too).
Fun(p, n, g, pk, rk, k, c, way, q) == [p |-> p, n |-> n, g |-> g, pk |-> pk, rk |-> rk, k |-> k, c |-> c, way |-> way, q |-> q]
Params == {"none", "int", "string", "two"}
Results == {"string", "int", "boolean", "list", "struct"}
Ways == {"plain", "let", "fn", "switch", "argument", "thread", "branch"}

RECURSIVE Outcome(_, _)
\* What a call of function i tells: "denied", or what it computed.
Outcome(i, x) ==
  LET f == funcs[i]
  IN IF f.g /\ i \notin x.may THEN "denied"
     ELSE CASE f.k = "leaf" -> "yes"
            [] f.k = "user" -> x.user
            [] f.k = "holds" -> IF f.q \in x.holds THEN "yes" ELSE "no"
            [] f.k = "relay" -> IF Outcome(f.c, x) \in {"yes"} \cup Users THEN "yes" ELSE "no"

\* Threading needs a parameter; the function that is passed on takes one.
Fits(f, way) == /\ way = "thread" => f.pk \in {"int", "string"}
                /\ way = "fn" => f.pk \in {"int", "string"} /\ f.rk = "string"
                /\ way = "switch" => f.rk = "string"
                /\ way = "argument" => f.rk = "string"
                /\ way = "branch" => f.rk = "string"
                /\ f.k = "user" => way \in {"plain", "let"}
Sees(p, i) == funcs[i].p = p \/ p = "one"
Free(p) == ShortNames \ {funcs[i].n : i \in {j \in 1..Len(funcs) : funcs[j].p = p}}

Drawing == phase = "draw" /\ Len(funcs) < Size
AddLeaf == Drawing /\ \E p \in Pick({r \in Places : Free(r) # {}}) : \E n \in Pick(Free(p)) : \E pk \in Pick(Params) : \E rk \in Pick(Results) : \E g \in Pick({TRUE, TRUE, FALSE}) :
  funcs' = Append(funcs, Fun(p, n, g, pk, rk, "leaf", 0, "", "")) /\ UNCHANGED <<ctxs, apps, phase>>
AddUser == Drawing /\ \E p \in Pick({r \in Places : Free(r) # {}}) : \E n \in Pick(Free(p)) : \E g \in Pick(BOOLEAN) :
  funcs' = Append(funcs, Fun(p, n, g, "none", "string", "user", 0, "", "")) /\ UNCHANGED <<ctxs, apps, phase>>
AddHolds == Drawing /\ \E p \in Pick({r \in Places : Free(r) # {}}) : \E n \in Pick(Free(p)) : \E g \in Pick(BOOLEAN) : \E q \in Pick(Perms) :
  funcs' = Append(funcs, Fun(p, n, g, "none", "string", "holds", 0, "", q)) /\ UNCHANGED <<ctxs, apps, phase>>
AddRelay == Drawing /\ \E p \in Pick({r \in Places : Free(r) # {} /\ \E i \in 1..Len(funcs) : Sees(r, i)}) : \E n \in Pick(Free(p)) : \E g \in Pick(BOOLEAN) :
  \E c \in Pick({i \in 1..Len(funcs) : Sees(p, i)}) : \E way \in Pick({w \in Ways : Fits(funcs[c], w)}) : \E pk \in Pick({"none", "int"}) :
  funcs' = Append(funcs, Fun(p, n, g, pk, "string", "relay", c, way, "")) /\ UNCHANGED <<ctxs, apps, phase>>

Guarded == {i \in 1..Len(funcs) : funcs[i].g}
Ctx(may, user, holds) == [may |-> may, user |-> user, holds |-> holds]
\* Nobody may do anything; one may call everything; the others each a part.
AddNone == phase = "draw" /\ Len(funcs) = Size /\ ctxs = <<>> /\ ctxs' = <<Ctx({}, "ann", {}), Ctx(Guarded, "bob", Perms)>> /\ UNCHANGED <<funcs, apps, phase>>
AddCtx == phase = "draw" /\ Len(ctxs) \in 2..4 /\ \E may \in Pick(SUBSET Guarded) : \E user \in Pick(Users) : \E holds \in Pick(SUBSET Perms) :
  ctxs' = Append(ctxs, Ctx(may, user, holds)) /\ UNCHANGED <<funcs, apps, phase>>
Settle == phase = "draw" /\ Mode = "permit" /\ Len(ctxs) = 5 /\ phase' = "done" /\ UNCHANGED <<funcs, ctxs, apps>>

-----------------------------------------------------------------------------
(* Applications.                                                             *)
\* main: "" none is named; "join" the arguments after each other; "count" how many; "first" the first;
\* "quoted" as printed; "user" the name of the user; "wrap" between brackets.
Mains == {"", "join", "count", "first", "last", "user", "wrap"}
\* Who the context says the user is: by default nobody.
Makers == {"", "fixed", "args", "slow"}
Units == {"a", "Zz", "12", "-3", "true", ":k", "a b", "E9", "QT", "BS", "(", "", "--x", "'", "NL", "$HOME", "%d", "*"}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Flat(Tail(s))
App(main, slow, ctx, maker, away, domain) == [main |-> main, slow |-> slow, ctx |-> ctx, maker |-> maker, away |-> away, domain |-> domain]
UserOf(a, args) == CASE a.maker = "" -> <<>> [] a.maker \in {"fixed", "slow"} -> <<"fay">> [] a.maker = "args" -> args
\* What the application prints, as a sequence of units and words.
Prints(a, args) ==
  CASE a.main = "" -> args
    [] a.main = "join" -> args
    [] a.main = "wrap" -> <<"<">> \o args \o <<">">>
    [] a.main = "count" -> <<ToString(Len(args))>>
    [] a.main = "first" -> IF args = <<>> THEN <<>> ELSE <<args[1]>>
    [] a.main = "last" -> IF args = <<>> THEN <<>> ELSE <<args[Len(args)]>>
    [] a.main = "user" -> <<"u:">> \o UserOf(a, args)
\* slow: an async main; ctx: a main that asks for the context.  Only one that asks for it knows the user.
Sound(a) == /\ a.main = "" => ~ a.slow /\ ~ a.ctx /\ ~ a.away
            /\ a.main = "user" => a.ctx
            /\ a.slow => a.main \in {"join", "user", "wrap"}
            /\ a.domain => a.main \in {"", "wrap", "user"}
AllApps == {a \in [main : Mains, slow : BOOLEAN, ctx : BOOLEAN, maker : Makers, away : BOOLEAN, domain : BOOLEAN] : Sound(a)}
ArgLists == {<<>>} \cup {<<u>> : u \in Units} \cup {<<u, v>> : u \in Units, v \in Units}
TakeApp == phase = "draw" /\ Mode = "apps" /\ Len(apps) < Size /\
  \E a \in Pick(AllApps \ {apps[i].a : i \in 1..Len(apps)}) : \E l1 \in Pick({l \in ArgLists : Len(l) = 2}) : \E l2 \in Pick({l \in ArgLists : Len(l) = 1}) : \E l3 \in Pick({l \in ArgLists : Len(l) = 2}) :
    apps' = Append(apps, [a |-> a, runs |-> [i \in 1..4 |-> LET l == <<<<>>, l2, l1, l3 \o l1>>[i] IN [args |-> l, want |-> Prints(a, l)]]]) /\ UNCHANGED <<funcs, ctxs, phase>>
Close == phase = "draw" /\ Mode = "apps" /\ Len(apps) = Size /\ phase' = "done" /\ UNCHANGED <<funcs, ctxs, apps>>

Init == funcs = <<>> /\ ctxs = <<>> /\ apps = <<>> /\ phase = "draw"
Next == (Mode = "permit" /\ (AddLeaf \/ AddUser \/ AddHolds \/ AddRelay \/ AddNone \/ AddCtx \/ Settle)) \/ TakeApp \/ Close
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Nobody gets more from less: whoever may call more is denied no more.
OrderInv == phase = "done" => \A x, y \in Range(ctxs) : \A i \in 1..Len(funcs) :
  (x.may \subseteq y.may /\ Outcome(i, x) # "denied") => Outcome(i, y) # "denied"
\* A guarded function that is not in the list is denied, and no other.
GuardInv == phase = "done" => \A x \in Range(ctxs) : \A i \in 1..Len(funcs) : (Outcome(i, x) = "denied") <=> (funcs[i].g /\ i \notin x.may)

Table == [i \in 1..Len(funcs) |-> [j \in 1..Len(ctxs) |-> Outcome(i, ctxs[j])]]
Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([funcs |-> funcs, ctxs |-> ctxs, table |-> Table, apps |-> apps])>>, OutFile)
=============================================================================
