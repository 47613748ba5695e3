------------------------------- MODULE VxAsync -------------------------------
(***************************************************************************)
(* Functions whose results are awaited.  A call of such a function is a    *)
(* task.  A task of the outside world ends whenever it likes; any other    *)
(* task works out its first bindings, starts one task or, for a list, one  *)
(* for every item, sleeps until all of them have ended and goes on with    *)
(* what they gave, in the order in which it asked.  Whatever order tasks   *)
(* end in, a call is worth the same, and every call of the outside world   *)
(* that the program asks for is made exactly once.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV

CONSTANTS Mode,      \* "fixed": all orders in which tasks of a few programs can end;  "drawn": drawn programs
          NFunc,     \* number of functions of a drawn program
          NMain,     \* number of calls made of it
          OutFile

VARIABLES funcs,     \* declared functions
          mains,     \* calls: [f, as, want, ticks]; the last one is being carried out
          tasks,     \* tasks of the call that is being carried out: [f, vs, st, kids, v]
          phase
vars == <<funcs, mains, tasks, phase>>

One(S) == RandomElement(S)
Value(S) == CHOOSE x \in S : TRUE
\* What the outside world offers: each gives back what it is given, after a while of its own.
World == <<[n |-> "slow-up", ty |-> "int"], [n |-> "slow-down", ty |-> "int"], [n |-> "ready", ty |-> "int"], [n |-> "slow-text", ty |-> "string"]>>
NW == Len(World)

(* ----- expressions that are worked out at once ----- *)
E0 == [k |-> "", ty |-> "", n |-> 0, x |-> "", as |-> <<>>]
IntE(n) == [E0 EXCEPT !.k = "int", !.ty = "int", !.n = n]
StrE(x) == [E0 EXCEPT !.k = "str", !.ty = "string", !.x = x]
VarE(x, ty) == [E0 EXCEPT !.k = "var", !.ty = ty, !.x = x]
OpE(x, a, b) == [E0 EXCEPT !.k = "op", !.ty = "int", !.x = x, !.as = <<a, b>>]
CatE(a, b) == [E0 EXCEPT !.k = "cat", !.ty = "string", !.as = <<a, b>>]
TextE(a) == [E0 EXCEPT !.k = "text", !.ty = "string", !.as = <<a>>]
AtE(a, n) == [E0 EXCEPT !.k = "at", !.ty = "int", !.n = n, !.as = <<a>>]
LenE(a) == [E0 EXCEPT !.k = "len", !.ty = "int", !.as = <<a>>]
ListE(as) == [E0 EXCEPT !.k = "list", !.ty = "intlist", !.as = as]
IfE(ty, x, a, b, c, d) == [E0 EXCEPT !.k = "if", !.ty = ty, !.x = x, !.as = <<a, b, c, d>>]
\* Every item of a list, with a value from around added: a function written in place.
MapE(l, a) == [E0 EXCEPT !.k = "map", !.ty = "intlist", !.as = <<l, a>>]
\* A name for a value.
LetE(x, t, a, b) == [E0 EXCEPT !.k = "let", !.ty = b.ty, !.x = x, !.as = <<a, b>>]
\* A call of a declared function that is not awaited.
PlainE(i, as) == [E0 EXCEPT !.k = "plain", !.ty = funcs[i].ty, !.n = i, !.as = as]

Lookup(env, x) == env[CHOOSE i \in 1..Len(env) : env[i][1] = x][2]
RECURSIVE Eval(_, _), EvalAll(_, _), Binds(_, _)
EvalAll(env, as) == [i \in 1..Len(as) |-> Eval(env, as[i])]
Binds(env, bs) == IF bs = <<>> THEN env ELSE Binds(Append(env, <<Head(bs).x, Eval(env, Head(bs).e)>>), Tail(bs))
Frame(f, vs) == [i \in 1..Len(f.ps) |-> <<f.ps[i].x, vs[i]>>]
Eval(env, e) ==
  CASE e.k = "int" -> e.n
    [] e.k = "str" -> e.x
    [] e.k = "var" -> Lookup(env, e.x)
    [] e.k = "op" -> IF e.x = "+" THEN Eval(env, e.as[1]) + Eval(env, e.as[2]) ELSE Eval(env, e.as[1]) - Eval(env, e.as[2])
    [] e.k = "cat" -> Eval(env, e.as[1]) \o Eval(env, e.as[2])
    [] e.k = "text" -> ToString(Eval(env, e.as[1]))
    [] e.k = "at" -> LET q == Eval(env, e.as[1]) IN IF e.n <= Len(q) THEN q[e.n] ELSE 0
    [] e.k = "len" -> Len(Eval(env, e.as[1]))
    [] e.k = "list" -> EvalAll(env, e.as)
    [] e.k = "if" -> IF (IF e.x = "<" THEN Eval(env, e.as[1]) < Eval(env, e.as[2]) ELSE Eval(env, e.as[1]) > Eval(env, e.as[2]))
                     THEN Eval(env, e.as[3]) ELSE Eval(env, e.as[4])
    [] e.k = "map" -> LET q == Eval(env, e.as[1]) IN [i \in 1..Len(q) |-> q[i] + Eval(env, e.as[2])]
    [] e.k = "let" -> Eval(Append(env, <<e.x, Eval(env, e.as[1])>>), e.as[2])
    [] e.k = "plain" -> Eval(Frame(funcs[e.n], EvalAll(env, e.as)), funcs[e.n].body)

(* ----- functions ----- *)
\* shape: "plain" not awaited; "direct" gives what the awaited call gives; "await" binds it and goes on.
\* each: one task for every item of the list lst instead of one with the arguments as.
\* callee: 1..NW the outside world, above that the declared function callee - NW.
\* va: the last parameter takes what is left of the arguments.  ctx: the function is given the context.
F0 == [n |-> "", p |-> 1, va |-> FALSE, ctx |-> FALSE, ty |-> "", ps |-> <<>>, shape |-> "", each |-> FALSE, callee |-> 0, as |-> <<>>, lst |-> E0,
       pre |-> <<>>, post |-> <<>>, body |-> E0]
Kind(c) == IF c <= NW THEN World[c].ty ELSE funcs[c - NW].ty
Takes(c) == IF c <= NW THEN <<World[c].ty>> ELSE [i \in 1..Len(funcs[c - NW].ps) |-> funcs[c - NW].ps[i].ty]

(* ----- what a call is worth, without any order ----- *)
RECURSIVE Worth(_, _), Ticks(_, _), SumOf(_)
Start(f, vs) == Binds(Frame(f, vs), f.pre)
Finish(f, vs, v) == IF f.shape = "direct" THEN v ELSE Eval(Binds(Append(Start(f, vs), <<"x", v>>), f.post), f.body)
Asked(f, vs) == LET env == Start(f, vs) IN
  IF f.each THEN LET q == Eval(env, f.lst) IN [i \in 1..Len(q) |-> <<q[i]>>] ELSE <<EvalAll(env, f.as)>>
Worth(c, vs) ==
  IF c <= NW THEN vs[1]
  ELSE LET f == funcs[c - NW]
           got == [i \in 1..Len(Asked(f, vs)) |-> Worth(f.callee, Asked(f, vs)[i])]
       IN IF f.shape = "plain" THEN Eval(Frame(f, vs), f.body) ELSE Finish(f, vs, IF f.each THEN got ELSE got[1])
SumOf(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumOf(Tail(q))
Ticks(c, vs) ==
  IF c <= NW THEN 1
  ELSE LET f == funcs[c - NW] IN IF f.shape = "plain" THEN 0 ELSE SumOf([i \in 1..Len(Asked(f, vs)) |-> Ticks(f.callee, Asked(f, vs)[i])])

(* ----- drawing functions ----- *)
Texts == {"", "a", "two words", "q\"q", "(x)"}
Of(vs, ty) == {v \in vs : v.ty = ty}
Plains(ty, p) == {i \in 1..Len(funcs) : funcs[i].shape = "plain" /\ funcs[i].ty = ty /\ funcs[i].p <= p}
RECURSIVE Gen(_, _, _, _)
Leaf(ty, vs) == Value({IF c <= 4 /\ Of(vs, ty) # {} THEN Value({VarE(v.x, ty) : v \in {One(Of(vs, ty))}})
  ELSE CASE ty = "int" -> IntE(One(-2..9)) [] ty = "string" -> StrE(One(Texts)) [] OTHER -> ListE([i \in 1..One(0..4) |-> IntE(One(0..9))]) : c \in {One(1..5)}})
Gen(ty, vs, p, d) ==
  IF d = 0 THEN Leaf(ty, vs)
  ELSE Value({
    IF c <= 3 THEN Leaf(ty, vs)
    ELSE IF c = 4 THEN IfE(ty, One({"<", ">"}), Leaf("int", vs), Leaf("int", vs), Gen(ty, vs, p, d - 1), Gen(ty, vs, p, d - 1))
    ELSE IF c = 5 /\ Plains(ty, p) # {} THEN Value({PlainE(i, [j \in 1..Len(funcs[i].ps) |-> Gen(funcs[i].ps[j].ty, vs, p, d - 1)]) : i \in {One(Plains(ty, p))}})
    ELSE IF c = 6 THEN Value({LetE("loc" \o ToString(d), t, Gen(t, vs, p, d - 1), Gen(ty, vs \cup {[x |-> "loc" \o ToString(d), ty |-> t]}, p, d - 1)) : t \in {One({"int", "string", "intlist"})}})
    ELSE CASE ty = "int" ->
                (IF c <= 8 THEN OpE(One({"+", "-"}), Gen("int", vs, p, d - 1), Gen("int", vs, p, d - 1))
                 ELSE IF Of(vs, "intlist") = {} THEN OpE("+", Gen("int", vs, p, d - 1), Leaf("int", vs))
                 ELSE IF c = 9 THEN LenE(Gen("intlist", vs, p, d - 1))
                 ELSE AtE(Gen("intlist", vs, p, d - 1), One(1..3)))
           [] ty = "string" -> (IF c <= 7 THEN CatE(Gen("string", vs, p, d - 1), Gen("string", vs, p, d - 1)) ELSE TextE(Gen("int", vs, p, d - 1)))
           [] OTHER -> (IF c <= 7 THEN ListE([i \in 1..One(1..4) |-> Gen("int", vs, p, d - 1)]) ELSE MapE(Leaf("intlist", vs), Gen("int", vs, p, d - 1)))
    : c \in {One(1..10)}})
\* Functions of one name differ in the type of their first parameter.
Names == {"get", "fetch-it", "int<-far", "load", "both", "read-2", "a-b-c"}
\* Which of several functions of one name is meant where only the name is given is not said: such a name has one function.
IsVa(ps) == ps # <<>> /\ ps[Len(ps)].x = "rest"
Lone(c) == c <= NW \/ ~\E i \in 1..Len(funcs) : i # c - NW /\ funcs[i].n = funcs[c - NW].n /\ funcs[i].p = funcs[c - NW].p
Given(n, p) == \E i \in 1..Len(funcs) : funcs[i].each /\ funcs[i].callee > NW /\ funcs[funcs[i].callee - NW].n = n /\ funcs[funcs[i].callee - NW].p = p
Fits(n, p, ps) == ~Given(n, p) /\ ~\E i \in 1..Len(funcs) : funcs[i].n = n /\ funcs[i].p = p
  /\ (ps = <<>> \/ Len(funcs[i].ps) # Len(ps) \/ funcs[i].ps[1].ty = ps[1].ty \/ funcs[i].va \/ IsVa(ps))
Params == {<<>>, <<[x |-> "a", ty |-> "int"], [x |-> "rest", ty |-> "intlist"]>>, <<[x |-> "a", ty |-> "int"]>>, <<[x |-> "a", ty |-> "string"]>>, <<[x |-> "a", ty |-> "int"], [x |-> "b2", ty |-> "string"]>>,
           <<[x |-> "a", ty |-> "int"], [x |-> "in-put", ty |-> "int"]>>}
Heads == Names \X (1..2) \X Params
SetOf(ps) == {ps[i] : i \in 1..Len(ps)}
GenArgs(c, vs, p) == [i \in 1..Len(Takes(c)) |-> IF c > NW /\ funcs[c - NW].va /\ i = Len(Takes(c)) THEN ListE([j \in 1..One(1..3) |-> Gen("int", vs, p, 1)]) ELSE Gen(Takes(c)[i], vs, p, 2)]
Ctx(c) == One({TRUE, FALSE, FALSE}) \/ (c > NW /\ funcs[c - NW].ctx)
Callees(p) == {c \in 1..(NW + Len(funcs)) : IF c <= NW THEN TRUE ELSE funcs[c - NW].shape # "plain" /\ funcs[c - NW].p <= p}
EachOf(p) == {c \in Callees(p) : Kind(c) = "int" /\ Takes(c) = <<"int">> /\ Lone(c) /\ (c <= NW \/ ~funcs[c - NW].ctx)}
\* Something made of what was awaited.
Single(t) == CASE t = "int" -> VarE("x", "int") [] t = "string" -> VarE("x", "string") [] OTHER -> AtE(VarE("x", "intlist"), One(1..3))
Made(ty, t, e) ==
  CASE ty = "int" -> (IF t = "string" THEN e ELSE OpE(One({"+", "-"}), e, Single(t)))
    [] ty = "string" -> CatE(IF t = "string" THEN Single(t) ELSE TextE(Single(t)), e)
    [] OTHER -> (CASE t = "int" -> MapE(e, Single(t)) [] t = "string" -> e [] OTHER -> (IF One(1..2) = 1 THEN VarE("x", "intlist") ELSE MapE(VarE("x", "intlist"), LenE(e))))
GenBody(ty, t, vs, p) == Value({IF c = 1 THEN e ELSE Made(ty, t, e) : c \in {One(1..4)}, e \in {Gen(ty, vs, p, 2)}})
\* At most one binding before the awaited one and two after it.
GenPre(vs, p, n) == IF n = 0 THEN <<>> ELSE Value({<<[x |-> "pre", ty |-> t, e |-> Gen(t, vs, p, 1)]>> : t \in {One({"int", "string", "intlist"})}})
GenPost(vs, p, n) == IF n = 0 THEN <<>> ELSE Value({
  IF n = 1 THEN <<b>> ELSE <<b, [x |-> "then-2", ty |-> "int", e |-> Gen("int", vs \cup {[x |-> "then-1", ty |-> b.ty]}, p, 2)]>> :
  b \in {Value({[x |-> "then-1", ty |-> t, e |-> Gen(t, vs, p, 2)] : t \in {One({"int", "string", "intlist"})}})}})
Bound(bs) == {[x |-> bs[i].x, ty |-> bs[i].ty] : i \in 1..Len(bs)}

Put(f) == funcs' = Append(funcs, f) /\ UNCHANGED <<mains, tasks, phase>>
Room == phase = "draw" /\ Len(funcs) < NFunc
AddPlain == Room /\ Len(funcs) % 4 = 0 /\ \E p \in {One(1..2)} : \E ps \in {One({q \in Params : q # <<>> /\ ~IsVa(q)})} : \E t \in {One({"int", "string"})} : \E b \in {Gen(t, SetOf(ps), p, 2)} :
  Put([F0 EXCEPT !.n = "plain-" \o ToString(Len(funcs)), !.p = p, !.ty = t, !.ps = ps, !.shape = "plain", !.body = b])
AddDirect == Room /\ Len(funcs) % 4 # 0 /\ \E h \in {One({x \in Heads : Fits(x[1], x[2], x[3])})} : \E n \in {h[1]} : \E p \in {h[2]} : \E ps \in {h[3]} : \E each \in {One({TRUE, FALSE})} :
     \E c \in {One(IF each THEN EachOf(p) ELSE Callees(p))} :
     \E as \in {GenArgs(c, SetOf(ps), p)} : \E l \in {Gen("intlist", SetOf(ps), p, 2)} :
     Put([F0 EXCEPT !.n = n, !.p = p, !.ty = (IF each THEN "intlist" ELSE Kind(c)), !.ps = ps, !.shape = "direct", !.each = each, !.callee = c, !.va = IsVa(ps), !.ctx = Ctx(c),
                    !.as = (IF each THEN <<>> ELSE as), !.lst = (IF each THEN l ELSE E0)])
AddAwait == Room /\ Len(funcs) % 4 # 0 /\ \E h \in {One({x \in Heads : Fits(x[1], x[2], x[3])})} : \E n \in {h[1]} : \E p \in {h[2]} : \E ps \in {h[3]} : \E each \in {One({TRUE, FALSE})} : \E t \in {One({"int", "string", "intlist"})} :
     \E c \in {One(IF each THEN EachOf(p) ELSE Callees(p))} : \E pre \in {GenPre(SetOf(ps), p, One(0..1))} : \E vs \in {SetOf(ps) \cup Bound(pre)} :
     \E as \in {GenArgs(c, vs, p)} : \E l \in {Gen("intlist", vs, p, 2)} :
     \E ws \in {vs \cup {[x |-> "x", ty |-> IF each THEN "intlist" ELSE Kind(c)]}} : \E post \in {GenPost(ws, p, One(0..2))} :
     \E b \in {GenBody(t, IF each THEN "intlist" ELSE Kind(c), ws \cup Bound(post), p)} :
     Put([F0 EXCEPT !.n = n, !.p = p, !.ty = t, !.ps = ps, !.shape = "await", !.each = each, !.callee = c, !.va = IsVa(ps), !.ctx = Ctx(c),
                    !.as = (IF each THEN <<>> ELSE as), !.lst = (IF each THEN l ELSE E0), !.pre = pre, !.post = post, !.body = b])

(* ----- a call is carried out ----- *)
Task(c, vs) == [c |-> c, vs |-> vs, st |-> "new", kids |-> <<>>, v |-> 0]
Async == {i \in 1..Len(funcs) : funcs[i].shape # "plain"}
Args(ps) == [i \in 1..Len(ps) |-> CASE ps[i].ty = "int" -> One(0..9) [] ps[i].ty = "string" -> One(Texts) [] OTHER -> [j \in 1..One(1..3) |-> One(0..9)]]
Main == phase \in {"draw", "next"} /\ Len(funcs) = NFunc /\ Len(mains) < NMain
  /\ \E i \in {One(Async)} : \E vs \in {Args(funcs[i].ps)} :
     /\ mains' = Append(mains, [f |-> i, as |-> vs, want |-> Worth(NW + i, vs), ticks |-> Ticks(NW + i, vs)])
     /\ tasks' = <<Task(NW + i, vs)>>
  /\ phase' = "run" /\ UNCHANGED funcs
Func(t) == funcs[tasks[t].c - NW]
Now(st, world) == {t \in 1..Len(tasks) : tasks[t].st = st /\ (tasks[t].c <= NW) = world}
\* A task begins: it starts the tasks it needs.
Begin(t) == phase = "run" /\ t \in Now("new", FALSE)
  /\ \E qs \in {Asked(Func(t), tasks[t].vs)} :
     tasks' = [tasks EXCEPT ![t].st = "wait", ![t].kids = [i \in 1..Len(qs) |-> Len(tasks) + i]] \o [i \in 1..Len(qs) |-> Task(Func(t).callee, qs[i])]
  /\ UNCHANGED <<funcs, mains, phase>>
\* A task of the outside world ends, whichever of them likes to.
EndWorld(t) == phase = "run" /\ t \in Now("new", TRUE)
  /\ tasks' = [tasks EXCEPT ![t].st = "end", ![t].v = tasks[t].vs[1]] /\ UNCHANGED <<funcs, mains, phase>>
\* A task whose tasks have all ended goes on.
GoOn(t) == phase = "run" /\ t \in Now("wait", FALSE) /\ (\A i \in 1..Len(tasks[t].kids) : tasks[tasks[t].kids[i]].st = "end")
  /\ \E got \in {[i \in 1..Len(tasks[t].kids) |-> tasks[tasks[t].kids[i]].v]} :
     tasks' = [tasks EXCEPT ![t].st = "end", ![t].v = Finish(Func(t), tasks[t].vs, IF Func(t).each THEN got ELSE got[1])]
  /\ UNCHANGED <<funcs, mains, phase>>
Over == phase = "run" /\ tasks[1].st = "end" /\ phase' = (IF Len(mains) < NMain THEN "next" ELSE "done") /\ UNCHANGED <<funcs, mains, tasks>>

(* ----- a few programs of which every order is tried ----- *)
Arg(x) == VarE(x, "int")
IntP(x) == [x |-> x, ty |-> "int"]
\* Adds one to what comes.
Inc == [F0 EXCEPT !.n = "get", !.ty = "int", !.ps = <<IntP("a")>>, !.shape = "await", !.callee = 1, !.as = <<Arg("a")>>, !.body = OpE("+", Arg("x"), IntE(1))]
\* A list of calls, each of which waits for something.
Many == [F0 EXCEPT !.n = "load", !.ty = "intlist", !.ps = <<IntP("a")>>, !.shape = "direct", !.each = TRUE, !.callee = NW + 1,
                   !.lst = ListE(<<Arg("a"), IntE(2), OpE("+", Arg("a"), IntE(3)), IntE(4)>>)]
\* Lists within a list.
Part == [F0 EXCEPT !.n = "int<-far", !.ty = "int", !.ps = <<IntP("a")>>, !.shape = "await", !.each = TRUE, !.callee = 2, !.lst = ListE(<<Arg("a"), IntE(2)>>),
                   !.body = OpE("-", AtE(VarE("x", "intlist"), 1), AtE(VarE("x", "intlist"), 2))]
Whole == [F0 EXCEPT !.n = "load", !.ty = "intlist", !.ps = <<IntP("a")>>, !.shape = "await", !.each = TRUE, !.callee = NW + 1, !.pre = <<[x |-> "pre", ty |-> "int", e |-> IntE(5)]>>,
                    !.lst = ListE(<<Arg("a"), IntE(7), Arg("pre")>>), !.body = MapE(VarE("x", "intlist"), Arg("pre"))]
Fixed == {<<Inc, Many>>, <<Part, Whole>>}

Init == /\ mains = <<>> /\ tasks = <<>> /\ phase = "draw"
        /\ IF Mode = "fixed" THEN funcs \in Fixed ELSE funcs = <<>>
MainFixed == phase = "draw" /\ mains = <<>>
  /\ \E a \in {0, 6} :
     mains' = <<[f |-> 2, as |-> <<a>>, want |-> Worth(NW + 2, <<a>>), ticks |-> Ticks(NW + 2, <<a>>)]>> /\ tasks' = <<Task(NW + 2, <<a>>)>>
  /\ phase' = "run" /\ UNCHANGED funcs
Step == \E t \in 1..Len(tasks) : Begin(t) \/ EndWorld(t) \/ GoOn(t)
Next == IF Mode = "fixed" THEN MainFixed \/ Step \/ Over ELSE AddPlain \/ AddDirect \/ AddAwait \/ Main \/ Step \/ Over
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Last == mains[Len(mains)]
\* Whatever order tasks end in, the call is worth the same...
SameInv == (phase \in {"next", "done"}) => tasks[1].v = Last.want
\* ...the outside world is asked exactly as often as the program says...
OnceInv == (phase \in {"next", "done"}) => Cardinality({t \in 1..Len(tasks) : tasks[t].c <= NW}) = Last.ticks
\* ...and nothing is left unfinished behind a call that has ended.
EndInv == (phase \in {"next", "done"}) => \A t \in 1..Len(tasks) : tasks[t].st = "end"
\* A call that is being carried out can always go on.
LiveInv == phase = "run" => (tasks[1].st = "end" \/ Now("new", FALSE) # {} \/ Now("new", TRUE) # {}
  \/ \E t \in Now("wait", FALSE) : \A i \in 1..Len(tasks[t].kids) : tasks[tasks[t].kids[i]].st = "end")

Emit == (phase = "done" /\ OutFile # "" /\ Mode # "fixed") => CSVWrite("%1$s", <<ToJson([funcs |-> funcs, mains |-> mains])>>, OutFile)
=============================================================================
