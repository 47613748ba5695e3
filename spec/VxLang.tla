------------------------------- MODULE VxLang -------------------------------
(* What the names and the forms of a program mean.                            *)
(*                                                                            *)
(* A behaviour declares constants and functions -- plain, overloaded, with a  *)
(* variable number of arguments, generic, recursive -- in three packages that *)
(* use one another, and then expressions over them.  Declarations in          *)
(* different packages, parameters, bindings and constants share their names.  *)
(* Eval is the meaning of an expression; every main expression carries its    *)
(* value.                                                                     *)
(*                                                                            *)
(*   Random = TRUE:  simulation over all declarations and expressions.        *)
(*   Random = FALSE: every nesting of up to three binders over three names,   *)
(*     every position read from lists, every way to thread a value into calls.*)
(*   Shadow: whether a name may be bound again inside its own scope.          *)
EXTENDS VxOps, Randomization, CSV, Json

CONSTANTS NDecl, NMain, Random, Shadow, OutFile

VARIABLES items, mains, phase
vars == <<items, mains, phase>>

I(n) == IntV(n)
S(s) == StrV(s)
Pick(X) == IF X = {} THEN {} ELSE RandomSubset(1, X)
One(X) == RandomElement(X)
Value(X) == CHOOSE x \in X : TRUE

Packages == 1..3
Types == {"int", "string", "intlist", "rec"}
\* The struct type rec belongs to package 1.
RecProps == << <<"num", "int">>, <<"two-words", "string">>, <<"items", "intlist">> >>
Empty(ty) == CASE ty = "int" -> I(0) [] ty = "string" -> S("") [] ty = "intlist" -> ListV("intlist", <<>>)
               [] OTHER -> [t |-> "@/rec", p |-> <<>>]

-----------------------------------------------------------------------------
(* Expressions: k is the form, ty the type, x a name or text, n a number, p   *)
(* the package a name belongs to, as the parts, bs bindings <<name, type,     *)
(* expression>>.                                                              *)
Ex(k, ty, x, n, p, as, bs) == [k |-> k, ty |-> ty, x |-> x, n |-> n, p |-> p, as |-> as, bs |-> bs]
IntE(n) == Ex("int", "int", "", n, 0, <<>>, <<>>)
StrE(s) == Ex("str", "string", s, 0, 0, <<>>, <<>>)
VarE(x, ty) == Ex("var", ty, x, 0, 0, <<>>, <<>>)
ConstE(i) == Ex("const", items[i].ty, items[i].n, 0, items[i].p, <<>>, <<>>)
OpE(op, as) == Ex("op", "int", op, 0, 0, as, <<>>)
CatE(as) == Ex("cat", "string", "", 0, 0, as, <<>>)
TextE(a) == Ex("text", "string", "", 0, 0, <<a>>, <<>>)
ListE(as) == Ex("list", "intlist", "", 0, 0, as, <<>>)
RecE(as) == Ex("rec", "rec", "", 0, 0, as, <<>>)
AtE(a, i) == Ex("at", "int", "", i, 0, <<a>>, <<>>)
LenE(a) == Ex("len", "int", "", 0, 0, <<a>>, <<>>)
GetE(a, i) == Ex("get", RecProps[i][2], RecProps[i][1], i, 0, <<a>>, <<>>)
IfE(ty, op, a, b, c, d) == Ex("if", ty, op, 0, 0, <<a, b, c, d>>, <<>>)
LetE(bs, b) == Ex("let", b.ty, "", 0, 0, <<b>>, bs)
MapE(a, x, b) == Ex("map", "intlist", x, 0, 0, <<a, b>>, <<>>)
MapFE(a, i) == Ex("mapf", "intlist", items[i].n, 0, items[i].p, <<a>>, <<>>)
CallE(p, n, ty, as) == Ex("call", ty, n, 0, p, as, <<>>)
\* Threading: as[1] goes into the calls that follow, into the first place (n = 1) or the last (n = 2).
ThreadE(n, as) == Ex("thread", as[Len(as)].ty, "", n, 0, as, <<>>)

-----------------------------------------------------------------------------
(* What a name stands for. *)
Lookup(env, x) == env[CHOOSE i \in 1..Len(env) : env[i][1] = x /\ \A j \in (i + 1)..Len(env) : env[j][1] # x]
Bound(env, x) == \E i \in 1..Len(env) : env[i][1] = x
ConstOf(p, x) == items[CHOOSE i \in 1..Len(items) : items[i].d = "const" /\ items[i].p = p /\ items[i].n = x]
\* Whether a function takes arguments of these types.
Takes(f, tys) ==
  IF f.va THEN /\ Len(tys) >= Len(f.ps)
               /\ \A i \in 1..Len(tys) : tys[i] = (IF i < Len(f.ps) THEN f.ps[i][2] ELSE "int")
  ELSE /\ Len(tys) = Len(f.ps)
       /\ \A i \in 1..Len(tys) : f.ps[i][2] \in {"any-1", tys[i]}
FuncsAt(p, x) == {i \in 1..Len(items) : items[i].d = "func" /\ items[i].p = p /\ items[i].n = x}
Chosen(p, x, tys) == {i \in FuncsAt(p, x) : Takes(items[i], tys)}
TypesOf(as) == [i \in 1..Len(as) |-> as[i].ty]

(* What an expression is worth. *)
RECURSIVE Eval(_, _), EvalAll(_, _), EvalBinds(_, _), Apply(_, _), EvalMap(_, _, _, _), EvalThread(_, _, _), ApplyEach(_, _), SumAll(_), Join(_)
EvalAll(env, as) == IF as = <<>> THEN <<>> ELSE <<Eval(env, Head(as))>> \o EvalAll(env, Tail(as))
\* Every binding sees the ones before it.
EvalBinds(env, bs) == IF bs = <<>> THEN env ELSE EvalBinds(Append(env, <<Head(bs)[1], Eval(env, Head(bs)[3])>>), Tail(bs))
EvalMap(env, x, q, b) == IF q = <<>> THEN <<>> ELSE <<Eval(Append(env, <<x, Head(q)>>), b)>> \o EvalMap(env, x, Tail(q), b)
ApplyEach(i, q) == IF q = <<>> THEN <<>> ELSE <<Apply(i, <<Head(q)>>)>> \o ApplyEach(i, Tail(q))
\* The arguments are worth what they are where the call is; the body sees nothing but the parameters.
Apply(i, vs) ==
  LET f == items[i]
      n == Len(f.ps)
      given == IF f.va THEN [j \in 1..n |-> IF j < n THEN vs[j] ELSE ListV("intlist", SubSeq(vs, n, Len(vs)))] ELSE vs
  IN Eval([j \in 1..n |-> <<f.ps[j][1], given[j]>>], f.b)
EvalThread(env, e, k) ==
  LET c == e.as[k]
      t == e.as[k - 1]
      v == IF k = 2 THEN Eval(env, e.as[1]) ELSE EvalThread(env, e, k - 1)
      vs == EvalAll(env, c.as)
      tys == TypesOf(c.as)
  IN IF e.n = 1 THEN Apply(Value(Chosen(c.p, c.x, <<t.ty>> \o tys)), <<v>> \o vs)
     ELSE Apply(Value(Chosen(c.p, c.x, tys \o <<t.ty>>)), vs \o <<v>>)
SumAll(q) == IF Len(q) = 1 THEN q[1].n ELSE Plus(SumAll(SubSeq(q, 1, Len(q) - 1)), q[Len(q)].n)
Join(q) == IF q = <<>> THEN "" ELSE Head(q).s \o Join(Tail(q))
Test(op, a, b) == CASE op = "=" -> a = b [] op = "<" -> a < b [] OTHER -> a > b
Eval(env, e) ==
  CASE e.k = "int"   -> I(e.n)
    [] e.k = "str"   -> S(e.x)
    [] e.k = "var"   -> Lookup(env, e.x)[2]
    [] e.k = "const" -> ConstOf(e.p, e.x).v
    [] e.k = "op"    -> LET q == EvalAll(env, e.as)
                        IN CASE e.x = "+" -> I(SumAll(q))
                             [] e.x = "-" -> I(Plus(q[1].n, -(q[2].n)))
                             [] OTHER -> I(Times(q[1].n, q[2].n))
    [] e.k = "cat"   -> S(Join(EvalAll(env, e.as)))
    [] e.k = "text"  -> S(ToString(Eval(env, e.as[1]).n))
    [] e.k = "list"  -> ListV("intlist", EvalAll(env, e.as))
    [] e.k = "rec"   -> LET q == EvalAll(env, e.as) IN [t |-> "@/rec", p |-> StructFrom(RecProps, [i \in 1..3 |-> <<RecProps[i][1], q[i]>>])]
    [] e.k = "at"    -> LET q == Eval(env, e.as[1]).e IN IF e.n \in 1..Len(q) THEN q[e.n] ELSE I(0)
    [] e.k = "len"   -> I(Len(Eval(env, e.as[1]).e))
    [] e.k = "get"   -> LET r == Eval(env, e.as[1]) IN IF HasKey(r.p, e.x) THEN GetKey(r.p, e.x) ELSE Empty(e.ty)
    [] e.k = "if"    -> IF Test(e.x, Eval(env, e.as[1]).n, Eval(env, e.as[2]).n) THEN Eval(env, e.as[3]) ELSE Eval(env, e.as[4])
    [] e.k = "let"   -> Eval(EvalBinds(env, e.bs), e.as[1])
    [] e.k = "map"   -> ListV("intlist", EvalMap(env, e.x, Eval(env, e.as[1]).e, e.as[2]))
    [] e.k = "mapf"  -> ListV("intlist", ApplyEach(Value(Chosen(e.p, e.x, <<"int">>)), Eval(env, e.as[1]).e))
    [] e.k = "call"  -> Apply(Value(Chosen(e.p, e.x, TypesOf(e.as))), EvalAll(env, e.as))
    [] e.k = "thread" -> EvalThread(env, e, Len(e.as))

-----------------------------------------------------------------------------
(* Names.  Functions, constants and variables share some of them. *)
FuncNames == {"go", "make-it", "f1", "step<-n", "calc"}
ConstNames == {"k1", "low-k", "calc2"}
VarNames == {"x", "y", "z", "a", "b2", "in-put", "val", "first-one"} \cup {"calc2", "calc", "k1"}
Texts == {"", "s", "two words", "q\"q", "(x)", "[y : int]", "a\nb", "// no", ":k", "l1/k1"}
Sees(p) == {q \in Packages : q <= p}

\* A name for a binding where the names in sc are bound already.
Names(sc) == {sc[i][1] : i \in 1..Len(sc)}
FreshNames(sc, ban) == IF Shadow THEN (IF sc # <<>> /\ One(1..2) = 1 THEN Names(sc) ELSE VarNames) ELSE VarNames \ (Names(sc) \cup ban)
Other(X) == IF X \ {"y"} = {} THEN "x" ELSE One(X \ {"y"})
Visible(sc, ty, ban) == {x \in Names(sc) \ ban : Lookup(sc, x)[2] = ty}

\* Draws: Gen(ty, sc, p, d, ban) is an expression of type ty for package p where the variables sc are
\* bound, at most d forms deep, without using the names in ban.
RECURSIVE Gen(_, _, _, _, _), GenAll(_, _, _, _, _), GenBinds(_, _, _, _, _, _)
GenAll(tys, sc, p, d, ban) == IF tys = <<>> THEN <<>> ELSE <<Gen(Head(tys), sc, p, d, ban)>> \o GenAll(Tail(tys), sc, p, d, ban)
\* The bindings xs; a binding may use the ones before it, none may use an outer variable that one of them hides.
GenBinds(xs, tys, sc, p, d, ban) ==
  IF xs = <<>> THEN <<>>
  ELSE Value({<< <<Head(xs), Head(tys), e>> >> \o GenBinds(Tail(xs), Tail(tys), Append(sc, <<Head(xs), Head(tys)>>), p, d, ban \ {Head(xs)})
              : e \in {Gen(Head(tys), sc, p, d, ban)}})
Consts(ty, p) == {i \in 1..Len(items) : items[i].d = "const" /\ items[i].ty = ty /\ items[i].p \in Sees(p)}
Funcs(ty, p) == {i \in 1..Len(items) : items[i].d = "func" /\ items[i].p \in Sees(p) /\ items[i].ret \in {ty, "any-1"}}
Steps(p) == {i \in Funcs("int", p) : Len(items[i].ps) = 1 /\ items[i].ps[1][2] = "int" /\ ~items[i].va /\ ~items[i].gen /\ ~items[i].self
                                     /\ items[i].n = "step<-n"}
\* A constant can be named unless a variable of that name hides it.
Sayable(i, sc, p, ban) == items[i].p # p \/ items[i].n \notin Names(sc) \cup ban
ArgTypes(f, ty) == IF f.va THEN [j \in 1..(Len(f.ps) + 1) |-> IF j < Len(f.ps) THEN f.ps[j][2] ELSE "int"]
                   ELSE [j \in 1..Len(f.ps) |-> IF f.ps[j][2] = "any-1" THEN ty ELSE f.ps[j][2]]
\* A constant is not given directly to a generic parameter: recorded finding F06.
RECURSIVE NoConst(_)
NoConst(as) == IF as = <<>> THEN <<>>
               ELSE <<IF Head(as).k # "const" THEN Head(as)
                      ELSE CASE Head(as).ty = "int" -> IntE(11) [] Head(as).ty = "string" -> StrE("const")
                             [] Head(as).ty = "intlist" -> ListE(<<IntE(3), Head(ConstOf(Head(as).p, Head(as).x).b.as)>>)
                             [] OTHER -> RecE(<<IntE(5), StrE("c"), ListE(<<>>)>>)>> \o NoConst(Tail(as))
GenCall(i, ty, sc, p, d, ban) ==
  LET f == items[i]
      tys == ArgTypes(f, ty)
  IN CallE(f.p, f.n, ty, IF f.self THEN <<IntE(One(0..4))>> \o GenAll(Tail(tys), sc, p, d, ban) ELSE IF f.gen THEN NoConst(GenAll(tys, sc, p, d, ban)) ELSE GenAll(tys, sc, p, d, ban))
Leaf(ty, sc, p, ban) ==
  LET V == Visible(sc, ty, ban)
      C == {i \in Consts(ty, p) : Sayable(i, sc, p, ban)}
      r == One(1..6)
  IN Value({IF c <= 3 /\ V # {} THEN VarE(One(V), ty)
            ELSE IF c <= 4 /\ C # {} THEN ConstE(One(C))
            ELSE CASE ty = "int" -> IntE(One(-3..12))
                   [] ty = "string" -> StrE(One(Texts))
                   [] ty = "intlist" -> IF V # {} THEN VarE(One(V), ty) ELSE ListE(<<IntE(One(0..5)), IntE(One(-2..9))>>)
                   [] OTHER -> IF V # {} THEN VarE(One(V), ty) ELSE RecE(<<IntE(One(0..9)), StrE(One(Texts)), ListE(<<IntE(One(1..4))>>)>>)
            : c \in {r}})
\* Functions into which a value of type ty can be threaded: the first or the last parameter takes it.
Thread1(ty, p) == {i \in 1..Len(items) : items[i].d = "func" /\ items[i].p \in Sees(p) /\ ~items[i].self /\ ~items[i].gen /\ Len(items[i].ps) > 0
                                         /\ items[i].ps[1][2] = ty /\ (items[i].va => Len(items[i].ps) > 1)}
Thread2(ty, p) == {i \in 1..Len(items) : items[i].d = "func" /\ items[i].p \in Sees(p) /\ ~items[i].gen /\ Len(items[i].ps) > 0
                                         /\ (IF items[i].va THEN ty = "int" ELSE items[i].ps[Len(items[i].ps)][2] = ty)
                                         /\ (items[i].self => Len(items[i].ps) > 1)}
RECURSIVE GenChain(_, _, _, _, _, _, _)
GenChain(n, ty, len, sc, p, d, ban) ==
  IF len = 0 THEN <<>>
  ELSE LET F == IF n = 1 THEN Thread1(ty, p) ELSE Thread2(ty, p)
       IN IF F = {} THEN <<>>
          ELSE Value({<<g>> \o GenChain(n, g.ty, len - 1, sc, p, d, ban) :
                       g \in {LET f == items[i]
                                  tys == ArgTypes(f, ty)
                                  rest == IF n = 1 THEN Tail(tys) ELSE SubSeq(tys, 1, Len(tys) - 1)
                              IN CallE(f.p, f.n, f.ret, IF f.self THEN <<IntE(One(0..4))>> \o GenAll(Tail(rest), sc, p, d, ban)
                                                        ELSE GenAll(rest, sc, p, d, ban)) : i \in {One(F)}}})
Gen(ty, sc, p, d, ban) ==
  IF d = 0 THEN Leaf(ty, sc, p, ban)
  ELSE Value({
    IF c <= 3 THEN Leaf(ty, sc, p, ban)
    ELSE IF c <= 6 /\ Funcs(ty, p) # {} THEN Value({GenCall(i, ty, sc, p, d - 1, ban) : i \in {One(Funcs(ty, p))}})
    ELSE IF c = 7 THEN
      Value({LetE(GenBinds(<<x>>, <<t>>, sc, p, d - 1, ban \cup {x}), Gen(ty, Append(sc, <<x, t>>), p, d - 1, ban \ {x}))
             : x \in {One(FreshNames(sc, ban))}, t \in {One(Types)}})
    ELSE IF c = 8 THEN
      Value({LetE(GenBinds(<<x, y>>, <<t, u>>, sc, p, d - 1, ban \cup {x, y}),
                  Gen(ty, sc \o << <<x, t>>, <<y, u>> >>, p, d - 1, ban \ {x, y}))
             : x \in {Other(FreshNames(sc, ban))}, y \in {IF Shadow \/ "y" \notin Names(sc) \cup ban THEN "y" ELSE "w" \o ToString(Len(sc)) \o ToString(d)},
               t \in {One(Types)}, u \in {One(Types)}})
    ELSE IF c = 9 THEN IfE(ty, One({"=", "<", ">"}), Gen("int", sc, p, d - 1, ban), Gen("int", sc, p, d - 1, ban), Gen(ty, sc, p, d - 1, ban), Gen(ty, sc, p, d - 1, ban))
    ELSE IF c = 10 THEN GetE(Gen("rec", sc, p, d - 1, ban), CASE ty = "int" -> 1 [] ty = "string" -> 2 [] OTHER -> 3)
    ELSE CASE ty = "int" ->
                 (IF c = 11 THEN OpE("+", GenAll(<<"int", "int">>, sc, p, d - 1, ban))
                  ELSE IF c = 12 THEN OpE("+", GenAll(<<"int", "int", "int">>, sc, p, d - 1, ban))
                  ELSE IF c = 13 THEN OpE("-", GenAll(<<"int", "int">>, sc, p, d - 1, ban))
                  ELSE IF c = 14 THEN LenE(Gen("intlist", sc, p, d - 1, ban))
                  ELSE AtE(Gen("intlist", sc, p, d - 1, ban), One(1..3)))
           [] ty = "string" ->
                 (IF c <= 13 THEN CatE(GenAll(<<"string", "string">>, sc, p, d - 1, ban)) ELSE TextE(Gen("int", sc, p, d - 1, ban)))
           [] ty = "intlist" ->
                 (IF c <= 12 THEN ListE(GenAll(<<"int", "int">>, sc, p, d - 1, ban))
                  ELSE IF c = 13 /\ Steps(p) # {} THEN MapFE(Gen("intlist", sc, p, d - 1, ban), One(Steps(p)))
                  ELSE Value({MapE(Gen("intlist", sc, p, d - 1, ban), x, Gen("int", Append(sc, <<x, "int">>), p, d - 1, ban \ {x}))
                              : x \in {One(FreshNames(sc, ban))}}))
           [] OTHER -> RecE(GenAll(<<"int", "string", "intlist">>, sc, p, d - 1, ban))
    : c \in {IF ty = "rec" THEN One({1, 4, 5, 7, 9, 11, 12}) ELSE One(1..15)}})

-----------------------------------------------------------------------------
(* Declarations. *)
Declaring == phase = "declare" /\ Len(items) < NDecl /\ Random
Item(d, p, n, ty, ps, va, gen, self, b, v) ==
  [d |-> d, p |-> p, n |-> n, ty |-> ty, ret |-> ty, ps |-> ps, va |-> va, gen |-> gen, self |-> self, b |-> b, v |-> v]
Declare(it) == items' = Append(items, it) /\ UNCHANGED <<mains, phase>>
UsedIn(p) == {items[i].n : i \in {j \in 1..Len(items) : items[j].p = p}}
LitFor(ty) == CASE ty = "int" -> IntE(One(-9..20)) [] ty = "string" -> StrE(One(Texts))
                [] ty = "intlist" -> ListE(<<IntE(One(1..9)), IntE(One(-9..9)), IntE(One(0..3))>>)
                [] OTHER -> RecE(<<IntE(One(1..9)), StrE(One(Texts)), ListE(<<IntE(One(1..9))>>)>>)
DeclConst == Declaring /\ \E p \in Pick(Packages) : \E n \in Pick(ConstNames \ UsedIn(p)) : \E ty \in Pick(Types) : \E e \in {LitFor(ty)} :
  Declare(Item("const", p, n, ty, <<>>, FALSE, FALSE, FALSE, e, Eval(<<>>, e)))
RECURSIVE Params(_, _)
Params(k, used) == IF k = 0 THEN <<>> ELSE Value({<< <<x, One(Types)>> >> \o Params(k - 1, used \cup {x}) : x \in {One(VarNames \ used)}})
\* A function may share its name with functions of the same package that take other types, unless it is
\* one that is passed by name.
MayAdd(p, n, ps) == /\ n = "step<-n" => FuncsAt(p, n) = {}
                    /\ n \notin {items[i].n : i \in {j \in 1..Len(items) : items[j].p = p /\ items[j].d # "func"}}
                    /\ \A i \in FuncsAt(p, n) : ~items[i].va /\ ~items[i].gen /\ ~items[i].self /\ [j \in 1..Len(items[i].ps) |-> items[i].ps[j][2]] # [j \in 1..Len(ps) |-> ps[j][2]]
DeclFunc == Declaring /\ \E p \in Pick(Packages) : \E n \in Pick(FuncNames) : \E k \in Pick(0..4) : \E ps \in {Params(k, {})} : \E ty \in Pick(Types) :
  /\ MayAdd(p, n, ps)
  /\ \E b \in {Gen(ty, ps, p, 3, {})} : Declare(Item("func", p, n, ty, ps, FALSE, FALSE, FALSE, b, I(0)))
DeclStep == Declaring /\ \E p \in Pick(Packages) : \E ps \in {<< <<One(VarNames), "int">> >>} :
  /\ MayAdd(p, "step<-n", ps)
  /\ \E b \in {Gen("int", ps, p, 3, {})} : Declare(Item("func", p, "step<-n", "int", ps, FALSE, FALSE, FALSE, b, I(0)))
\* Another function of a name that is taken.
DeclOverload == Declaring /\ \E i \in Pick({j \in 1..Len(items) : items[j].d = "func"}) : \E k \in Pick(1..3) : \E ps \in {Params(k, {})} : \E ty \in Pick(Types) :
  /\ MayAdd(items[i].p, items[i].n, ps)
  /\ \E b \in {Gen(ty, ps, items[i].p, 2, {})} : Declare(Item("func", items[i].p, items[i].n, ty, ps, FALSE, FALSE, FALSE, b, I(0)))
DeclVariadic == Declaring /\ \E p \in Pick(Packages) : \E n \in Pick(FuncNames \ UsedIn(p)) : \E k \in Pick(0..2) : \E q \in {Params(k, {"val"})} : \E ty \in Pick({"int", "string"}) :
  LET ps == Append(q, <<"val", "intlist">>)
  IN \E b \in {Gen(ty, ps, p, 2, {})} :
     Declare(Item("func", p, n, ty, ps, TRUE, FALSE, FALSE,
                  IF ty = "int" THEN OpE("+", <<b, AtE(VarE("val", "intlist"), 1), AtE(VarE("val", "intlist"), 2), LenE(VarE("val", "intlist"))>>)
                  ELSE CatE(<<b, TextE(LenE(VarE("val", "intlist")))>>), I(0)))
DeclGeneric == Declaring /\ \E p \in Pick(Packages) : \E n \in Pick(FuncNames \ UsedIn(p)) :
  Declare(Item("func", p, n, "any-1", << <<"a", "int">>, <<"x", "any-1">>, <<"y", "any-1">> >>, FALSE, TRUE, FALSE,
               IfE("any-1", "<", VarE("a", "int"), IntE(One(0..6)), VarE("x", "any-1"), VarE("y", "any-1")), I(0)))
DeclRecursive == Declaring /\ \E p \in Pick(Packages) : \E n \in Pick(FuncNames \ UsedIn(p)) : \E k \in Pick(0..2) : \E q \in {Params(k, {"a"})} : \E ty \in Pick({"int", "string"}) :
  LET ps == << <<"a", "int">> >> \o q
      again == CallE(p, n, ty, <<OpE("-", <<VarE("a", "int"), IntE(1)>>)>> \o [j \in 1..k |-> VarE(q[j][1], q[j][2])])
  IN \E b \in {Gen(ty, ps, p, 1, {})} : \E s \in {Gen(ty, ps, p, 1, {})} :
     Declare(Item("func", p, n, ty, ps, FALSE, FALSE, TRUE,
                  IfE(ty, "<", VarE("a", "int"), IntE(1), b, IF ty = "int" THEN OpE("+", <<s, again>>) ELSE CatE(<<again, s>>)), I(0)))
Settled == phase = "declare" /\ Random /\ Len(items) = NDecl /\ phase' = "main" /\ UNCHANGED <<items, mains>>

-----------------------------------------------------------------------------
(* Main expressions, all of package 3. *)
Saying == phase = "main" /\ Len(mains) < NMain /\ Random
RECURSIVE BigV(_)
BigV(v) == CASE v.t = "int" -> AbsI(v.n) > 1000000
             [] v.t = "string" -> Len(v.s) > 200
             [] v.t = "intlist" -> Len(v.e) > 20 \/ \E i \in 1..Len(v.e) : BigV(v.e[i])
             [] OTHER -> \E i \in 1..Len(v.p) : BigV(v.p[i][2])
Say(e) == \E v \in {Eval(<<>>, e)} : ~BigV(v) /\ mains' = Append(mains, [e |-> e, v |-> v]) /\ UNCHANGED <<items, phase>>
FuncIdx == {i \in 1..Len(items) : items[i].d = "func"}
SayCall == Saying /\ \E i \in Pick(FuncIdx) : \E ty \in Pick(Types) : \E e \in {GenCall(i, IF items[i].gen THEN ty ELSE items[i].ret, <<>>, 3, 2, {})} : Say(e)
SayAny == Saying /\ \E ty \in Pick(Types) : \E e \in {Gen(ty, <<>>, 3, 3, {})} : Say(e)
SayLet == Saying /\ \E x \in Pick(VarNames) : \E t \in Pick(Types) : \E ty \in Pick(Types) :
  \E bs \in {GenBinds(<<x>>, <<t>>, <<>>, 3, 2, {x})} : \E b \in {Gen(ty, << <<x, t>> >>, 3, 3, {})} : Say(LetE(bs, b))
SayThread == Saying /\ \E n \in Pick(1..2) : \E ty \in Pick(Types) : \E k \in Pick(1..3) : \E s \in {Gen(ty, <<>>, 3, 1, {})} :
  \E c \in {GenChain(n, ty, k, <<>>, 3, 1, {})} : c # <<>> /\ Say(ThreadE(n, <<s>> \o c))
SayMap == Saying /\ \E x \in Pick(VarNames) : \E l \in {Gen("intlist", <<>>, 3, 1, {})} : \E b \in {Gen("int", << <<x, "int">> >>, 3, 3, {})} : Say(MapE(l, x, b))

-----------------------------------------------------------------------------
(* Enumerated: positions, threading, scopes. *)
Each == phase = "declare" /\ ~Random
Done1(its, e) == items' = its /\ mains' = <<[e |-> e, v |-> I(0)]>> /\ phase' = "eval"
P2(k) == [j \in 1..k |-> <<(<<"x", "y", "z", "a">>)[j], "int">>]
Weigh(k) == OpE("+", [j \in 1..k |-> OpE("*", <<VarE(P2(k)[j][1], "int"), IntE((<<1, 10, 100, 1000>>)[j])>>)] \o <<IntE(0)>>)
Weighing(k) == Item("func", 1 + (k % 2), "f" \o ToString(k), "int", P2(k), FALSE, FALSE, FALSE, Weigh(k), I(0))
Tens(k) == ListE([i \in 1..k |-> IntE(100 + i)])
EachAt == Each /\ \E k \in {0, 1, 2, 9, 10, 11, 13, 100} : \E i \in ({1, 2, 3, 9, 10, 11, 12, 13, 99, 100, 101}) :
  Done1(<<>>, AtE(Tens(k), i))
EachThread == Each /\ \E n \in 1..2 : \E k1 \in 1..4 : \E k2 \in 0..4 :
  LET c1 == CallE(1 + (k1 % 2), "f" \o ToString(k1), "int", [j \in 1..(k1 - 1) |-> IntE(j + 1)])
      c2 == CallE(1 + (k2 % 2), "f" \o ToString(k2), "int", [j \in 1..(k2 - 1) |-> IntE(j + 5)])
  IN Done1(<<Weighing(1), Weighing(2), Weighing(3), Weighing(4)>>, ThreadE(n, <<IntE(1), c1>> \o (IF k2 = 0 THEN <<>> ELSE <<c2>>)))
\* Up to three binders inside a function of x, y and z; what they bind is read inside and the parameters outside them.
Three == {"x", "y", "z"}
Seen == OpE("+", <<VarE("x", "int"), OpE("*", <<VarE("y", "int"), IntE(10)>>), OpE("*", <<VarE("z", "int"), IntE(100)>>)>>)
Binder(k, x, v, b) == CASE k = "let" -> LetE(<< <<x, "int", IntE(v)>> >>, b)
                        [] k = "fn"  -> AtE(MapE(ListE(<<IntE(v)>>), x, b), 1)
                        [] OTHER -> LetE(<< <<x, "int", IntE(v)>>, <<"w", "int", OpE("+", <<VarE(x, "int"), IntE(0)>>)>> >>, OpE("+", <<b, VarE("w", "int"), OpE("*", <<VarE(x, "int"), IntE(-1)>>)>>))
Around(b) == OpE("+", <<OpE("*", <<b, IntE(2)>>), VarE("x", "int"), VarE("y", "int"), VarE("z", "int")>>)
RECURSIVE Nest(_, _, _)
Nest(ks, xs, v) == IF ks = <<>> THEN Seen ELSE Around(Binder(Head(ks), Head(xs), v, Nest(Tail(ks), Tail(xs), v + 1)))
Scoped(ks, xs) ==
  Done1(<<Item("func", 3, "go", "int", << <<"x", "int">>, <<"y", "int">>, <<"z", "int">> >>, FALSE, FALSE, FALSE, Nest(ks, xs, 4), I(0))>>,
        CallE(3, "go", "int", <<IntE(1), IntE(2), IntE(3)>>))
EachScope == Each /\ Shadow /\ \E n \in 1..3 : \E ks \in [1..n -> {"let", "fn", "let2"}] : \E xs \in [1..n -> Three] :
  /\ Cardinality({i \in 1..n : ks[i] = "let2"}) <= 1
  /\ Scoped(ks, xs)
EachFresh == Each /\ ~Shadow /\ \E n \in 1..3 : \E ks \in [1..n -> {"let", "fn", "let2"}] :
  /\ Cardinality({i \in 1..n : ks[i] = "let2"}) <= 1
  /\ Scoped(ks, [i \in 1..n |-> (<<"a", "b2", "in-put">>)[i]])
\* A name bound again with another type.
Told(x, ty) == CASE ty = "int" -> TextE(OpE("+", <<VarE(x, ty), IntE(1)>>))
                 [] ty = "string" -> CatE(<<VarE(x, ty), StrE("!")>>)
                 [] ty = "intlist" -> TextE(AtE(VarE(x, ty), 2))
                 [] OTHER -> GetE(VarE(x, ty), 2)
Sample(ty, v) == CASE ty = "int" -> IntE(v) [] ty = "string" -> StrE("s" \o ToString(v)) [] ty = "intlist" -> ListE(<<IntE(v), IntE(v + 50)>>)
                   [] OTHER -> RecE(<<IntE(v), StrE("r" \o ToString(v)), ListE(<<>>)>>)
EachRetype == Each /\ Shadow /\ \E t \in Types : \E u \in Types \ {t} : \E k \in {"let", "fn", "deep"} : \E x \in {"x", "in-put"} :
  /\ k = "fn" => u = "int"
  /\ LET again == LetE(<< <<x, u, Sample(u, 7)>> >>, Told(x, u))
         inner == CASE k = "let" -> again
                    [] k = "fn" -> TextE(AtE(MapE(ListE(<<IntE(7), IntE(8)>>), x, OpE("+", <<VarE(x, "int"), IntE(3)>>)), 2))
                    [] OTHER -> LetE(<< <<"y", t, VarE(x, t)>> >>, CatE(<<again, Told("y", t)>>))
     IN Done1(<<Item("func", 3, "go", "string", << <<x, t>> >>, FALSE, FALSE, FALSE, CatE(<<Told(x, t), inner, Told(x, t)>>), I(0))>>,
              CallE(3, "go", "string", <<Sample(t, 1)>>))
Evaluate == phase = "eval" /\ mains' = <<[e |-> mains[1].e, v |-> Eval(<<>>, mains[1].e)]>> /\ phase' = "done" /\ UNCHANGED items

Init == items = <<>> /\ mains = <<>> /\ phase = "declare"
Finish == phase = "main" /\ Len(mains) = NMain /\ phase' = "done" /\ UNCHANGED <<items, mains>>
Next ==
  \/ DeclConst \/ DeclFunc \/ DeclStep \/ DeclOverload \/ DeclVariadic \/ DeclGeneric \/ DeclRecursive \/ Settled
  \/ SayCall \/ SayAny \/ SayLet \/ SayThread \/ SayMap \/ Finish
  \/ EachAt \/ EachThread \/ EachScope \/ EachRetype \/ EachFresh \/ Evaluate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every call means exactly one function. *)
RECURSIVE OneEach(_)
OneEach(e) ==
  /\ e.k = "call" => Cardinality(Chosen(e.p, e.x, TypesOf(e.as))) = 1
  /\ e.k # "thread" => \A i \in 1..Len(e.as) : OneEach(e.as[i])
  /\ \A i \in 1..Len(e.bs) : OneEach(e.bs[i][3])
ResolveInv == Len(mains) > 0 => OneEach(mains[Len(mains)].e)
\* A value has the type of its expression.
TypeInv == (Len(mains) > 0 /\ phase # "eval") => LET m == mains[Len(mains)] IN m.v.t = (IF m.e.ty = "rec" THEN "@/rec" ELSE m.e.ty)
RECURSIVE Out(_), OutAll(_), OutBs(_)
OutAll(q) == IF q = <<>> THEN <<>> ELSE <<Out(Head(q))>> \o OutAll(Tail(q))
OutBs(q) == IF q = <<>> THEN <<>> ELSE << <<Head(q)[1], Head(q)[2], Out(Head(q)[3])>> >> \o OutBs(Tail(q))
Out(e) == [k |-> e.k, ty |-> e.ty, x |-> e.x, n |-> e.n, p |-> e.p, as |-> OutAll(e.as), bs |-> OutBs(e.bs)]
OutItem(i) == [d |-> i.d, p |-> i.p, n |-> i.n, ty |-> i.ty, ps |-> i.ps, va |-> i.va, gen |-> i.gen, b |-> Out(i.b)]
\* How a main expression is shown: a struct by its properties, because a struct or list that a constant
\* holds prints as the name of the constant.
Shown(v) == IF v.t # "@/rec" THEN Show(v)
            ELSE LET f(i) == IF HasKey(v.p, RecProps[i][1]) THEN GetKey(v.p, RecProps[i][1]) ELSE Empty(RecProps[i][2])
                 IN ToString(f(1).n) \o "|" \o f(2).s \o "|" \o Show(f(3))
Emit == (phase = "done" /\ OutFile # "") =>
          CSVWrite("%1$s", <<ToJson([i |-> [j \in 1..Len(items) |-> OutItem(items[j])],
                                     m |-> [j \in 1..Len(mains) |-> [e |-> Out(mains[j].e), v |-> Shown(mains[j].v)]]])>>, OutFile)
=============================================================================
