------------------------------- MODULE VxTypes -------------------------------
(* Programs that declare their own types.                                     *)
(*                                                                            *)
(* A behaviour first declares types -- structs with one to five properties of *)
(* any kind, structs that take over the properties of others, lists and maps  *)
(* that allow one type -- and then builds values of them, copies them with    *)
(* changes, reads them back, tests and compares them.  Every step carries the *)
(* value it must have.                                                        *)
(*                                                                            *)
(*   Random = TRUE:  simulation over all declarations.                        *)
(*   Random = FALSE: every struct of up to three properties of three kinds,   *)
(*     made with every subset of its properties and copied with every single  *)
(*     change; one struct each of four and five properties likewise.          *)
EXTENDS VxData, Randomization, CSV, Json

CONSTANTS NTypes, Depth, Random, OutFile

VARIABLES decls, binds, phase
vars == <<decls, binds, phase>>

I(n) == IntV(n)
S(s) == StrV(s)
Names == <<"name", "age", "two-words", "isok", "size2", "text", "items", "link", "note", "rank", "left", "right",
           "score", "a", "b", "zz", "first-name", "x1", "body", "mark">>
Nm(j) == Names[1 + (j % 20)]
TypeName(d) == "@/t" \o ToString(d)
Pick(X) == IF X = {} THEN {} ELSE RandomSubset(1, X)
One(X) == RandomElement(X)

-----------------------------------------------------------------------------
(* Declarations. *)
Declared == {decls[d].n : d \in 1..Len(decls)}
DeclOf(ty) == decls[CHOOSE d \in 1..Len(decls) : decls[d].n = ty]
Kind(ty) == IF ty \in Declared THEN DeclOf(ty).k
            ELSE IF ty \in {"intlist", "stringlist", "booleanlist", "anylist"} THEN "list"
            ELSE IF ty \in {"intmap", "stringmap"} THEN "map" ELSE "base"
Of(k) == {ty \in Declared : DeclOf(ty).k = k}
Elem(ty) == IF ty \in Declared THEN DeclOf(ty).al ELSE ElemType(ty)
RECURSIVE ParProps(_)
ParProps(q) == IF q = <<>> THEN <<>> ELSE DeclOf(Head(q)).ps \o ParProps(Tail(q))
AllProps(ty) == ParProps(DeclOf(ty).par) \o DeclOf(ty).ps
PropT(ty, p) == LET s == AllProps(ty) IN s[CHOOSE i \in 1..Len(s) : s[i][1] = p][2]
Parents(ty) == IF ty \in Declared THEN {DeclOf(ty).par[i] : i \in 1..Len(DeclOf(ty).par)} ELSE {}
\* A type stands for itself, for what it takes over, and "any" for everything.
Fits(a, ty) == ty = "any" \/ a = ty \/ ty \in Parents(a) \/ (ty = "number" /\ a \in {"int", "dec"})

BaseProp == {"int", "string", "boolean", "number", "intlist", "stringlist", "intmap", "stringmap", "any"}
BaseElem == {"int", "string", "boolean", "any", "intlist"}
PropKinds == BaseProp \cup Declared
DrawKind == IF Declared # {} /\ One(1..3) = 1 THEN One(Declared) ELSE One(BaseProp)
\* What is drawn is bound with \E over a singleton, so that it is drawn once.
RECURSIVE DrawProps(_, _)
DrawProps(n, off) == IF n = 0 THEN <<>> ELSE DrawProps(n - 1, off) \o << <<Nm(off + n), DrawKind>> >>
NamesOf(q) == {q[i][1] : i \in 1..Len(q)}
Decl(k, ps, al, par) == decls' = Append(decls, [n |-> TypeName(Len(decls) + 1), k |-> k, ps |-> ps, al |-> al, par |-> par])
                        /\ UNCHANGED <<binds, phase>>
Declaring == phase = "declare" /\ Len(decls) < NTypes
DeclStruct == Declaring /\ Random /\ \E n \in Pick(1..5) : \E off \in Pick(1..Len(Names)) : Decl("struct", DrawProps(n, off), "", <<>>)
Plain == {ty \in Of("struct") : DeclOf(ty).par = <<>>}
DeclChild == Declaring /\ Random /\ \E n \in Pick(1..3) : \E off \in Pick(1..Len(Names)) : \E a \in Pick(Plain) : \E b \in Pick(Plain) :
  \E ps \in {DrawProps(n, off)} : \E two \in Pick(BOOLEAN) :
  LET par == IF two /\ a # b /\ NamesOf(DeclOf(a).ps) \cap NamesOf(DeclOf(b).ps) = {} THEN <<a, b>> ELSE <<a>>
  IN /\ NamesOf(ParProps(par)) \cap NamesOf(ps) = {}
     /\ Decl("struct", ps, "", par)
DeclList == Declaring /\ Random /\ \E al \in Pick(IF Declared # {} /\ One(1..3) > 1 THEN Declared ELSE BaseElem) : Decl("list", <<>>, al, <<>>)
DeclMap == Declaring /\ Random /\ \E al \in Pick(IF Declared # {} /\ One(1..3) > 1 THEN Declared ELSE BaseElem \ {"any"}) : Decl("map", <<>>, al, <<>>)
\* Enumerated shapes.
Three == {"int", "string", "intlist"}
Wide == <<"int", "string", "boolean", "intlist", "stringmap">>
DeclEach == Declaring /\ ~Random /\
  \/ \E n \in 1..3 : \E k \in [1..n -> Three] : Decl("struct", [i \in 1..n |-> <<Names[i], k[i]>>], "", <<>>)
  \/ \E n \in 4..5 : Decl("struct", [i \in 1..n |-> <<Names[i], Wide[i]>>], "", <<>>)
Declare == phase = "declare" /\ Len(decls) = NTypes /\ (Random => Of("struct") # {}) /\ phase' = "build" /\ UNCHANGED <<decls, binds>>

-----------------------------------------------------------------------------
(* Values. *)
EmptyT(ty) ==
  CASE ty \in {"int", "number"} -> I(0)
    [] ty = "string"  -> S("")
    [] ty = "boolean" -> BoolV(FALSE)
    [] Kind(ty) = "list" -> [t |-> ty, e |-> <<>>]
    [] Kind(ty) = "map"  -> [t |-> ty, m |-> <<>>]
    [] OTHER -> [t |-> ty, p |-> <<>>]
MkStruct(ty, f) == [t |-> ty, p |-> StructFrom(AllProps(ty), f)]
PropOf(v, p) == IF HasKey(v.p, p) THEN GetKey(v.p, p) ELSE EmptyT(PropT(v.t, p))
WithProps(v, kvs) == MkStruct(v.t, LET RECURSIVE put(_, _)
                                      put(m, q) == IF q = <<>> THEN m ELSE put(PutKey(m, Head(q)[1], Head(q)[2]), Tail(q))
                                  IN put(v.p, kvs))
\* What a list keeps of what it is given: allowed values, and the items of lists of its own type.
RECURSIVE Taken(_, _)
Taken(ty, q) == IF q = <<>> THEN <<>>
                ELSE (IF Fits(Head(q).t, Elem(ty)) THEN <<Head(q)>> ELSE IF Head(q).t = ty THEN Head(q).e ELSE <<>>) \o Taken(ty, Tail(q))
RECURSIVE TakenM(_, _, _)
TakenM(ty, m, q) == IF q = <<>> THEN m
                    ELSE TakenM(ty, IF Fits(Head(q)[2].t, Elem(ty)) THEN PutKey(m, Head(q)[1], Head(q)[2]) ELSE m, Tail(q))
\* Whether some struct in the value has a property that it takes over from another type.
RECURSIVE Inherits(_)
Inherits(v) ==
  CASE IsList(v) -> \E i \in 1..Len(v.e) : Inherits(v.e[i])
    [] IsMap(v)  -> \E i \in 1..Len(v.m) : Inherits(v.m[i][2])
    [] IsStruct(v) -> \/ \E i \in 1..Len(v.p) : Inherits(v.p[i][2])
                      \/ v.t \in Declared /\ \E i \in 1..Len(v.p) : v.p[i][1] \in NamesOf(ParProps(DeclOf(v.t).par))
    [] OTHER -> FALSE
RECURSIVE DeepT(_)
MaxOf(X) == IF X = {} THEN 0 ELSE CHOOSE d \in X : \A x \in X : d >= x
DeepT(v) ==
  CASE IsList(v) -> 1 + MaxOf({DeepT(v.e[i]) : i \in 1..Len(v.e)})
    [] IsMap(v) -> 1 + MaxOf({DeepT(v.m[i][2]) : i \in 1..Len(v.m)})
    [] IsStruct(v) -> 1 + MaxOf({DeepT(v.p[i][2]) : i \in 1..Len(v.p)})
    [] OTHER -> 0
SmallT(v) == DeepT(v) <= 5 /\ (IsList(v) => Len(v.e) <= 8) /\ (IsMap(v) => Len(v.m) <= 6)

-----------------------------------------------------------------------------
(* Arguments. *)
Arg(k, x, i, c, v) == [k |-> k, x |-> x, i |-> i, c |-> c, v |-> v]
Nothing == [t |-> "nothing"]
RECURSIVE SrcT(_), SrcQ(_), SrcP(_)
SrcT(v) ==
  CASE IsList(v)   -> "(" \o v.t \o SrcQ(v.e) \o ")"
    [] IsMap(v)    -> "(" \o v.t \o SrcP(v.m) \o ")"
    [] IsStruct(v) -> "(" \o v.t \o SrcP(v.p) \o ")"
    [] OTHER -> Show(v)
SrcQ(q) == IF q = <<>> THEN "" ELSE " " \o SrcT(Head(q)) \o SrcQ(Tail(q))
SrcP(q) == IF q = <<>> THEN "" ELSE " :" \o Head(q)[1] \o " " \o SrcT(Head(q)[2]) \o SrcP(Tail(q))
Lit(v) == Arg("l", SrcT(v), 0, <<>>, v)
Ref(i) == Arg("r", "", i, <<>>, binds[i].v)
Tok(x) == Arg("l", x, 0, <<>>, Nothing)
Form(x, c) == Arg("n", x, 0, c, Nothing)
Lam0(x) == Arg("f", x, 0, <<>>, Nothing)

LitsT(ty) ==
  CASE ty = "int" -> {I(n) : n \in {-3, 0, 1, 7, 12}}
    [] ty = "number" -> {I(0), I(4), DecV(10), DecV(-2)}
    [] ty = "string" -> {S(s) : s \in {"", "a", "two words", "x\"y", "p\nq", ":k"}}
    [] ty = "boolean" -> {BoolV(TRUE), BoolV(FALSE)}
    [] ty = "any" -> {I(5), S("s"), BoolV(TRUE), ListV("intlist", <<I(3), I(0)>>), MapV("intmap", << <<"k", I(1)>> >>)}
    [] ty = "intlist" -> {ListV(ty, <<>>), ListV(ty, <<I(0), I(3)>>), ListV(ty, <<I(2), I(1), I(2)>>)}
    [] ty = "stringlist" -> {ListV(ty, <<>>), ListV(ty, <<S("")>>), ListV(ty, <<S("b"), S("a")>>)}
    [] ty = "intmap" -> {MapV(ty, <<>>), MapV(ty, << <<"z", I(0)>>, <<"a", I(2)>> >>)}
    [] ty = "stringmap" -> {MapV(ty, <<>>), MapV(ty, << <<"b", S("x y")>>, <<"a", S("")>> >>)}
    [] OTHER -> {EmptyT(ty)}
\* What is not empty, for the properties of enumerated shapes; j tells values apart.
Full(ty, j) ==
  CASE ty = "int" -> I(10 + j)
    [] ty = "string" -> S("s" \o ToString(j))
    [] ty = "boolean" -> BoolV(TRUE)
    [] ty = "intlist" -> ListV(ty, <<I(j), I(0)>>)
    [] OTHER -> MapV(ty, << <<"k", S("v" \o ToString(j))>> >>)
RefsT(ty) == {Ref(i) : i \in {j \in 1..Len(binds) : Fits(binds[j].ty, ty)}}
Args(ty) == IF RefsT(ty) # {} /\ One(1..5) # 1 THEN Pick(RefsT(ty)) ELSE {Lit(v) : v \in Pick(LitsT(ty))}
\* Values held by a property or container that allows anything are neither empty nor themselves lists of anything.
Solid(ty, a) == ty = "any" => a.v.t # "anylist" /\ ~IsEmptyV(a.v)
OwnArgs(ty) == {Ref(i) : i \in Pick({j \in 1..Len(binds) : binds[j].v.t = ty /\ binds[j].ty = ty})}

Building == phase = "build" /\ Len(binds) < Depth
Push(ty, h, args, v) ==
  /\ SmallT(v)
  /\ binds' = Append(binds, [ty |-> ty, h |-> h, a |-> args, v |-> v])
  /\ UNCHANGED <<decls, phase>>

RECURSIVE Named(_)
Named(kvs) == IF kvs = <<>> THEN <<>> ELSE <<Tok(":" \o Head(kvs)[1]), Head(kvs)[2]>> \o Named(Tail(kvs))
Vals(kvs) == [i \in 1..Len(kvs) |-> <<kvs[i][1], kvs[i][2].v>>]
RECURSIVE Backwards(_)
Backwards(q) == IF q = <<>> THEN <<>> ELSE Backwards(Tail(q)) \o <<Head(q)>>
Mix(q) == IF One(1..2) = 1 THEN q ELSE Backwards(q)
\* Arguments for some of the properties.
Kept(X) == IF X = {} THEN <<>> ELSE <<CHOOSE x \in X : TRUE>>
RECURSIVE Some(_)
Some(ps) == IF ps = <<>> THEN <<>>
            ELSE (IF One(1..4) = 1 THEN <<>>
                  ELSE Kept({<<Head(ps)[1], a>> : a \in {x \in Args(Head(ps)[2]) : Solid(Head(ps)[2], x)}})) \o Some(Tail(ps))

-----------------------------------------------------------------------------
(* Structs. *)
MakeStruct == Building /\ Random /\ \E ty \in Pick(Of("struct")) :
  \E kvs \in {Mix(Some(AllProps(ty)))} : Push(ty, ty, Named(kvs), MkStruct(ty, Vals(kvs)))
CopyStruct == Building /\ Random /\ \E ty \in Pick(Of("struct")) : \E a \in OwnArgs(ty) : \E i \in Pick(1..Len(AllProps(ty))) :
  LET P == AllProps(ty)[i]
  IN \E b \in Args(P[2]) : Solid(P[2], b) /\ Push(ty, "copy : " \o ty, <<a, Tok(":" \o P[1]), b>>, WithProps(a.v, << <<P[1], b.v>> >>))
CopyStructMany == Building /\ Random /\ \E ty \in Pick(Of("struct")) : \E a \in OwnArgs(ty) :
  \E kvs \in {Mix(Some(AllProps(ty)))} : kvs # <<>> /\ Push(ty, "copy : " \o ty, <<a>> \o Named(kvs), WithProps(a.v, Vals(kvs)))
\* What an unset property of type any or number reads as is not specified.
Readable(v, P) == P[2] \in {"any", "number"} => HasKey(v.p, P[1])
ReadProp == Building /\ Random /\ \E ty \in Pick(Of("struct")) : \E a \in OwnArgs(ty) : \E i \in Pick(1..Len(AllProps(ty))) :
  LET P == AllProps(ty)[i] IN Readable(a.v, P) /\ Push(P[2], ":" \o P[1], <<a>>, PropOf(a.v, P[1]))
ReadPropBy == Building /\ Random /\ \E ty \in Pick(Of("struct")) : \E a \in OwnArgs(ty) : \E i \in Pick(1..Len(AllProps(ty))) :
  LET P == AllProps(ty)[i]
  IN Readable(a.v, P) /\ P[2] # "number" /\ Push(P[2], "any<-struct : " \o P[2], <<a, Lit(S(":" \o P[1]))>>, PropOf(a.v, P[1]))
\* A property of a value known only by a type that it takes over.
ReadAsParent == Building /\ Random /\ \E i \in Pick({j \in 1..Len(binds) : binds[j].ty \in Declared /\ binds[j].v.t # binds[j].ty}) :
  \E k \in Pick(1..Len(AllProps(binds[i].ty))) :
  LET P == AllProps(binds[i].ty)[k] IN Readable(binds[i].v, P) /\ Push(P[2], ":" \o P[1], <<Ref(i)>>, PropOf(binds[i].v, P[1]))

-----------------------------------------------------------------------------
(* Lists and maps. *)
RECURSIVE Items(_, _)
Items(ty, n) == IF n = 0 THEN <<>> ELSE <<CHOOSE x \in Args(ty) : TRUE>> \o Items(ty, n - 1)
MakeList == Building /\ Random /\ \E ty \in Pick(Of("list")) : \E n \in Pick(0..3) :
  \E q \in {Items(Elem(ty), n)} :
  /\ \A i \in 1..Len(q) : Solid(Elem(ty), q[i]) /\ q[i].v.t # ty
  /\ Push(ty, ty, q, ListV(ty, [i \in 1..Len(q) |-> q[i].v]))
CopyList == Building /\ Random /\ \E ty \in Pick(Of("list")) : \E a \in OwnArgs(ty) : \E b \in Args(Elem(ty)) :
  /\ Solid(Elem(ty), b) /\ b.v.t # ty
  /\ Push(ty, "copy : " \o ty, <<a, b>>, ListV(ty, Append(a.v.e, b.v)))
JoinList == Building /\ Random /\ \E ty \in Pick(Of("list")) : \E a \in OwnArgs(ty) : \E b \in OwnArgs(ty) :
  /\ Elem(ty) # "any"
  /\ Push(ty, ty, <<a, b>>, ListV(ty, a.v.e \o b.v.e))
ReadItem == Building /\ Random /\ \E ty \in Pick(Of("list")) : \E a \in OwnArgs(ty) : \E i \in Pick(0..3) :
  /\ Elem(ty) # "any" \/ i \in 1..Len(a.v.e)
  /\ Push(Elem(ty), "any<-list : " \o Elem(ty), <<a, Lit(I(i))>>, IF i \in 1..Len(a.v.e) THEN a.v.e[i] ELSE EmptyT(Elem(ty)))
MakeMap == Building /\ Random /\ \E ty \in Pick(Of("map")) : \E n \in Pick(0..3) :
  \E it \in {Items(Elem(ty), n)} :
  LET q == [i \in 1..n |-> <<Nm(7 * i), it[i]>>]
  IN /\ \A i \in 1..n : q[i][2].v.t # ty
     /\ Push(ty, ty, Named(q), MapV(ty, Vals(q)))
CopyMap == Building /\ Random /\ \E ty \in Pick(Of("map")) : \E a \in OwnArgs(ty) : \E i \in Pick(1..20) : \E b \in Args(Elem(ty)) :
  Push(ty, "copy : " \o ty, <<a, Tok(":" \o Names[i]), b>>, MapV(ty, PutKey(a.v.m, Names[i], b.v)))
ReadKey == Building /\ Random /\ \E ty \in Pick(Of("map")) : \E a \in OwnArgs(ty) : \E i \in Pick({1, 7, 8, 15}) :
  Push(Elem(ty), "any<-map : " \o Elem(ty), <<a, Lit(S(Names[i]))>>, IF HasKey(a.v.m, Names[i]) THEN GetKey(a.v.m, Names[i]) ELSE EmptyT(Elem(ty)))
ListKeys == Building /\ Random /\ \E ty \in Pick(Of("map")) : \E a \in OwnArgs(ty) :
  Push("stringlist", "stringlist<-map", <<a>>, ListV("stringlist", [i \in 1..Len(a.v.m) |-> S(a.v.m[i][1])]))
Anything == {"int", "string", "boolean", "intlist", "stringmap"} \cup Declared
\* Values that are not allowed are left out.
CountMixed == Building /\ Random /\ \E ty \in Pick(Of("list")) : \E t1 \in Pick(Anything) : \E t2 \in Pick(Anything) : \E t3 \in Pick(Anything) :
  \E a \in Args(t1) : \E b \in Args(t2) : \E c \in Args(t3) :
  LET q == <<a.v, b.v, c.v>>
  IN /\ \A i \in 1..3 : q[i].t # ty
     /\ Push("int", "length", <<Form(ty, <<a, b, c>>)>>, I(Len(Taken(ty, q))))
KeysMixed == Building /\ Random /\ \E ty \in Pick(Of("map")) : \E t1 \in Pick(Anything) : \E t2 \in Pick(Anything) : \E t3 \in Pick(Anything) :
  \E a \in Args(t1) : \E b \in Args(t2) : \E c \in Args(t3) :
  LET m == TakenM(ty, <<>>, << <<"z", a.v>>, <<"b", b.v>>, <<"a", c.v>> >>)
  IN /\ \A x \in {a, b, c} : ~(IsMap(x.v) /\ x.v.t = ty)
     /\ Push("stringlist", "stringlist<-map", <<Form(ty, <<Tok(":z"), a, Tok(":b"), b, Tok(":a"), c>>)>>,
             ListV("stringlist", [i \in 1..Len(m) |-> S(m[i][1])]))
\* A property of every item.
StructLists == {ty \in Of("list") : Kind(Elem(ty)) = "struct"}
EachProp == Building /\ Random /\ \E ty \in Pick(StructLists) : \E a \in OwnArgs(ty) :
  \E i \in Pick({j \in 1..Len(AllProps(Elem(ty))) : AllProps(Elem(ty))[j][2] \in {"int", "string"}}) :
  LET P == AllProps(Elem(ty))[i]
      r == P[2] \o "list"
  IN Push(r, "list<-list : " \o r, <<a, Lam0("(fn : " \o P[2] \o " [x : " \o Elem(ty) \o "] (:" \o P[1] \o " x))")>>,
          ListV(r, [k \in 1..Len(a.v.e) |-> PropOf(a.v.e[k], P[1])]))

-----------------------------------------------------------------------------
(* Types, emptiness, equality. *)
NameOf == Building /\ Random /\ \E ty \in Pick(Of("struct") \cup Of("list") \cup Of("map")) : \E a \in OwnArgs(ty) :
  Push("string", "typename<-any", <<a>>, S(a.v.t))
TestType == Building /\ Random /\ \E ty \in Pick(Anything) : \E tz \in Pick({"int", "string"} \cup Of("struct")) : \E a \in Args(ty) :
  Push("boolean", "type/is-type", <<a, Tok(tz)>>, BoolV(Fits(a.v.t, tz)))
TestEmpty == Building /\ Random /\ \E op \in Pick({"is-empty", "!-empty"}) : \E ty \in Pick(Anything) : \E a \in Args(ty) :
  Push("boolean", op, <<a>>, BoolV((op = "is-empty") = IsEmptyV(a.v)))
Equal == Building /\ Random /\ \E ty \in Pick(Declared) : \E a \in OwnArgs(ty) : \E b \in OwnArgs(ty) :
  /\ ~Inherits(a.v) /\ ~Inherits(b.v)
  /\ Push("boolean", "=", <<a, b>>, BoolV(a.v = b.v))
\* Equality with a copy in which one property is set to what it already is.
EqualCopy == Building /\ Random /\ \E ty \in Pick(Of("struct")) : \E a \in OwnArgs(ty) : \E i \in Pick(1..Len(AllProps(ty))) :
  LET P == AllProps(ty)[i]
  IN /\ ~Inherits(a.v) /\ P[2] \in {"int", "string", "boolean", "intlist", "stringlist"}
     /\ Push("boolean", "=", <<a, Form("copy : " \o ty, <<a, Tok(":" \o P[1]), Lit(PropOf(a.v, P[1]))>>)>>, BoolV(TRUE))

-----------------------------------------------------------------------------
(* Enumerated shapes: make, then change one property. *)
MakeEach == Building /\ ~Random /\ binds = <<>> /\ \E s \in SUBSET (1..Len(decls[1].ps)) :
  LET ps == decls[1].ps
      kvs == SelectSeq([i \in 1..Len(ps) |-> <<ps[i][1], Lit(Full(ps[i][2], i)), i>>], LAMBDA x : x[3] \in s)
  IN Push("@/t1", "@/t1", Named(kvs), MkStruct("@/t1", Vals(kvs)))
CopyEach == Building /\ ~Random /\ Len(binds) = 1 /\ \E i \in 1..Len(decls[1].ps) :
  LET P == decls[1].ps[i]
      b == Lit(Full(P[2], 40 + i))
  IN Push("@/t1", "copy : @/t1", <<Ref(1), Tok(":" \o P[1]), b>>, WithProps(binds[1].v, << <<P[1], b.v>> >>))

Init == decls = <<>> /\ binds = <<>> /\ phase = "declare"
Finish == phase = "build" /\ Len(binds) = Depth /\ phase' = "done" /\ UNCHANGED <<decls, binds>>
Next ==
  \/ DeclStruct \/ DeclChild \/ DeclList \/ DeclMap \/ DeclEach \/ Declare
  \/ MakeStruct \/ CopyStruct \/ CopyStructMany \/ ReadProp \/ ReadPropBy \/ ReadAsParent
  \/ MakeList \/ CopyList \/ JoinList \/ ReadItem \/ MakeMap \/ CopyMap \/ ReadKey \/ ListKeys \/ CountMixed \/ KeysMixed \/ EachProp
  \/ NameOf \/ TestType \/ TestEmpty \/ Equal \/ EqualCopy
  \/ MakeEach \/ CopyEach
  \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Every value is one its declared type describes. *)
RECURSIVE WellTyped(_)
WellTyped(v) ==
  CASE IsList(v) -> \A i \in 1..Len(v.e) : Fits(v.e[i].t, Elem(v.t)) /\ WellTyped(v.e[i])
    [] IsMap(v)  -> /\ \A i \in 1..Len(v.m) : Fits(v.m[i][2].t, Elem(v.t)) /\ WellTyped(v.m[i][2])
                    /\ \A i, j \in 1..Len(v.m) : v.m[i][1] = v.m[j][1] => i = j
    [] IsStruct(v) -> \A i \in 1..Len(v.p) : Fits(v.p[i][2].t, PropT(v.t, v.p[i][1])) /\ WellTyped(v.p[i][2]) /\ ~IsEmptyV(v.p[i][2])
    [] OTHER -> TRUE
TypeInv == Len(binds) > 0 => LET b == binds[Len(binds)] IN Fits(b.v.t, b.ty) /\ WellTyped(b.v)
\* Copying changes nothing but the named properties.
CopyInv == Len(binds) > 0 =>
  LET b == binds[Len(binds)]
  IN (b.h = "copy : " \o b.ty /\ IsStruct(b.v)) =>
       \A i \in 1..Len(AllProps(b.ty)) :
         LET p == AllProps(b.ty)[i][1]
         IN (\A k \in 2..Len(b.a) : b.a[k].x # ":" \o p) => HasKey(b.v.p, p) = HasKey(b.a[1].v.p, p) /\ (HasKey(b.v.p, p) => GetKey(b.v.p, p) = GetKey(b.a[1].v.p, p))

RECURSIVE OutArg(_), OutArgs(_)
OutArg(a) == [k |-> a.k, x |-> a.x, i |-> a.i, c |-> OutArgs(a.c), w |-> "", t |-> IF a.v = Nothing THEN "" ELSE a.v.t]
OutArgs(q) == IF q = <<>> THEN <<>> ELSE <<OutArg(Head(q))>> \o OutArgs(Tail(q))
OutBind(b) == [ty |-> b.ty, h |-> b.h, a |-> OutArgs(b.a), v |-> Show(b.v), hid |-> Inherits(b.v)]
OutDecl(d) == [n |-> d.n, k |-> d.k, ps |-> d.ps, al |-> d.al, par |-> d.par]
Emit == (phase = "done" /\ OutFile # "") =>
          CSVWrite("%1$s", <<ToJson([d |-> [i \in 1..Len(decls) |-> OutDecl(decls[i])],
                                     b |-> [i \in 1..Len(binds) |-> OutBind(binds[i])]])>>, OutFile)
=============================================================================
