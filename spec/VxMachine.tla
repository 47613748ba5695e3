------------------------------ MODULE VxMachine ------------------------------
(* A machine that builds vxlisp programs one binding at a time.               *)
(*                                                                            *)
(* The state is a sequence of bindings.  Each binding applies one operation   *)
(* to literals and to earlier bindings, and carries the value the operation   *)
(* must have.  Every behaviour of the machine is therefore a program together *)
(* with the value of each of its steps; the conformance replayer turns the    *)
(* behaviour into source text, compiles it for each target and compares.      *)
(*                                                                            *)
(*   Random = FALSE, Depth = 1: every operation on every tuple of literals.   *)
(*   Random = TRUE:  simulation; each step draws its operation and arguments. *)
EXTENDS VxOps, Randomization, CSV, Json

CONSTANTS Groups,   \* the parts of the library that programs may use
          Depth,    \* bindings in a program
          Random,   \* draw arguments (simulation) or enumerate them
          OutFile   \* where finished programs are written ("" for nowhere)

VARIABLES binds, phase
vars == <<binds, phase>>

-----------------------------------------------------------------------------
(* Arguments. *)
Arg(k, x, i, c, v) == [k |-> k, x |-> x, i |-> i, c |-> c, v |-> v]
Nothing   == [t |-> "nothing"]
Lit(v)    == Arg("l", Src(v), 0, <<>>, v)
Ref(i)    == Arg("r", "", i, <<>>, binds[i].v)
Tok(x)    == Arg("l", x, 0, <<>>, Nothing)
\* A function written in place; "~" in its text stands for the captured argument.
Lam(op, x, c) == Arg("f", x, 0, <<c>>, [op |-> op, c |-> c.v])
Lam0(op, x)   == Arg("f", x, 0, <<>>, [op |-> op])

\* A form nested in place.
Form(x, c) == Arg("n", x, 0, c, Nothing)

L(ty, q) == ListV(ty, q)
I(n) == IntV(n)
S(s) == StrV(s)
Bob  == StructV("@/person", << <<"name", S("bob")>>, <<"age", I(4)>> >>)
Ann  == StructV("@/person", << <<"name", S("ann")>>, <<"tags", L("stringlist", <<S("x"), S("y z")>>)>>, <<"boss", Bob>> >>)
Cy   == StructV("@/person", << <<"age", I(9)>>, <<"marks", MapV("intmap", << <<"m", I(3)>>, <<"k", I(0)>> >>)>> >>)

IntLits  == {-7, -1, 0, 1, 2, 3, 5, 12}
DecLits  == {-3, 1, 2, 10, 30}
StrLits  == {"", "a", "ab", "b", "aXbXc", "a,b,,c", ",", " hi ", "x\"y", "p\nq", "Abc", "abcabc", "X"}
KeyNames == {"a", "b", "z", "key1"}

LitsOf(ty) ==
  CASE ty = "int"     -> {I(n) : n \in IntLits}
    [] ty = "dec"     -> {DecV(n) : n \in DecLits}
    [] ty = "string"  -> {S(s) : s \in StrLits}
    [] ty = "boolean" -> {BoolV(TRUE), BoolV(FALSE)}
    [] ty = "intlist" -> {L(ty, <<>>), L(ty, <<I(4)>>), L(ty, <<I(3), I(1), I(2)>>), L(ty, <<I(0), I(5), I(0), I(-2), I(5)>>)}
    [] ty = "stringlist" -> {L(ty, <<>>), L(ty, <<S("b")>>), L(ty, <<S("c"), S(""), S("a")>>), L(ty, <<S("a"), S("ab"), S("a"), S("x\"y")>>)}
    [] ty = "booleanlist" -> {L(ty, <<BoolV(FALSE), BoolV(TRUE)>>)}
    [] ty = "numberlist" -> {L(ty, <<I(1), DecV(10)>>), L(ty, <<>>)}
    [] ty = "anylist" -> {L(ty, <<>>), L(ty, <<I(1), S("a"), BoolV(TRUE)>>), L(ty, <<L("intlist", <<I(1), I(2)>>), S("q"), Bob>>)}
    [] ty = "@/personlist" -> {L(ty, <<>>), L(ty, <<Bob, Ann>>), L(ty, <<Cy, Bob, Cy>>)}
    [] ty = "intmap"  -> {MapV(ty, <<>>), MapV(ty, << <<"z", I(1)>>, <<"a", I(2)>>, <<"b", I(0)>> >>), MapV(ty, << <<"b", I(7)>>, <<"key1", I(-1)>> >>)}
    [] ty = "stringmap" -> {MapV(ty, <<>>), MapV(ty, << <<"z", S("a")>>, <<"b", S("")>>, <<"a", S("x y")>> >>)}
    [] ty = "anymap"  -> {MapV(ty, << <<"b", I(1)>>, <<"a", L("intlist", <<I(1), I(2)>>)>>, <<"z", Bob>> >>)}
    [] ty = "numbermap" -> {MapV(ty, << <<"z", I(1)>>, <<"a", DecV(2)>> >>)}
    [] ty = "@/personmap" -> {MapV(ty, << <<"z", Ann>>, <<"a", Bob>> >>), MapV(ty, <<>>)}
    [] ty = "@/person" -> {Bob, Ann, Cy, EmptyOf("@/person")}
    [] ty = "@/point"  -> {StructV(ty, << <<"x", I(1)>>, <<"y", I(-2)>>, <<"label", S("p")>> >>), EmptyOf(ty)}

Refs(ty) == {Ref(i) : i \in {j \in 1..Len(binds) : binds[j].ty = ty /\ binds[j].v.t # "nan"}}
Pick(X) == IF Random THEN (IF X = {} THEN {} ELSE RandomSubset(1, X)) ELSE X
Args(ty) ==
  IF ~Random THEN {Lit(v) : v \in LitsOf(ty)}
  ELSE IF Refs(ty) # {} /\ RandomElement(1..4) # 1 THEN RandomSubset(1, Refs(ty))
  ELSE {Lit(v) : v \in RandomSubset(1, LitsOf(ty))}
\* A number is an int or a decimal.
NumArgs == IF ~Random THEN Args("int") \cup Args("dec") \cup {Lit(DecV(q)) : q \in {-8 + 1, 6}}
           ELSE IF RandomElement(1..3) = 1 THEN Args("int")
           ELSE IF RandomElement(1..3) = 1 THEN Args("dec")
           ELSE IF Refs("number") # {} THEN RandomSubset(1, Refs("number")) ELSE Args("dec")
Few(ty) == Args(ty)

RECURSIVE Small(_)
Small(v) ==
  CASE v.t = "int" -> AbsI(v.n) <= 100000
    [] v.t = "dec" -> AbsI(v.q) <= 100000
    [] v.t = "string" -> Len(v.s) <= 24
    [] IsList(v) -> Len(v.e) <= 7 /\ \A i \in 1..Len(v.e) : Small(v.e[i])
    [] IsMap(v)  -> Len(v.m) <= 5 /\ \A i \in 1..Len(v.m) : Small(v.m[i][2])
    [] IsStruct(v) -> \A i \in 1..Len(v.p) : Small(v.p[i][2])
    [] OTHER -> TRUE
RECURSIVE Deep(_)
Deep(v) ==
  CASE IsList(v) -> 1 + (IF v.e = <<>> THEN 0 ELSE LET D == {Deep(v.e[i]) : i \in 1..Len(v.e)} IN CHOOSE d \in D : \A x \in D : d >= x)
    [] IsMap(v) -> 1 + (IF v.m = <<>> THEN 0 ELSE LET D == {Deep(v.m[i][2]) : i \in 1..Len(v.m)} IN CHOOSE d \in D : \A x \in D : d >= x)
    [] IsStruct(v) -> 1 + (IF v.p = <<>> THEN 0 ELSE LET D == {Deep(v.p[i][2]) : i \in 1..Len(v.p)} IN CHOOSE d \in D : \A x \in D : d >= x)
    [] OTHER -> 0

\* A restriction that applies only when arguments are enumerated.
Ex(p) == IF Random THEN TRUE ELSE p
On(g) == phase = "build" /\ Len(binds) < Depth /\ g \in Groups
Push(ty, h, args, v) ==
  /\ Small(v) /\ Deep(v) <= 4
  /\ binds' = Append(binds, [ty |-> ty, h |-> h, a |-> args, v |-> v])
  /\ UNCHANGED phase

-----------------------------------------------------------------------------
(* Functions written in place, by the types they take and return. *)
FnII(c) == { Lam("addc", "(fn : int [x : int] (+ x ~))", c),
             Lam("subfrom", "(fn : int [x : int] (- ~ x))", c),
             Lam("mulc", "(fn : int [x : int] (* x ~))", c) }
FnIS(c) == { Lam("tag", "(fn : string [x : int] (string ~ x))", c) }
FnSS(c) == { Lam("sfx", "(fn : string [x : string] (string x ~))", c) }
FnSI    == { Lam0("len", "(fn : int [x : string] (length x))") }

-----------------------------------------------------------------------------
(* Arithmetic. *)
IntBin == On("arith") /\ \E op \in Pick({"+", "-", "*"}) : \E a \in Args("int") : \E b \in Args("int") :
  Push("int", op, <<a, b>>, Arith(op, a.v, b.v))
IntMany == On("arith") /\ \E op \in Pick({"+", "*"}) : \E a \in Args("int") : \E b \in Args("int") : \E c \in Args("int") :
  Push("int", op, <<a, b, c>>, ArithFold(op, <<a.v, b.v, c.v>>))
IntStep == On("arith") /\ \E op \in Pick({"+1", "-1"}) : \E a \in Args("int") :
  Push("int", op, <<a>>, IntV(IF op = "+1" THEN a.v.n + 1 ELSE a.v.n - 1))
NumBin == On("arith") /\ \E op \in Pick({"+", "-", "*"}) : \E a \in NumArgs : \E b \in NumArgs :
  /\ ~BothInt(a.v, b.v)
  /\ op = "*" => ProductExact(a.v, b.v)
  /\ Push("number", op, <<a, b>>, Arith(op, a.v, b.v))
NumQuot == On("arith") /\ \E a \in NumArgs : \E b \in NumArgs :
  /\ QuotExact(a.v, b.v) /\ Quarters(b.v) # 0
  /\ Push("number", "/", <<a, b>>, Quot(a.v, b.v))
QuotZero == On("arith") /\ \E a \in Args("int") :
  Push("number", "/", <<a, Lit(I(0))>>, NanV)

-----------------------------------------------------------------------------
(* Comparison and logic. *)
OrdOps == {"<", "<=", ">", ">="}
IntOrd == On("cmp") /\ \E op \in Pick(OrdOps) : \E a \in Args("int") : \E b \in Args("int") :
  Push("boolean", op, <<a, b>>, BoolV(Holds(op, Cmp(a.v, b.v))))
IntOrdMany == On("cmp") /\ \E op \in Pick(OrdOps) : \E a \in Args("int") : \E b \in Args("int") : \E c \in Args("int") :
  /\ Ex({a.v.n, b.v.n, c.v.n} \subseteq {-1, 1, 2})
  /\ Push("boolean", op, <<a, b, c>>, BoolV(Chain(op, <<a.v, b.v, c.v>>)))
NumOrd == On("cmp") /\ \E op \in Pick(OrdOps) : \E a \in NumArgs : \E b \in NumArgs :
  /\ {a.v.t, b.v.t} \subseteq {"int", "dec"} /\ ~BothInt(a.v, b.v)
  /\ Push("boolean", op, <<a, b>>, BoolV(Holds(op, Cmp(a.v, b.v))))
TextOrd == On("cmp") /\ \E op \in Pick(OrdOps) : \E a \in Args("string") : \E b \in Args("string") :
  Push("boolean", op, <<a, b>>, BoolV(Holds(op, Cmp(a.v, b.v))))
CompareI == On("cmp") /\ \E a \in Args("int") : \E b \in Args("int") :
  Push("int", "compare", <<a, b>>, IntV(Cmp(a.v, b.v)))
CompareS == On("cmp") /\ \E a \in Args("string") : \E b \in Args("string") :
  Push("int", "compare", <<a, b>>, IntV(Cmp(a.v, b.v)))
CompareN == On("cmp") /\ \E a \in NumArgs : \E b \in NumArgs :
  /\ {a.v.t, b.v.t} \subseteq {"int", "dec"} /\ ~BothInt(a.v, b.v)
  /\ Push("int", "compare", <<a, b>>, IntV(Cmp(a.v, b.v)))
EqTypes == {"int", "string", "boolean", "intlist", "stringlist", "anylist", "@/personlist", "intmap", "stringmap",
            "anymap", "@/personmap", "@/person", "@/point"}
EqSame == On("cmp") /\ \E op \in Pick({"=", "!="}) : \E ty \in Pick(EqTypes) : \E a \in Args(ty) : \E b \in Args(ty) :
  Push("boolean", op, <<a, b>>, BoolV(IF op = "=" THEN Eq(a.v, b.v) ELSE ~Eq(a.v, b.v)))
EqMany == On("cmp") /\ \E ty \in Pick({"int", "string", "intlist"}) : \E a \in Args(ty) : \E b \in Args(ty) : \E c \in Args(ty) :
  /\ Ex(Cardinality({a.v, b.v, c.v}) < 3 /\ (ty = "int" => {a.v.n, b.v.n, c.v.n} \subseteq {-1, 1, 2})
        /\ (ty = "string" => {a.v.s, b.v.s, c.v.s} \subseteq {"", "a", "X"}))
  /\ Push("boolean", "=", <<a, b, c>>, BoolV(EqChain(<<a.v, b.v, c.v>>)))
\* Values of different types are never equal.
EqCross == On("cmp") /\ \E ty \in Pick({"int", "string", "boolean", "intlist", "@/person"}) :
  \E tz \in Pick({"string", "boolean", "stringlist", "anylist", "intmap", "@/point"}) : \E a \in Args(ty) : \E b \in Args(tz) :
  /\ ty # tz /\ a.v.t # b.v.t
  /\ Ex(IsEmptyV(a.v) \/ IsEmptyV(b.v))
  /\ Push("boolean", "=", <<a, b>>, BoolV(FALSE))
\* ... not even when they hold the same.
TwinLists == {<<"intlist", <<I(1), I(2)>>>>, <<"numberlist", <<I(1), I(2)>>>>, <<"anylist", <<I(1), I(2)>>>>, <<"stringlist", <<S("a"), S("")>>>>,
              <<"anylist", <<S("a"), S("")>>>>, <<"anylist", <<Bob, Ann>>>>, <<"@/personlist", <<Bob, Ann>>>>, <<"booleanlist", <<BoolV(TRUE)>>>>, <<"anylist", <<BoolV(TRUE)>>>>,
              <<"intlist", <<>>>>, <<"stringlist", <<>>>>, <<"anylist", <<>>>>, <<"@/personlist", <<>>>>}
Twins == {L(x[1], x[2]) : x \in TwinLists}
         \cup {MapV(ty, <<<<"a", I(1)>>, <<"b", I(2)>>>>) : ty \in {"intmap", "numbermap", "anymap"}}
         \cup {MapV(ty, <<<<"a", S("x")>>>>) : ty \in {"stringmap", "anymap"}} \cup {MapV(ty, <<<<"a", Bob>>>>) : ty \in {"@/personmap", "anymap"}}
         \cup {MapV(ty, <<>>) : ty \in {"intmap", "stringmap", "anymap"}}
         \cup {Bob, EmptyOf("@/person"), EmptyOf("@/point"), S("1"), I(1), BoolV(TRUE), S("true"), S("")}
EqTwin == On("cmp") /\ \E op \in Pick({"=", "!="}) : \E a \in Pick(Twins) : \E b \in Pick(Twins) :
  Push("boolean", op, <<Lit(a), Lit(b)>>, BoolV((op = "=") = (a = b)))
SameTypes == {"int", "string", "boolean"}
EqSimple == On("cmp") /\ \E op \in Pick({"==", "!=="}) : \E ty \in Pick(SameTypes) : \E a \in Args(ty) : \E b \in Args(ty) :
  Push("boolean", op, <<a, b>>, BoolV((op = "==") = (a.v = b.v)))
Logic2 == On("cmp") /\ \E op \in Pick({"and", "or"}) : \E a \in Args("boolean") : \E b \in Args("boolean") :
  Push("boolean", op, <<a, b>>, BoolV(IF op = "and" THEN a.v.b /\ b.v.b ELSE a.v.b \/ b.v.b))
Logic3 == On("cmp") /\ \E op \in Pick({"and", "or"}) : \E a \in Args("boolean") : \E b \in Args("boolean") : \E c \in Args("boolean") :
  Push("boolean", op, <<a, b, c>>, BoolV(IF op = "and" THEN a.v.b /\ b.v.b /\ c.v.b ELSE a.v.b \/ b.v.b \/ c.v.b))
Not == On("cmp") /\ \E a \in Args("boolean") : Push("boolean", "!", <<a>>, BoolV(~a.v.b))

-----------------------------------------------------------------------------
(* Text. *)
TextConcat == On("text") /\ \E a \in Args("string") : \E b \in Args("string") :
  Push("string", "string", <<a, b>>, S(a.v.s \o b.v.s))
TextConcat3 == On("text") /\ \E a \in Args("string") : \E b \in Args("int") : \E c \in Args("string") :
  /\ Ex(b.v.n \in {-1, 0, 12})
  /\ Push("string", "string", <<a, b, c>>, S(ConcatV(<<a.v, b.v, c.v>>)))
TextLength == On("text") /\ \E a \in Args("string") : Push("int", "length", <<a>>, I(Len(a.v.s)))
Bounds == IF Random THEN Args("int") ELSE {Lit(I(n)) : n \in {-7, -2, -1, 0, 1, 2, 3, 5, 6, 12}}
TextStart == On("text") /\ \E a \in Args("string") : \E i \in Bounds :
  Push("string", "type/string<-string-start", <<a, i>>, S(SliceS(a.v.s, i.v.n, Len(a.v.s))))
TextEnd == On("text") /\ \E a \in Args("string") : \E i \in Bounds :
  Push("string", "type/string<-string-end", <<a, i>>, S(SliceS(a.v.s, 1, i.v.n)))
TextSlice == On("text") /\ \E a \in Args("string") : \E i \in Bounds : \E j \in Bounds :
  /\ Ex(a.v.s \in {"", "abcabc"})
  /\ Push("string", "type/string<-string-start-end", <<a, i, j>>, S(SliceS(a.v.s, i.v.n, j.v.n)))
TextFind == On("text") /\ \E op \in Pick({"type/int<-string-find", "type/int<-string-findlast"}) : \E a \in Args("string") : \E b \in Args("string") :
  Push("int", op, <<a, b>>, I(IF op = "type/int<-string-find" THEN FindS(a.v.s, b.v.s) ELSE FindLastS(a.v.s, b.v.s)))
TextContains == On("text") /\ \E a \in Args("string") : \E b \in Args("string") :
  Push("boolean", "contains", <<a, b>>, BoolV(FindS(a.v.s, b.v.s) > 0))
TextEnds == On("text") /\ \E op \in Pick({"type/boolean<-string-ends", "type/boolean<-string-starts", "is-endswith"}) :
  \E a \in Args("string") : \E b \in Args("string") :
  Push("boolean", op, <<a, b>>, BoolV(IF op = "type/boolean<-string-starts" THEN StartsS(a.v.s, b.v.s) ELSE EndsS(a.v.s, b.v.s)))
TextReplace == On("text") /\ \E a \in Args("string") : \E b \in Args("string") : \E c \in Args("string") :
  /\ b.v.s # ""
  /\ Ex(b.v.s \in {"a", "X", ",", "ab"} /\ c.v.s \in {"", "a", "aXbXc", "X"})
  /\ Push("string", "string<-string-find-replace", <<a, b, c>>, S(ReplaceS(a.v.s, b.v.s, c.v.s)))
TextSplit == On("text") /\ \E a \in Args("string") : \E b \in Args("string") :
  /\ b.v.s # ""
  /\ Push("stringlist", "type/stringlist<-string-split", <<a, b>>,
          L("stringlist", LET q == SplitS(a.v.s, b.v.s) IN [i \in 1..Len(q) |-> S(q[i])]))
TextJoin == On("text") /\ \E a \in Args("stringlist") : \E b \in Args("string") :
  Push("string", "type/string<-stringlist-join", <<a, b>>, S(JoinS([i \in 1..Len(a.v.e) |-> a.v.e[i].s], b.v.s)))
TextCase == On("text") /\ \E op \in Pick({"type/string-uppercase", "type/string-lowercase", "type/string-trim"}) : \E a \in Args("string") :
  Push("string", op, <<a>>, S(CASE op = "type/string-uppercase" -> UpperS(a.v.s)
                                [] op = "type/string-lowercase" -> LowerS(a.v.s)
                                [] OTHER -> TrimS(a.v.s)))
TextRepeat == On("text") /\ \E a \in Args("string") : \E i \in Bounds :
  /\ i.v.n <= 6
  /\ Push("string", "string-repeat", <<a, i>>, S(RepeatS(a.v.s, i.v.n)))
KeyWords == {":whitespace", ":nonwhitespace", "X", "b"}
TextFindKeyword == On("text") /\ \E a \in Args("string") : \E k \in Pick(KeyWords) :
  LET P == {i \in 1..Len(a.v.s) : CASE k = ":whitespace" -> Blank(ChAt(a.v.s, i))
                                   [] k = ":nonwhitespace" -> ~Blank(ChAt(a.v.s, i))
                                   [] OTHER -> ChAt(a.v.s, i) = k}
  IN Push("int", "type/int<-string-findkeyword", <<a, Form("string", <<Lit(S(SubSeq(k, 1, 1))), Lit(S(SubSeq(k, 2, Len(k))))>>)>>,
          I(IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j))
TextOfInt == On("text") /\ \E a \in Args("int") : Push("string", "type/string<-int", <<a>>, S(ToString(a.v.n)))
IntOfText == On("text") /\ \E s \in Pick({"42", "-7", "0", "100", "007"}) :
  Push("int", "int<-string", <<Lit(S(s))>>, I(NumOfText(s)))
TextOfAny == On("text") /\ \E ty \in Pick({"int", "string", "boolean", "intlist", "stringlist"}) : \E a \in Args(ty) :
  Push("string", "string<-any", <<a>>, S(Show(a.v)))
TextCopy == On("text") /\ \E a \in Args("string") : \E b \in Args("string") :
  Push("string", "copy : string", <<a, b>>, S(a.v.s \o b.v.s))

-----------------------------------------------------------------------------
(* Lists. *)
LTs == {"intlist", "stringlist", "booleanlist", "anylist", "@/personlist", "numberlist"}
LT3 == {"intlist", "stringlist", "anylist", "@/personlist"}
ItemsFor(ty) == CASE ty = "intlist" -> {"int", "intlist"}
                  [] ty = "stringlist" -> {"string", "stringlist"}
                  [] ty = "booleanlist" -> {"boolean"}
                  [] ty = "numberlist" -> {"int", "dec"}
                  [] ty = "@/personlist" -> {"@/person", "@/personlist"}
                  [] OTHER -> {"int", "string", "boolean", "intlist", "stringmap", "@/person"}
ListNew2 == On("list") /\ \E ty \in Pick(LTs) : \E t1 \in Pick(ItemsFor(ty)) : \E t2 \in Pick(ItemsFor(ty)) : \E a \in Args(t1) : \E b \in Args(t2) :
  /\ Ex(ty # "anylist" /\ (t1 # t2 \/ ty \in {"booleanlist", "numberlist"}))
  /\ Push(ty, ty, <<a, b>>, NewList(ty, <<a.v, b.v>>))
ListNew3 == On("list") /\ \E ty \in Pick(LTs) : \E t1 \in Pick(ItemsFor(ty)) : \E t2 \in Pick(ItemsFor(ty)) : \E t3 \in Pick(ItemsFor(ty)) :
  \E a \in Args(t1) : \E b \in Args(t2) : \E c \in Args(t3) :
  /\ Random
  /\ Push(ty, ty, <<a, b, c>>, NewList(ty, <<a.v, b.v, c.v>>))
ListLength == On("list") /\ \E ty \in Pick(LTs) : \E a \in Args(ty) : Push("int", "length", <<a>>, I(Len(a.v.e)))
TypedElems == {"intlist", "stringlist", "@/personlist", "booleanlist"}
ListItem == On("list") /\ \E ty \in Pick(TypedElems) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ElemType(ty), "any<-list : " \o ElemType(ty), <<a, i>>, ItemL(ElemType(ty), a.v.e, i.v.n))
ListEnds == On("list") /\ \E op \in Pick({"first<-list", "last<-list"}) : \E ty \in Pick(TypedElems) : \E a \in Args(ty) :
  Push(ElemType(ty), op \o " : " \o ElemType(ty), <<a>>, ItemL(ElemType(ty), a.v.e, IF op = "first<-list" THEN 1 ELSE Len(a.v.e)))
ListCopy == On("list") /\ \E ty \in Pick(LT3 \ {"anylist"}) : \E t1 \in Pick(ItemsFor(ty)) : \E a \in Args(ty) : \E b \in Args(t1) :
  Push(ty, "copy : " \o ty, <<a, b>>, NewList(ty, <<a.v, b.v>>))
ListStart == On("list") /\ \E ty \in Pick(LT3) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ty, "coll/list<-list-start : " \o ty, <<a, i>>, L(ty, SliceL(a.v.e, i.v.n, Len(a.v.e))))
ListEnd == On("list") /\ \E ty \in Pick(LT3) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ty, "coll/list<-list-end : " \o ty, <<a, i>>, L(ty, SliceL(a.v.e, 1, i.v.n)))
ListSlice == On("list") /\ \E ty \in Pick(LT3) : \E a \in Args(ty) : \E i \in Bounds : \E j \in Bounds :
  /\ Ex(ty = "intlist" /\ Len(a.v.e) \in {0, 5})
  /\ Push(ty, "coll/list<-list-start-end : " \o ty, <<a, i, j>>, L(ty, SliceL(a.v.e, i.v.n, j.v.n)))
ListMapI == On("list") /\ \E a \in Args("intlist") : \E c \in Args("int") : \E f \in Pick(FnII(c)) :
  Push("intlist", "list<-list : intlist", <<a, f>>, L("intlist", MapL(f.v, a.v.e)))
ListMapIS == On("list") /\ \E a \in Args("intlist") : \E c \in Args("string") : \E f \in Pick(FnIS(c)) :
  Push("stringlist", "list<-list : stringlist", <<a, f>>, L("stringlist", MapL(f.v, a.v.e)))
ListMapS == On("list") /\ \E a \in Args("stringlist") : \E c \in Args("string") : \E f \in Pick(FnSS(c)) :
  Push("stringlist", "list<-list : stringlist", <<a, f>>, L("stringlist", MapL(f.v, a.v.e)))
ListMapSI == On("list") /\ \E a \in Args("stringlist") : \E f \in Pick(FnSI) :
  Push("intlist", "list<-list : intlist", <<a, f>>, L("intlist", MapL(f.v, a.v.e)))
ListMapB == On("list") /\ \E a \in Args("intlist") : \E c \in Args("int") :
  LET f == Lam("gtc", "(fn : boolean [x : int] (> x ~))", c)
  IN Push("booleanlist", "list<-list : booleanlist", <<a, f>>, L("booleanlist", MapL(f.v, a.v.e)))
ListMapP == On("list") /\ \E a \in Args("@/personlist") : \E c \in Args("int") :
  LET f == Lam("older", "(fn : @/person [x : @/person] (copy x :age (+ (:age x) ~)))", c)
  IN Push("@/personlist", "list<-list : @/personlist", <<a, f>>, L("@/personlist", MapL(f.v, a.v.e)))
ListMapIP == On("list") /\ \E a \in Args("intlist") : \E c \in Args("string") :
  LET f == Lam("mkperson", "(fn : @/person [x : int] (@/person :name ~ :age x))", c)
  IN Push("@/personlist", "list<-list : @/personlist", <<a, f>>, L("@/personlist", MapL(f.v, a.v.e)))
ListMapPos == On("list") /\ \E a \in Args("stringlist") : \E c \in Args("string") :
  LET f == Lam("cat2", "(fn : string [i : int x : string] (string i ~ x))", c)
  IN Push("stringlist", "list<-list-intany : stringlist", <<a, f>>,
          L("stringlist", [i \in 1..Len(a.v.e) |-> Ap2(f.v, I(i), a.v.e[i])]))
ListFilterI == On("list") /\ \E a \in Args("intlist") : \E c \in Args("int") :
  LET f == Lam("keepgt", "(fn : any [x : int] (if : any (then (> x ~) x)))", c)
  IN Push("intlist", "coll/list<-list-filter : intlist", <<a, f>>, L("intlist", FilterL(f.v, a.v.e)))
ListFilterS == On("list") /\ \E a \in Args("stringlist") : \E c \in Args("int") :
  LET f == Lam("keeplong", "(fn : any [x : string] (if : any (then (> (length x) ~) x)))", c)
  IN Push("stringlist", "coll/list<-list-filter : stringlist", <<a, f>>, L("stringlist", FilterL(f.v, a.v.e)))
ListFilterP == On("list") /\ \E a \in Args("@/personlist") : \E c \in Args("string") :
  LET f == Lam("keepname", "(fn : any [x : @/person] (if : any (then (= (:name x) ~) x)))", c)
  IN Push("@/personlist", "coll/list<-list-filter : @/personlist", <<a, f>>, L("@/personlist", FilterL(f.v, a.v.e)))
ListReduceI == On("list") /\ \E a \in Args("intlist") : \E s \in Args("int") : \E c \in Args("int") :
  LET f == Lam("sub2", "(fn : int [acc : int x : int] (+ (- acc x) ~))", c)
  IN (Ex(c.v.n \in {0, 3})) /\ Push("int", "any<-list-start-reduce : int", <<a, s, f>>, ReduceL(f.v, s.v, a.v.e))
ListReduceS == On("list") /\ \E a \in Args("stringlist") : \E s \in Args("string") : \E c \in Args("string") :
  LET f == Lam("cat2", "(fn : string [acc : string x : string] (string acc ~ x))", c)
  IN (Ex(c.v.s \in {"", "X"})) /\ Push("string", "any<-list-start-reduce : string", <<a, s, f>>, ReduceL(f.v, s.v, a.v.e))
ListReduceNext == On("list") /\ \E a \in Args("intlist") : \E s \in Args("int") :
  LET f == Lam0("subadd", "(fn : int [acc : int x : int y : int] (- (+ acc x) y))")
  IN Push("int", "any<-list-start-reduce-next : int", <<a, s, f>>, ReduceNextL(f.v, s.v, a.v.e))
ListJoin == On("list") /\ \E ty \in Pick({"intlist", "stringlist", "@/personlist"}) : \E a \in Args(ty) : \E b \in Args(ty) :
  Push(ty, "coll/list<-list-join : " \o ty, <<Arg("n", "anylist", 0, <<a, b>>, Nothing)>>, L(ty, a.v.e \o b.v.e))
ListFlatten == On("list") /\ \E a \in Args("intlist") : \E c \in Args("int") :
  LET f == Lam("row", "(fn : intlist [x : int] (intlist x ~))", c)
  IN Push("intlist", "coll/list<-list-flatten : intlist", <<a, f>>, L("intlist", JoinL(MapL(f.v, a.v.e))))
ListMinus == On("list") /\ \E ty \in Pick({"intlist", "stringlist"}) : \E a \in Args(ty) : \E b \in Args(ty) :
  /\ \A i \in 1..Len(a.v.e) : ~IsEmptyV(a.v.e[i])
  /\ Push(ty, "coll/- : " \o ty, <<a, b>>, L(ty, MinusL(a.v.e, b.v.e)))
ListContains == On("list") /\ \E ty \in Pick({"intlist", "stringlist"}) : \E a \in Args(ty) : \E b \in Args(ElemType(ty)) :
  Push("boolean", "contains", <<a, b>>, BoolV(InL(a.v.e, b.v)))
ListFind == On("list") /\ \E a \in Args("stringlist") : \E b \in Args("string") :
  Push("int", "coll/int<-stringlist-find", <<a, b>>, I(PosL(a.v.e, b.v)))
ListRange == On("list") /\ \E a \in Args("int") : \E b \in Args("int") : \E c \in Args("int") : \E f \in Pick(FnII(c)) :
  /\ AbsI(a.v.n - b.v.n) <= 6
  /\ Ex(c.v.n = 3 /\ f.v.op = "addc")
  /\ Push("intlist", "coll/list<-for-end-loop : intlist", <<a, b, f>>, L("intlist", MapL(f.v, Range(a.v.n, b.v.n))))
ListOfTypes == On("list") /\ \E a \in Args("anylist") : \E ty \in Pick({"int", "string"}) :
  /\ \A i \in 1..Len(a.v.e) : a.v.e[i].t \in {"int", "string", "boolean", "intlist"}
  /\ Push(ty \o "list", "coll/list<-list-filtertypes : " \o ty \o "list", <<a, Tok(ty)>>,
          L(ty \o "list", SelectSeq(a.v.e, LAMBDA v : v.t = ty /\ ~IsEmptyV(v))))
LoopUntil == On("list") /\ \E a \in Args("int") : \E c \in Pick({1, 2, 5}) : \E lim \in Args("int") :
  LET f == Lam("addc", "(fn : int [x : int] (+ x ~))", Lit(I(c)))
      g == Arg("f", "(fn : boolean [x : int] (> x ~))", 0, <<lim>>, Nothing)
  IN lim.v.n - a.v.n < 60 /\ Push("int", "coll/any<-for-until-loop : int", <<a, g, f>>, IterUntil(f.v, lim.v.n, a.v))
LoopWhile == On("list") /\ \E a \in Args("int") : \E c \in Pick({1, 2, 5}) : \E lim \in Args("int") :
  LET f == Lam("addc", "(fn : int [x : int] (+ x ~))", Lit(I(c)))
      g == Arg("f", "(fn : boolean [x : int] (< x ~))", 0, <<lim>>, Nothing)
  IN lim.v.n - a.v.n < 60 /\ Push("int", "coll/any<-for-while-loop : int", <<a, g, f>>, IterWhile(f.v, lim.v.n, a.v))

-----------------------------------------------------------------------------
(* Maps. *)
MTs == {"intmap", "stringmap", "@/personmap"}
MapNew2 == On("map") /\ \E ty \in Pick(MTs) : \E k1 \in Pick(KeyNames) : \E k2 \in Pick(KeyNames) : \E a \in Args(ElemType(ty)) : \E b \in Args(ElemType(ty)) :
  /\ Ex(k1 \in {"z", "b"} /\ k2 \in {"z", "a"} /\ (ty = "intmap" => {a.v.n, b.v.n} \subseteq {0, 5, 12})
                /\ (ty = "stringmap" => {a.v.s, b.v.s} \subseteq {"", "x\"y", "b"}))
  /\ Push(ty, ty, <<Tok(":" \o k1), a, Tok(":" \o k2), b>>, NewMap(ty, << <<k1, a.v>>, <<k2, b.v>> >>))
AnyMapNew == On("map") /\ \E t1 \in Pick({"int", "intlist", "@/person", "stringmap"}) : \E t2 \in Pick({"string", "boolean", "intlist"}) :
  \E k1 \in Pick(KeyNames) : \E k2 \in Pick(KeyNames) : \E a \in Args(t1) : \E b \in Args(t2) :
  /\ Ex(k1 = "z" /\ k2 = "a" /\ t2 = "boolean")
  /\ Push("anymap", "anymap", <<Tok(":" \o k1), a, Tok(":" \o k2), b>>, NewMap("anymap", << <<k1, a.v>>, <<k2, b.v>> >>))
KeyForms(k) == {Lit(S(k)), Lit(S(":" \o k))}
MapItem == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E k \in Pick(KeyNames) : \E kf \in Pick(KeyForms(k)) :
  Push(ElemType(ty), "any<-map : " \o ElemType(ty), <<a, kf>>, ItemM(ElemType(ty), a.v.m, k))
MapCopy == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E k \in Pick(KeyNames) : \E b \in Args(ElemType(ty)) :
  /\ Ex(k \in {"a", "key1"})
  /\ Push(ty, "copy : " \o ty, <<a, Tok(":" \o k), b>>, CopyMap(a.v, << <<k, b.v>> >>))
MapLength == On("map") /\ \E ty \in Pick(MTs \cup {"anymap"}) : \E a \in Args(ty) : Push("int", "length", <<a>>, I(Len(a.v.m)))
MapKeys == On("map") /\ \E ty \in Pick(MTs \cup {"anymap"}) : \E a \in Args(ty) :
  Push("stringlist", "stringlist<-map", <<a>>, L("stringlist", LET k == Keys(a.v.m) IN [i \in 1..Len(k) |-> S(k[i])]))
MapToListI == On("map") /\ \E a \in Args("intmap") :
  LET f == Lam0("keyval", "(fn : string [k : string x : int] (string k \"=\" x))")
  IN Push("stringlist", "list<-map : stringlist", <<a, f>>, L("stringlist", ListM(f.v, a.v.m)))
MapToListV == On("map") /\ \E a \in Args("intmap") : \E c \in Args("int") :
  LET f == Lam("valadd", "(fn : int [k : string x : int] (+ x ~))", c)
  IN Push("intlist", "list<-map : intlist", <<a, f>>, L("intlist", ListM(f.v, a.v.m)))
MapMapI == On("map") /\ \E a \in Args("intmap") : \E c \in Args("int") :
  LET f == Lam("valadd", "(fn : int [k : string x : int] (+ x ~))", c)
  IN Push("intmap", "map<-map : intmap", <<a, f>>, MapV("intmap", MapM(f.v, a.v.m)))
MapMapIS == On("map") /\ \E a \in Args("intmap") : \E c \in Args("string") :
  LET f == Lam("cat2", "(fn : string [k : string x : int] (string k ~ x))", c)
  IN Push("stringmap", "map<-map : stringmap", <<a, f>>, MapV("stringmap", MapM(f.v, a.v.m)))
MapMapS == On("map") /\ \E a \in Args("stringmap") : \E c \in Args("string") :
  LET f == Lam("valsfx", "(fn : string [k : string x : string] (string x ~))", c)
  IN Push("stringmap", "map<-map : stringmap", <<a, f>>, MapV("stringmap", MapM(f.v, a.v.m)))
MapOfListI == On("map") /\ \E a \in Args("intlist") :
  LET f == Lam("tag", "(fn : string [x : int] (string ~ x))", Lit(S("k")))
  IN Push("intmap", "map<-list : intmap", <<a, f>>, NewMap("intmap", PairsBy(f.v, a.v.e)))
MapOfListS == On("map") /\ \E a \in Args("stringlist") :
  LET f == Lam("tag", "(fn : string [x : string] (string ~ x))", Lit(S("k")))
  IN (\A i \in 1..Len(a.v.e) : \A j \in 1..Len(a.v.e[i].s) : ChAt(a.v.e[i].s, j) \notin {"\n", "\"", " "})
     /\ Push("stringmap", "map<-list : stringmap", <<a, f>>, NewMap("stringmap", PairsBy(f.v, a.v.e)))
MapReduceS == On("map") /\ \E a \in Args("intmap") : \E s \in Args("string") :
  LET f == Lam0("mapcat", "(fn : string [acc : string k : string x : int] (string acc k x))")
  IN Push("string", "any<-map-start-reduce : string", <<a, s, f>>, ReduceM(f.v, s.v, a.v.m))
MapReduceI == On("map") /\ \E a \in Args("intmap") : \E s \in Args("int") :
  LET f == Lam0("mapsub", "(fn : int [acc : int k : string x : int] (- acc x))")
  IN Push("int", "any<-map-start-reduce : int", <<a, s, f>>, ReduceM(f.v, s.v, a.v.m))
MapPos == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ElemType(ty), "coll/any<-map-pos : " \o ElemType(ty), <<a, i>>, ItemL(ElemType(ty), Vals(a.v.m), i.v.n))
MapKeyPos == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E k \in Pick(KeyNames) :
  Push("int", "coll/int<-map-key", <<a, Lit(S(k))>>, I(KeyPos(a.v.m, k)))
MapStart == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ty, "coll/map<-map-start : " \o ty, <<a, i>>, MapV(ty, SliceL(a.v.m, i.v.n, Len(a.v.m))))
MapEnd == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E i \in Bounds :
  Push(ty, "coll/map<-map-end : " \o ty, <<a, i>>, MapV(ty, SliceL(a.v.m, 1, i.v.n)))
MapSlice == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E i \in Bounds : \E j \in Bounds :
  /\ Ex(ty = "intmap" /\ Len(a.v.m) = 3)
  /\ Push(ty, "coll/map<-map-start-end : " \o ty, <<a, i, j>>, MapV(ty, SliceL(a.v.m, i.v.n, j.v.n)))
MapSelect == On("map") /\ \E ty \in Pick(MTs) : \E a \in Args(ty) : \E k1 \in Pick(KeyNames) : \E k2 \in Pick(KeyNames) :
  /\ k1 # k2
  /\ Push(ty, "coll/map<-map-keys : " \o ty, <<a, Lit(L("stringlist", <<S(k1), S(k2)>>))>>, MapV(ty, PickKeys(a.v.m, <<k1, k2>>)))
MapMinus == On("map") /\ \E ty \in Pick({"intmap", "stringmap"}) : \E a \in Args(ty) : \E b \in Args(ty) :
  Push(ty, "coll/- : " \o ty, <<a, b>>, MapV(ty, DropKeys(a.v.m, {b.v.m[i][1] : i \in 1..Len(b.v.m)})))

-----------------------------------------------------------------------------
(* Structs. *)
StructNew2 == On("struct") /\ \E p \in Pick(1..5) : \E q \in Pick(1..5) :
  LET A == Props("@/person")[p]
      B == Props("@/person")[q]
  IN p # q /\ \E a \in Args(A[2]) : \E b \in Args(B[2]) :
     /\ Ex({p, q} \subseteq {1, 2, 4} /\ (A[2] = "int" => a.v.n \in {0, 5}) /\ (B[2] = "int" => b.v.n \in {0, 5})
                   /\ (A[2] = "string" => a.v.s \in {"", "x\"y"}) /\ (B[2] = "string" => b.v.s \in {"", "x\"y"}))
     /\ Push("@/person", "@/person", <<Tok(":" \o A[1]), a, Tok(":" \o B[1]), b>>,
             StructV("@/person", << <<A[1], a.v>>, <<B[1], b.v>> >>))
PointNew == On("struct") /\ \E a \in Args("int") : \E b \in Args("int") : \E c \in Args("string") :
  /\ Ex(a.v.n \in {0, 5} /\ b.v.n \in {0, -7})
  /\ Push("@/point", "@/point", <<Tok(":x"), a, Tok(":y"), b, Tok(":label"), c>>,
          StructV("@/point", << <<"x", a.v>>, <<"y", b.v>>, <<"label", c.v>> >>))
StructGet == On("struct") /\ \E ty \in Pick(StructTypes) : \E p \in Pick(1..5) :
  LET P == Props(ty)
  IN p <= Len(P) /\ \E a \in Args(ty) : Push(P[p][2], ":" \o P[p][1], <<a>>, GetProp(a.v, P[p][1]))
StructGetDeep == On("struct") /\ \E p \in Pick({1, 2, 3}) : \E a \in Args("@/person") :
  LET P == Props("@/person")
  IN Push(P[p][2], ":" \o P[p][1], <<Arg("n", ":boss", 0, <<a>>, Nothing)>>, GetProp(GetProp(a.v, "boss"), P[p][1]))
StructGetBy == On("struct") /\ \E p \in Pick({1, 2}) : \E a \in Args("@/person") :
  LET P == Props("@/person")
  IN Push(P[p][2], "any<-struct : " \o P[p][2], <<a, Lit(S(":" \o P[p][1]))>>, GetProp(a.v, P[p][1]))
StructCopy == On("struct") /\ \E p \in Pick(1..5) : \E a \in Args("@/person") :
  LET A == Props("@/person")[p]
  IN \E b \in Args(A[2]) : Push("@/person", "copy : @/person", <<a, Tok(":" \o A[1]), b>>, SetProp(a.v, A[1], b.v))
StructCopy2 == On("struct") /\ \E a \in Args("@/point") : \E b \in Args("int") : \E c \in Args("string") :
  /\ Ex(b.v.n \in {0, 5})
  /\ Push("@/point", "copy : @/point", <<a, Tok(":y"), b, Tok(":label"), c>>, SetProp(SetProp(a.v, "y", b.v), "label", c.v))
PersonNames == On("struct") /\ \E a \in Args("@/personlist") :
  LET f == Lam0("namep", "(fn : string [x : @/person] (:name x))")
  IN Push("stringlist", "list<-list : stringlist", <<a, f>>, L("stringlist", MapL(f.v, a.v.e)))

-----------------------------------------------------------------------------
(* Types and emptiness. *)
AllTypes == {"int", "string", "boolean", "intlist", "stringlist", "anylist", "@/personlist", "intmap", "stringmap",
             "anymap", "@/personmap", "@/person", "@/point"}
TypeNameOf == On("type") /\ \E ty \in Pick(IF Random THEN {x \in AllTypes : ChAt(x, 1) # "@"} ELSE AllTypes) : \E a \in Args(ty) :
  Push("string", "typename<-any", <<a>>, S(TypeName(a.v)))
ExtendsOf == On("type") /\ \E ty \in Pick(AllTypes \ {"int", "string", "boolean"}) : \E a \in Args(ty) :
  Push("string", "extends<-any", <<a>>, S(Extends(a.v)))
IsTests == {"is-int", "type/is-string", "type/is-boolean", "is-number", "coll/is-list", "coll/is-map"}
IsOp(op, v) == CASE op = "is-int" -> v.t = "int" [] op = "type/is-string" -> v.t = "string"
                 [] op = "type/is-boolean" -> v.t = "boolean" [] op = "is-number" -> v.t = "int"
                 [] op = "coll/is-list" -> IsList(v) [] OTHER -> IsMap(v)
IsTest == On("type") /\ \E op \in Pick(IsTests) : \E ty \in Pick(AllTypes) : \E a \in Args(ty) :
  Push("boolean", op, <<a>>, BoolV(IsOp(op, a.v)))
IsType == On("type") /\ \E ty \in Pick(AllTypes) : \E tz \in Pick({"int", "string", "boolean", "@/person", "@/point"}) : \E a \in Args(ty) :
  Push("boolean", "type/is-type", <<a, Tok(tz)>>, BoolV(a.v.t = tz))
IsEmptyOf == On("type") /\ \E op \in Pick({"is-empty", "!-empty"}) : \E ty \in Pick({"int", "string", "boolean", "intlist", "stringlist", "intmap", "@/person"}) : \E a \in Args(ty) :
  Push("boolean", op, <<a>>, BoolV((op = "is-empty") = IsEmptyV(a.v)))
CastTo == On("type") /\ \E tz \in Pick({"int", "string", "boolean"}) : \E ty \in Pick(AllTypes) : \E a \in Args(ty) :
  Push(tz, "any<-any : " \o tz, <<a>>, Cast(tz, a.v))
ListConvert == On("type") /\ \E a \in Args("intlist") :
  Push("anylist", "list<-list : anylist", <<a, Lam0("id", "(fn : any [x : int] x)")>>, L("anylist", a.v.e))

-----------------------------------------------------------------------------
(* Containers given values they do not allow: such values are left out, the   *)
(* rest is kept in order, and the container says that something went wrong.   *)
MixTypes == {"int", "string", "boolean", "intlist", "stringlist", "intmap", "@/person", "@/point"}
MixArgs(ty) == IF Random THEN Args(ty)
               ELSE CASE ty = "int" -> {Lit(I(0)), Lit(I(5))}
                      [] ty = "string" -> {Lit(S("")), Lit(S("a"))}
                      [] ty = "boolean" -> {Lit(BoolV(TRUE))}
                      [] ty = "intlist" -> {Lit(L(ty, <<I(0), I(3)>>))}
                      [] ty = "stringlist" -> {Lit(L(ty, <<S("q")>>))}
                      [] ty = "intmap" -> {Lit(MapV(ty, << <<"b", I(7)>> >>))}
                      [] ty = "@/person" -> {Lit(Bob)}
                      [] OTHER -> {Lit(StructV("@/point", << <<"x", I(1)>> >>))}
HoldList == {"intlist", "stringlist", "booleanlist", "@/personlist"}
HoldMap  == {"intmap", "stringmap", "@/personmap"}
Legal(ty, q) == \A i \in 1..Len(q) : Allows(ty, q[i]) \/ q[i].t = ty
TypedListLen == On("typed") /\ \E ty \in Pick(HoldList) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("int", "length", <<Form(ty, <<a, b>>)>>, I(Len(NewList(ty, <<a.v, b.v>>).e)))
TypedListErr == On("typed") /\ \E ty \in Pick(HoldList) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("boolean", "is-error", <<Form(ty, <<a, b>>)>>, BoolV(~Legal(ty, <<a.v, b.v>>)))
TypedListItems == On("typed") /\ \E ty \in Pick(HoldList) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("anylist", "list<-list : anylist", <<Form(ty, <<a, b, a>>), Lam0("id", "(fn : any [x : any] x)")>>,
       L("anylist", NewList(ty, <<a.v, b.v, a.v>>).e))
TypedListCopy == On("typed") /\ \E ty \in Pick({"intlist", "stringlist", "@/personlist"}) : \E t1 \in Pick(MixTypes) : \E a \in Args(ty) : \E b \in MixArgs(t1) :
  Push("int", "length", <<Form("copy : " \o ty, <<a, b>>)>>, I(Len(NewList(ty, <<a.v, b.v>>).e)))
TypedListFrom == On("typed") /\ \E ty \in Pick(HoldList) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) :
  \E h \in Pick({"list<-list", "coll/list<-list-filter"}) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  /\ a.v.t # ty /\ b.v.t # ty /\ ~IsEmptyV(a.v) /\ ~IsEmptyV(b.v)
  /\ Push("int", "length", <<Form(h \o " : " \o ty, <<Form("anylist", <<a, b>>), Lam0("id", "(fn : any [x : any] x)")>>)>>,
          I(Len(Keep(ty, <<a.v, b.v>>))))
TypedListPos == On("typed") /\ \E ty \in Pick(HoldList) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  /\ a.v.t # ty /\ b.v.t # ty
  /\ Push("int", "length", <<Form("list<-list-intany : " \o ty, <<Form("anylist", <<a, b>>), Lam0("id", "(fn : any [i : int x : any] x)")>>)>>,
          I(Len(Keep(ty, <<a.v, b.v>>))))
TypedMapLen == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("stringlist", "stringlist<-map", <<Form(ty, <<Tok(":z"), a, Tok(":a"), b, Tok(":b"), a>>)>>,
       L("stringlist", LET k == Keys(NewMap(ty, << <<"z", a.v>>, <<"a", b.v>>, <<"b", a.v>> >>).m) IN [i \in 1..Len(k) |-> S(k[i])]))
TypedMapErr == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("boolean", "is-error", <<Form(ty, <<Tok(":z"), a, Tok(":a"), b>>)>>, BoolV(~(Allows(ty, a.v) /\ Allows(ty, b.v))))
TypedMapCopy == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E a \in Args(ty) : \E b \in MixArgs(t1) :
  Push("int", "length", <<Form("copy : " \o ty, <<a, Tok(":zz"), b>>)>>, I(Len(CopyMap(a.v, << <<"zz", b.v>> >>).m)))
TypedMapItem == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push(ElemType(ty), "any<-map : " \o ElemType(ty), <<Form(ty, <<Tok(":z"), a, Tok(":a"), b>>), Lit(S("z"))>>,
       ItemM(ElemType(ty), NewMap(ty, << <<"z", a.v>>, <<"a", b.v>> >>).m, "z"))
TypedMapFrom == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push(ty, "map<-map : " \o ty, <<Form("anymap", <<Tok(":z"), a, Tok(":a"), b>>), Lam0("id", "(fn : any [k : string x : any] x)")>>,
       NewMap(ty, << <<"z", a.v>>, <<"a", b.v>> >>))
TypedMapOfList == On("typed") /\ \E ty \in Pick(HoldMap) : \E t1 \in Pick(MixTypes) : \E t2 \in Pick(MixTypes) : \E a \in MixArgs(t1) : \E b \in MixArgs(t2) :
  Push("int", "length", <<Form("map<-list : " \o ty, <<Form("anylist", <<a, b>>), Lam0("id", "(fn : string [x : any] (string \"k\" (string<-any x)))")>>)>>,
       I(Len(NewMap(ty, << <<Show(a.v), a.v>>, <<Show(b.v), b.v>> >>).m)))

-----------------------------------------------------------------------------
(* Choice. *)
CondTypes == {"int", "string", "intlist", "@/person"}
IfThenElse == On("cond") /\ \E ty \in Pick(CondTypes) : \E c \in Args("boolean") : \E a \in Args(ty) : \E b \in Args(ty) :
  /\ Ex(ty = "string" => Len(a.v.s) < 3 /\ Len(b.v.s) < 3)
  /\ Push(ty, "if : " \o ty, <<Form("then", <<c, a>>), Form("else", <<b>>)>>, IF c.v.b THEN a.v ELSE b.v)
IfThenThen == On("cond") /\ \E ty \in Pick(IF Random THEN CondTypes ELSE {"int"}) : \E c \in Args("boolean") : \E d \in Args("boolean") :
  \E a \in Args(ty) : \E b \in Args(ty) : \E e \in Args(ty) :
  /\ Ex(a.v.n < b.v.n /\ b.v.n < e.v.n /\ a.v.n > -2 /\ e.v.n < 4)
  /\ Push(ty, "if : " \o ty, <<Form("then", <<c, a>>), Form("then", <<d, b>>), Form("else", <<e>>)>>,
          IF c.v.b THEN a.v ELSE IF d.v.b THEN b.v ELSE e.v)
IfThenOnly == On("cond") /\ \E ty \in Pick(CondTypes) : \E c \in Args("boolean") : \E a \in Args(ty) :
  Push(ty, "if : " \o ty, <<Form("then", <<c, a>>)>>, IF c.v.b THEN a.v ELSE EmptyOf(ty))
IfShort == On("cond") /\ \E ty \in Pick(CondTypes) : \E c \in Args("boolean") : \E a \in Args(ty) : \E b \in Args(ty) :
  /\ Ex(ty = "string" => Len(a.v.s) < 3 /\ Len(b.v.s) < 3)
  /\ Push(ty, "if : " \o ty, <<c, a, b>>, IF c.v.b THEN a.v ELSE b.v)
\* A few arguments only, when arguments are enumerated.
FewArgs(ty) == IF Random THEN Args(ty) ELSE IF ty = "int" THEN {Lit(I(n)) : n \in {-1, 0, 5}} ELSE {Lit(S(s)) : s \in {"", "a", "Abc"}}
Switch2 == On("cond") /\ \E ty \in Pick({"int", "string"}) : \E tz \in Pick(IF Random THEN CondTypes ELSE {"int", "string"}) :
  \E s \in FewArgs(ty) : \E k1 \in FewArgs(ty) : \E k2 \in FewArgs(ty) : \E a \in FewArgs(tz) : \E b \in FewArgs(tz) : \E e \in FewArgs(tz) :
  /\ Ex(a.v # b.v /\ b.v # e.v /\ a.v # e.v /\ (tz = "string" => a.v.s = "") /\ (tz = "int" => a.v.n = 0))
  /\ Push(tz, "switch : " \o tz, <<s, Form("case", <<k1, a>>), Form("case", <<k2, b>>), Form("else", <<e>>)>>,
          IF s.v = k1.v THEN a.v ELSE IF s.v = k2.v THEN b.v ELSE e.v)
SwitchList == On("cond") /\ \E s \in Args("int") : \E l \in Args("intlist") : \E a \in Args("string") : \E e \in Args("string") :
  /\ Ex(a.v.s = "a" /\ e.v.s = "b")
  /\ Push("string", "switch : string", <<s, Form("case", <<l, a>>), Form("else", <<e>>)>>,
          IF InL(l.v.e, s.v) THEN a.v ELSE e.v)
SwitchNone == On("cond") /\ \E s \in Args("string") : \E k \in Args("string") : \E a \in Args("int") :
  /\ Ex(a.v.n = 5)
  /\ Push("int", "switch : int", <<s, Form("case", <<k, a>>)>>, IF s.v = k.v THEN a.v ELSE I(0))

\* What is not chosen is not evaluated: those places hold calls that never return.
Never(ty) == Form("forever-" \o ty, <<Lit(I(1))>>)
LazyTypes == {"int", "string", "intlist"}
Chosen(ty, here, a) == IF here THEN a ELSE Never(ty)
LazyIf == On("cond") /\ \E ty \in Pick(LazyTypes) : \E c \in BOOLEAN : \E d \in BOOLEAN : \E a \in Args(ty) :
  Push(ty, "if : " \o ty, <<Form("then", <<Lit(BoolV(c)), Chosen(ty, c, a)>>),
                            Form("then", <<IF c THEN Never("boolean") ELSE Lit(BoolV(d)), Chosen(ty, ~c /\ d, a)>>),
                            Form("else", <<Chosen(ty, ~c /\ ~d, a)>>)>>, a.v)
LazySwitch == On("cond") /\ \E ty \in Pick(LazyTypes) : \E k \in {1, 2, 3} : \E a \in Args(ty) :
  Push(ty, "switch : " \o ty, <<Lit(I(k)), Form("case", <<Lit(I(1)), Chosen(ty, k = 1, a)>>),
                                Form("case", <<Lit(I(2)), Chosen(ty, k = 2, a)>>),
                                Form("else", <<Chosen(ty, k = 3, a)>>)>>, a.v)

-----------------------------------------------------------------------------
(* Printing.  The printed text of a value is itself an expression for it.     *)
OddText == {"(", ")", "(a b)", "[x]", "{y}", "`", "//no", "/* c */", "*/", ";", ":k", ":=", "'", "%d %s", "$1", "#", "<b>&amp;</b>",
            "{0}", "tab\tend", "  two  ", "a\n\nb", "\"", "\"\"", "say \"hi\" (now)", "true", "12", "output ", "return 1;", "a=b", "null",
            "undefined", "x, y", "\n", "(let [a := 1] a)", "++", "@", "!", "?", "|", "^", "_"}
Mixed == {I(-1), I(0), DecV(2), S("q"), S(""), S("say \"hi\" (now)"), BoolV(TRUE), L("intlist", <<>>), L("intlist", <<I(1), I(2)>>), L("stringlist", <<S("a")>>),
          Bob, Ann, Cy, EmptyOf("@/person"), MapV("intmap", << <<"z", I(1)>>, <<"a", I(0)>> >>), MapV("stringmap", <<>>),
          MapV("anymap", << <<"b", L("@/personlist", <<Bob>>)>> >>)}
PrintTypes == {"int", "string", "boolean", "intlist", "stringlist", "booleanlist", "numberlist", "anylist", "@/personlist", "intmap", "stringmap",
               "anymap", "@/personmap", "@/person", "@/point"}
PrintLits(ty) ==
  CASE ty = "string" -> {S(x) : x \in OddText}
    [] ty = "stringlist" -> {L(ty, <<S(x), S(y)>>) : x \in OddText, y \in {"", "x\"y", "p\nq"}}
    [] ty = "anylist" -> {L(ty, <<x, y>>) : x \in Mixed, y \in Mixed}
    [] ty = "stringmap" -> {MapV(ty, << <<"z", S(x)>>, <<"a", S(y)>> >>) : x \in OddText, y \in {"", "p\nq"}}
    [] ty = "anymap" -> {MapV(ty, << <<"z", x>>, <<"key1", y>> >>) : x \in Mixed, y \in Mixed}
    [] ty = "@/personlist" -> {L(ty, <<x, y>>) : x \in LitsOf("@/person"), y \in LitsOf("@/person")}
    [] ty = "@/personmap" -> {MapV(ty, << <<"b", x>>, <<"a", y>> >>) : x \in LitsOf("@/person"), y \in LitsOf("@/person")}
    [] ty = "@/person" -> {StructV(ty, << <<"name", S(x)>>, <<"tags", L("stringlist", <<S(x), S("")>>)>>, <<"boss", b>> >>) : x \in OddText, b \in {Bob, EmptyOf(ty)}}
    [] OTHER -> {}
Printed(v) == Arg("p", Show(v), 0, <<>>, v)
Reread == On("print") /\ \E ty \in Pick(PrintTypes) : \E a \in (IF Random THEN Args(ty) ELSE {Lit(v) : v \in LitsOf(ty) \cup PrintLits(ty)}) :
  Push(ty, "", <<Printed(a.v)>>, a.v)
OddString == On("print") /\ \E x \in Pick(OddText) : \E b \in Args("string") :
  /\ Ex(b.v.s \in {"", "a"})
  /\ Push("string", "string", <<Lit(S(x)), b>>, S(x \o b.v.s))

-----------------------------------------------------------------------------
Init == binds = <<>> /\ phase = "build"
Finish == phase = "build" /\ Len(binds) = Depth /\ phase' = "done" /\ UNCHANGED binds

Next ==
  \/ IntBin \/ IntMany \/ IntStep \/ NumBin \/ NumQuot \/ QuotZero
  \/ IntOrd \/ IntOrdMany \/ NumOrd \/ TextOrd \/ CompareI \/ CompareS \/ CompareN \/ EqSame \/ EqMany \/ EqCross \/ EqTwin \/ EqSimple
  \/ Logic2 \/ Logic3 \/ Not
  \/ TextConcat \/ TextConcat3 \/ TextLength \/ TextStart \/ TextEnd \/ TextSlice \/ TextFind \/ TextContains \/ TextEnds
  \/ TextReplace \/ TextSplit \/ TextJoin \/ TextCase \/ TextRepeat \/ TextFindKeyword \/ TextOfInt \/ IntOfText \/ TextOfAny \/ TextCopy
  \/ ListNew2 \/ ListNew3 \/ ListLength \/ ListItem \/ ListEnds \/ ListCopy \/ ListStart \/ ListEnd \/ ListSlice
  \/ ListMapI \/ ListMapIS \/ ListMapS \/ ListMapSI \/ ListMapB \/ ListMapP \/ ListMapIP \/ ListMapPos
  \/ ListFilterI \/ ListFilterS \/ ListFilterP \/ ListReduceI \/ ListReduceS \/ ListReduceNext \/ ListJoin \/ ListFlatten
  \/ ListMinus \/ ListContains \/ ListFind \/ ListRange \/ ListOfTypes \/ LoopUntil \/ LoopWhile
  \/ MapNew2 \/ AnyMapNew \/ MapItem \/ MapCopy \/ MapLength \/ MapKeys \/ MapToListI \/ MapToListV \/ MapMapI \/ MapMapIS \/ MapMapS
  \/ MapOfListI \/ MapOfListS \/ MapReduceS \/ MapReduceI \/ MapPos \/ MapKeyPos \/ MapStart \/ MapEnd \/ MapSlice
  \/ MapSelect \/ MapMinus
  \/ StructNew2 \/ PointNew \/ StructGet \/ StructGetDeep \/ StructGetBy \/ StructCopy \/ StructCopy2 \/ PersonNames
  \/ TypeNameOf \/ ExtendsOf \/ IsTest \/ IsType \/ IsEmptyOf \/ CastTo \/ ListConvert
  \/ TypedListLen \/ TypedListErr \/ TypedListItems \/ TypedListCopy \/ TypedListFrom \/ TypedListPos
  \/ TypedMapLen \/ TypedMapErr \/ TypedMapCopy \/ TypedMapItem \/ TypedMapFrom \/ TypedMapOfList
  \/ IfThenElse \/ IfThenThen \/ IfThenOnly \/ IfShort \/ Switch2 \/ SwitchList \/ SwitchNone
  \/ LazyIf \/ LazySwitch \/ Reread \/ OddString
  \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* What every program of the machine satisfies. *)
RECURSIVE WellTyped(_)
WellTyped(v) ==
  CASE IsList(v) -> \A i \in 1..Len(v.e) : Allows(v.t, v.e[i]) /\ WellTyped(v.e[i])
    [] IsMap(v)  -> /\ \A i \in 1..Len(v.m) : Allows(v.t, v.m[i][2]) /\ WellTyped(v.m[i][2])
                    /\ \A i, j \in 1..Len(v.m) : v.m[i][1] = v.m[j][1] => i = j
    [] IsStruct(v) -> \A i \in 1..Len(v.p) : v.p[i][2].t = PropType(v.t, v.p[i][1]) /\ WellTyped(v.p[i][2]) /\ ~IsEmptyV(v.p[i][2])
    [] OTHER -> TRUE
HasType(b) == b.v.t = b.ty \/ (b.ty = "number" /\ b.v.t \in {"int", "dec", "nan"})
TypeInv == Len(binds) > 0 => LET b == binds[Len(binds)] IN HasType(b) /\ WellTyped(b.v)
\* Nothing that happens later changes an earlier binding.
Immutable == [][\A i \in 1..Len(binds) : binds'[i] = binds[i]]_vars
\* Order and equality are total, antisymmetric and consistent with each other.
OrderInv ==
  \A i, j \in 1..Len(binds) :
    LET a == binds[i].v
        b == binds[j].v
    IN (a.t = b.t /\ a.t \in {"int", "string", "boolean"}) =>
         /\ Cmp(a, b) = -Cmp(b, a)
         /\ (Cmp(a, b) = 0) = Eq(a, b)

RECURSIVE OutArg(_), OutArgs(_)
OutArg(a) ==
  LET isval == a.k \in {"l", "p"} /\ "t" \in DOMAIN a.v /\ a.v # Nothing
  IN [k |-> a.k, x |-> a.x, i |-> a.i, c |-> OutArgs(a.c),
      w |-> IF isval THEN Show(a.v) ELSE "", t |-> IF isval THEN a.v.t ELSE ""]
OutArgs(q) == IF q = <<>> THEN <<>> ELSE <<OutArg(Head(q))>> \o OutArgs(Tail(q))
OutBind(b) == [ty |-> b.ty, h |-> b.h, a |-> OutArgs(b.a), v |-> Show(b.v)]
Emit == (phase = "done" /\ OutFile # "") =>
          CSVWrite("%1$s", <<ToJson([i \in 1..Len(binds) |-> OutBind(binds[i])])>>, OutFile)
=============================================================================
