-------------------------------- MODULE VxOps --------------------------------
(* The meaning of the operations of the vxlisp standard library, as pure      *)
(* functions on the values of VxData.  Nothing here follows how any target    *)
(* computes a result: every operator says which result a user may rely on.    *)
EXTENDS VxData

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

-----------------------------------------------------------------------------
(* Numbers.  A decimal is a count of quarters, so that every sum, difference  *)
(* and product that stays in the domain is exact on every target.             *)
Quarters(v) == IF v.t = "int" THEN 4 * v.n ELSE v.q
IsNum(v)    == v.t \in {"int", "dec"}
BothInt(a, b) == a.t = "int" /\ b.t = "int"

\* Results too large for the domain of the specification stay too large: no program keeps one.
Huge == 100000000
Sat(x) == AbsI(x) >= Huge
Plus(x, y)  == IF Sat(x) \/ Sat(y) THEN Huge ELSE x + y
Times(x, y) == IF Sat(x) \/ Sat(y) THEN Huge ELSE IF x = 0 \/ y = 0 THEN 0
               ELSE IF AbsI(x) > Huge \div AbsI(y) THEN Huge ELSE x * y

ProductExact(a, b) == IF BothInt(a, b) THEN TRUE ELSE Times(Quarters(a), Quarters(b)) % 4 = 0
Arith(op, a, b) ==
  CASE op = "+" -> IF BothInt(a, b) THEN IntV(Plus(a.n, b.n)) ELSE DecV(Plus(Quarters(a), Quarters(b)))
    [] op = "-" -> IF BothInt(a, b) THEN IntV(Plus(a.n, -b.n)) ELSE DecV(Plus(Quarters(a), -Quarters(b)))
    [] op = "*" -> IF BothInt(a, b) THEN IntV(Times(a.n, b.n))
                   ELSE LET t == Times(Quarters(a), Quarters(b)) IN DecV(IF Sat(t) THEN Huge ELSE t \div 4)
RECURSIVE ArithFold(_, _)
ArithFold(op, s) == IF Len(s) = 1 THEN s[1]
                    ELSE ArithFold(op, <<Arith(op, s[1], s[2])>> \o SubSeq(s, 3, Len(s)))

\* Division: anything divided by zero is notanumber; zero divided by anything else is zero.
QuotExact(a, b) == IF Quarters(b) = 0 THEN TRUE ELSE (4 * AbsI(Quarters(a))) % AbsI(Quarters(b)) = 0
Quot(a, b) ==
  LET x == Quarters(a)
      y == Quarters(b)
      w == (4 * AbsI(x)) \div AbsI(y)
  IN IF y = 0 THEN NanV ELSE DecV(IF (x < 0) = (y < 0) THEN w ELSE -w)

-----------------------------------------------------------------------------
(* Order and equality. *)
Alphabet == "\t\n !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == CHOOSE i \in 1..Len(Alphabet) : ChAt(Alphabet, i) = c
RECURSIVE TextCmp(_, _)
TextCmp(a, b) ==
  IF a = b THEN 0
  ELSE IF a = "" THEN -1
  ELSE IF b = "" THEN 1
  ELSE IF ChAt(a, 1) = ChAt(b, 1) THEN TextCmp(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b)))
  ELSE IF Code(ChAt(a, 1)) < Code(ChAt(b, 1)) THEN -1 ELSE 1
Sign(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Cmp(a, b) ==
  IF a.t = "string" THEN TextCmp(a.s, b.s)
  ELSE IF a.t = "boolean" THEN Sign((IF a.b THEN 1 ELSE 0) - (IF b.b THEN 1 ELSE 0))
  ELSE Sign(Quarters(a) - Quarters(b))
Holds(op, c) ==
  CASE op = "<"  -> c < 0
    [] op = "<=" -> c <= 0
    [] op = ">"  -> c > 0
    [] op = ">=" -> c >= 0
\* A comparison of several values holds when it holds between neighbours.
Chain(op, s) == \A i \in 1..(Len(s) - 1) : Holds(op, Cmp(s[i], s[i + 1]))
Eq(a, b) == IF IsNum(a) /\ IsNum(b) THEN Quarters(a) = Quarters(b) ELSE a = b
EqChain(s) == \A i \in 1..(Len(s) - 1) : Eq(s[i], s[i + 1])

-----------------------------------------------------------------------------
(* Text.  Positions count from 1.  A negative end counts from the end; a      *)
(* start below 1 selects nothing; an end beyond the text stops at its end.    *)
SliceS(s, a, b) ==
  LET n == Len(s)
      z == IF b < 0 THEN b + n ELSE b
  IN IF a < 1 \/ a > z \/ a > n THEN "" ELSE SubSeq(s, a, Min2(z, n))
At(s, x, i)  == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
FindS(s, x)  == LET P == {i \in 1..(Len(s) + 1) : At(s, x, i)}
                IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
FindLastS(s, x) == LET P == {i \in 1..(Len(s) + 1) : At(s, x, i)}
                   IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i >= j
StartsS(s, x) == At(s, x, 1)
EndsS(s, x)   == Len(x) <= Len(s) /\ SubSeq(s, Len(s) - Len(x) + 1, Len(s)) = x
RECURSIVE RepeatS(_, _)
RepeatS(s, k) == IF k <= 0 THEN "" ELSE s \o RepeatS(s, k - 1)
Blank(c) == c \in {" ", "\n", "\t"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # "" /\ Blank(ChAt(s, 1)) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF s # "" /\ Blank(ChAt(s, Len(s))) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
TrimS(s) == TrimL(TrimR(s))
RECURSIVE SplitS(_, _)
SplitS(s, x) == LET i == FindS(s, x)
                IN IF i = 0 THEN <<s>>
                   ELSE <<SubSeq(s, 1, i - 1)>> \o SplitS(SubSeq(s, i + Len(x), Len(s)), x)
RECURSIVE JoinS(_, _)
JoinS(q, x) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o x \o JoinS(Tail(q), x)
ReplaceS(s, x, y) == IF x = "" THEN s ELSE JoinS(SplitS(s, x), y)
Uppers == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Lowers == "abcdefghijklmnopqrstuvwxyz"
RECURSIVE MapCase(_, _, _)
MapCase(s, from, to) ==
  IF s = "" THEN ""
  ELSE LET c == ChAt(s, 1)
           k == FindS(from, c)
       IN (IF k = 0 THEN c ELSE ChAt(to, k)) \o MapCase(SubSeq(s, 2, Len(s)), from, to)
UpperS(s) == MapCase(s, Lowers, Uppers)
LowerS(s) == MapCase(s, Uppers, Lowers)
RECURSIVE DigitsV(_)
DigitsV(s) == IF s = "" THEN 0
              ELSE Plus(Times(10, DigitsV(SubSeq(s, 1, Len(s) - 1))), FindS("0123456789", ChAt(s, Len(s))) - 1)
NumOfText(s) == IF s # "" /\ ChAt(s, 1) = "-" THEN -DigitsV(SubSeq(s, 2, Len(s))) ELSE DigitsV(s)
\* The text a value contributes when texts are put together.
TextOf(v) == IF v.t = "string" THEN v.s ELSE Show(v)
RECURSIVE ConcatV(_)
ConcatV(q) == IF q = <<>> THEN "" ELSE TextOf(Head(q)) \o ConcatV(Tail(q))

-----------------------------------------------------------------------------
(* Functions given to other functions.  A function is [op, c]: what it does   *)
(* and the value it captured where it was written.                            *)
Ap1(f, x) ==
  CASE f.op = "addc"    -> IntV(x.n + f.c.n)
    [] f.op = "subfrom" -> IntV(f.c.n - x.n)
    [] f.op = "mulc"    -> IntV(Times(x.n, f.c.n))
    [] f.op = "id"      -> x
    [] f.op = "gtc"     -> BoolV(x.n > f.c.n)
    [] f.op = "keepgt"  -> IF x.n > f.c.n THEN x ELSE IntV(0)
    [] f.op = "tag"     -> StrV(TextOf(f.c) \o TextOf(x))
    [] f.op = "sfx"     -> StrV(x.s \o f.c.s)
    [] f.op = "len"     -> IntV(Len(x.s))
    [] f.op = "keeplong" -> IF Len(x.s) > f.c.n THEN x ELSE StrV("")
    [] f.op = "namep"   -> GetProp(x, "name")
    [] f.op = "older"   -> SetProp(x, "age", IntV(GetProp(x, "age").n + f.c.n))
    [] f.op = "mkperson" -> StructV("@/person", << <<"name", f.c>>, <<"age", x>> >>)
    [] f.op = "keepname" -> IF GetProp(x, "name") = f.c THEN x ELSE EmptyOf("@/person")
    [] f.op = "row"     -> ListV("intlist", <<x, f.c>>)
Ap2(f, x, y) ==
  CASE f.op = "sub2"   -> IntV(x.n - y.n + f.c.n)
    [] f.op = "add2"   -> IntV(x.n + y.n)
    [] f.op = "cat2"   -> StrV(TextOf(x) \o TextOf(f.c) \o TextOf(y))
    [] f.op = "addlen" -> IntV(x.n + Len(y.s))
    [] f.op = "keyval" -> StrV(TextOf(x) \o "=" \o TextOf(y))
    [] f.op = "valadd" -> IntV(y.n + f.c.n)
    [] f.op = "valsfx" -> StrV(y.s \o f.c.s)
    [] f.op = "rev2"   -> StrV(TextOf(y) \o TextOf(x))
Ap3(f, x, y, z) ==
  CASE f.op = "subadd" -> IntV(x.n + y.n - z.n)
    [] f.op = "mapcat" -> StrV(TextOf(x) \o TextOf(y) \o TextOf(z))
    [] f.op = "mapsub" -> IntV(x.n - z.n)

-----------------------------------------------------------------------------
(* Lists. *)
SliceL(q, a, b) ==
  LET n == Len(q)
      z == IF b < 0 THEN b + n ELSE b
  IN IF a < 1 \/ a > z \/ a > n THEN <<>> ELSE SubSeq(q, a, Min2(z, n))
\* Values given to a list constructor: a list of the same type contributes its items.
RECURSIVE Flat(_, _)
Flat(ty, q) == IF q = <<>> THEN <<>>
               ELSE (IF Head(q).t = ty THEN Head(q).e ELSE <<Head(q)>>) \o Flat(ty, Tail(q))
\* Values a container type does not allow are left out.
Keep(ty, q) == SelectSeq(q, LAMBDA v : Allows(ty, v))
NewList(ty, q) == ListV(ty, Keep(ty, Flat(ty, q)))
ItemL(ty, q, i) == IF i \in 1..Len(q) THEN q[i] ELSE EmptyOf(ty)
MapL(f, q) == [i \in 1..Len(q) |-> Ap1(f, q[i])]
RECURSIVE FilterL(_, _)
FilterL(f, q) == IF q = <<>> THEN <<>>
                 ELSE LET y == Ap1(f, Head(q))
                      IN (IF IsEmptyV(y) THEN <<>> ELSE <<y>>) \o FilterL(f, Tail(q))
RECURSIVE ReduceL(_, _, _)
ReduceL(f, acc, q) == IF q = <<>> THEN acc ELSE ReduceL(f, Ap2(f, acc, Head(q)), Tail(q))
RECURSIVE ReduceNextL(_, _, _)
ReduceNextL(f, acc, q) == IF Len(q) < 2 THEN acc ELSE ReduceNextL(f, Ap3(f, acc, q[1], q[2]), Tail(q))
RECURSIVE JoinL(_)
JoinL(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs).e \o JoinL(Tail(qs))
MinusL(q, r) == SelectSeq(q, LAMBDA v : ~ \E i \in 1..Len(r) : r[i] = v)
InL(q, v) == \E i \in 1..Len(q) : q[i] = v
PosL(q, v) == LET P == {i \in 1..Len(q) : q[i] = v}
              IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
Range(a, b) == IF a <= b THEN [i \in 1..(b - a + 1) |-> IntV(a + i - 1)]
               ELSE [i \in 1..(a - b + 1) |-> IntV(a - i + 1)]
RECURSIVE IterUntil(_, _, _), IterWhile(_, _, _)
IterUntil(f, lim, x) == LET y == Ap1(f, x) IN IF y.n > lim THEN y ELSE IterUntil(f, lim, y)
IterWhile(f, lim, x) == IF x.n < lim THEN IterWhile(f, lim, Ap1(f, x)) ELSE x
RECURSIVE IterUntilMax(_, _, _, _), IterWhileMax(_, _, _, _)
IterUntilMax(f, lim, x, k) == IF k <= 0 THEN x
  ELSE LET y == Ap1(f, x) IN IF y.n > lim THEN y ELSE IterUntilMax(f, lim, y, k - 1)
IterWhileMax(f, lim, x, k) == IF k <= 0 \/ x.n >= lim THEN x ELSE IterWhileMax(f, lim, Ap1(f, x), k - 1)

-----------------------------------------------------------------------------
(* Maps: keys keep the order in which they were first given. *)
RECURSIVE NewMapPairs(_, _, _)
NewMapPairs(ty, m, kvs) ==
  IF kvs = <<>> THEN m
  ELSE NewMapPairs(ty, IF Allows(ty, Head(kvs)[2]) THEN PutKey(m, Head(kvs)[1], Head(kvs)[2]) ELSE m, Tail(kvs))
NewMap(ty, kvs) == MapV(ty, NewMapPairs(ty, <<>>, kvs))
CopyMap(v, kvs) == MapV(v.t, NewMapPairs(v.t, v.m, kvs))
Keys(m) == [i \in 1..Len(m) |-> m[i][1]]
Vals(m) == [i \in 1..Len(m) |-> m[i][2]]
ItemM(ty, m, k) == IF HasKey(m, k) THEN GetKey(m, k) ELSE EmptyOf(ty)
MapM(f, m) == [i \in 1..Len(m) |-> <<m[i][1], Ap2(f, StrV(m[i][1]), m[i][2])>>]
ListM(f, m) == [i \in 1..Len(m) |-> Ap2(f, StrV(m[i][1]), m[i][2])]
RECURSIVE ReduceM(_, _, _)
ReduceM(f, acc, m) == IF m = <<>> THEN acc
                      ELSE ReduceM(f, Ap3(f, acc, StrV(Head(m)[1]), Head(m)[2]), Tail(m))
RECURSIVE PickKeys(_, _)
PickKeys(m, ks) == IF ks = <<>> THEN <<>>
                   ELSE (IF HasKey(m, Head(ks)) THEN << <<Head(ks), GetKey(m, Head(ks))>> >> ELSE <<>>)
                        \o PickKeys(m, Tail(ks))
RECURSIVE PairsBy(_, _)
PairsBy(f, q) == IF q = <<>> THEN <<>> ELSE << <<Ap1(f, Head(q)).s, Head(q)>> >> \o PairsBy(f, Tail(q))

-----------------------------------------------------------------------------
(* Types. *)
TypeName(v) == CASE v.t \in StructTypes -> v.t
                 [] v.t \in ListTypes \cup MapTypes -> IF ChAt(v.t, 1) = "@" THEN v.t ELSE "vx/core/" \o v.t
                 [] OTHER -> "vx/core/" \o v.t
Extends(v) == CASE IsList(v) -> ":list" [] IsMap(v) -> ":map" [] IsStruct(v) -> ":struct" [] OTHER -> ""
\* A value cast to a primitive type it does not have becomes that type's empty value.
Cast(ty, v) == IF v.t = ty THEN v ELSE EmptyOf(ty)

-----------------------------------------------------------------------------
(* Source text that denotes a value. *)
RECURSIVE EscSrc(_)
EscSrc(s) == IF s = "" THEN ""
             ELSE LET c == ChAt(s, 1)
                  IN (CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] OTHER -> c) \o EscSrc(SubSeq(s, 2, Len(s)))
RECURSIVE Src(_), SrcItems(_), SrcPairs(_)
Src(v) ==
  CASE v.t = "string" -> "\"" \o EscSrc(v.s) \o "\""
    [] IsList(v)   -> "(" \o v.t \o SrcItems(v.e) \o ")"
    [] IsMap(v)    -> "(" \o v.t \o SrcPairs(v.m) \o ")"
    [] IsStruct(v) -> "(" \o v.t \o SrcPairs(v.p) \o ")"
    [] OTHER -> Show(v)
SrcItems(q) == IF q = <<>> THEN "" ELSE " " \o Src(Head(q)) \o SrcItems(Tail(q))
SrcPairs(q) == IF q = <<>> THEN "" ELSE " :" \o Head(q)[1] \o " " \o Src(Head(q)[2]) \o SrcPairs(Tail(q))
=============================================================================
