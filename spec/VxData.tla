------------------------------- MODULE VxData -------------------------------
(* The values of the vxlisp language and how they print.                    *)
(*                                                                          *)
(* A value is a record whose field t names its type:                        *)
(*   [t |-> "int",     n |-> integer]                                       *)
(*   [t |-> "dec",     q |-> integer]      the fraction q/4                 *)
(*   [t |-> "nan",     z |-> TRUE]         notanumber                       *)
(*   [t |-> "string",  s |-> text]                                          *)
(*   [t |-> "boolean", b |-> truth]                                         *)
(*   [t |-> listtype,  e |-> sequence of values]                            *)
(*   [t |-> maptype,   m |-> sequence of <<key, value>> in insertion order] *)
(*   [t |-> structtype, p |-> sequence of <<property, value>>, in declared  *)
(*                      order, of the properties that are not empty]        *)
(* Kinds use different field names, so that values of different kinds can   *)
(* be compared.  Names of types that the program declares start with "@/";  *)
(* the replayer puts the name of the declaring package there.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

IntV(x)  == [t |-> "int", n |-> x]
DecV(x)  == [t |-> "dec", q |-> x]
NanV     == [t |-> "nan", z |-> TRUE]
StrV(x)  == [t |-> "string", s |-> x]
BoolV(x) == [t |-> "boolean", b |-> x]
ListV(ty, x)   == [t |-> ty, e |-> x]
MapV(ty, x)    == [t |-> ty, m |-> x]

ListTypes   == {"intlist", "stringlist", "booleanlist", "numberlist", "anylist", "@/personlist"}
MapTypes    == {"intmap", "stringmap", "anymap", "numbermap", "@/personmap"}
StructTypes == {"@/person", "@/point"}

\* Element types each container type allows; "any" allows everything.
Allowed(ty) ==
  CASE ty \in {"intlist", "intmap"}       -> {"int"}
    [] ty \in {"stringlist", "stringmap"} -> {"string"}
    [] ty = "booleanlist"                 -> {"boolean"}
    [] ty \in {"numberlist", "numbermap"} -> {"int", "dec"}
    [] ty \in {"@/personlist", "@/personmap"} -> {"@/person"}
    [] OTHER -> {"any"}
Allows(ty, v) == Allowed(ty) = {"any"} \/ v.t \in Allowed(ty)

\* The type named in the program for an element of a container type.
ElemType(ty) ==
  CASE ty \in {"intlist", "intmap"}       -> "int"
    [] ty \in {"stringlist", "stringmap"} -> "string"
    [] ty = "booleanlist"                 -> "boolean"
    [] ty \in {"numberlist", "numbermap"} -> "number"
    [] ty \in {"@/personlist", "@/personmap"} -> "@/person"
    [] OTHER -> "any"

\* Properties of the struct types, in declared order, with their types.
Props(ty) ==
  CASE ty = "@/person" -> << <<"name", "string">>, <<"age", "int">>, <<"tags", "stringlist">>,
                             <<"boss", "@/person">>, <<"marks", "intmap">> >>
    [] ty = "@/point"  -> << <<"x", "int">>, <<"y", "int">>, <<"label", "string">> >>
PropType(ty, p) == LET s == Props(ty) IN s[CHOOSE i \in 1..Len(s) : s[i][1] = p][2]

EmptyOf(ty) ==
  CASE ty = "int"     -> IntV(0)
    [] ty = "string"  -> StrV("")
    [] ty = "boolean" -> BoolV(FALSE)
    [] ty \in ListTypes   -> [t |-> ty, e |-> <<>>]
    [] ty \in MapTypes    -> [t |-> ty, m |-> <<>>]
    [] ty \in StructTypes -> [t |-> ty, p |-> <<>>]

IsList(v)   == "e" \in DOMAIN v
IsMap(v)    == "m" \in DOMAIN v
IsStruct(v) == "p" \in DOMAIN v
IsEmptyV(v) ==
  CASE v.t = "int"     -> v.n = 0
    [] v.t = "dec"     -> v.q = 0
    [] v.t = "string"  -> v.s = ""
    [] v.t = "boolean" -> ~v.b
    [] v.t = "nan"     -> FALSE
    [] IsList(v)   -> v.e = <<>>
    [] IsMap(v)    -> v.m = <<>>
    [] IsStruct(v) -> v.p = <<>>

-----------------------------------------------------------------------------
(* Association lists: maps and structs. *)
KeyPos(m, k)  == IF \E i \in 1..Len(m) : m[i][1] = k
                 THEN CHOOSE i \in 1..Len(m) : m[i][1] = k ELSE 0
HasKey(m, k)  == KeyPos(m, k) # 0
GetKey(m, k)  == m[KeyPos(m, k)][2]
PutKey(m, k, v) == IF HasKey(m, k) THEN [m EXCEPT ![KeyPos(m, k)] = <<k, v>>]
                   ELSE Append(m, <<k, v>>)
RECURSIVE DropKeys(_, _)
DropKeys(m, ks) == IF m = <<>> THEN <<>>
                   ELSE (IF Head(m)[1] \in ks THEN <<>> ELSE <<Head(m)>>) \o DropKeys(Tail(m), ks)

\* Setting a property keeps the declared order and forgets empty values.
RECURSIVE StructFrom(_, _)
StructFrom(props, f) ==
  IF props = <<>> THEN <<>>
  ELSE LET k == Head(props)[1]
           r == StructFrom(Tail(props), f)
       IN IF HasKey(f, k) /\ ~IsEmptyV(GetKey(f, k)) THEN << <<k, GetKey(f, k)>> >> \o r ELSE r
StructV(ty, f) == [t |-> ty, p |-> StructFrom(Props(ty), f)]
GetProp(v, k)  == IF HasKey(v.p, k) THEN GetKey(v.p, k) ELSE EmptyOf(PropType(v.t, k))
SetProp(v, k, x) == StructV(v.t, PutKey(v.p, k, x))

-----------------------------------------------------------------------------
(* Printing. *)
ChAt(s, i) == SubSeq(s, i, i)
RECURSIVE Spaces(_)
Spaces(k) == IF k <= 0 THEN "" ELSE " " \o Spaces(k - 1)
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN ""
             ELSE (IF ChAt(s, 1) = "\"" THEN "\\\"" ELSE ChAt(s, 1)) \o Escape(SubSeq(s, 2, Len(s)))
HasNl(s) == \E i \in 1..Len(s) : ChAt(s, i) = "\n"

AbsI(x) == IF x < 0 THEN -x ELSE x
PrintDec(x) ==
  LET a == AbsI(x)
      w == ToString(a \div 4)
      f == CASE a % 4 = 0 -> "" [] a % 4 = 1 -> ".25" [] a % 4 = 2 -> ".5" [] OTHER -> ".75"
  IN (IF x < 0 THEN "-" ELSE "") \o w \o f

RECURSIVE PrintI(_, _), PrintItems(_, _), PrintPairs(_, _)
PrintI(v, ind) ==
  CASE v.t = "int"     -> ToString(v.n)
    [] v.t = "dec"     -> PrintDec(v.q)
    [] v.t = "nan"     -> "notanumber"
    [] v.t = "string"  -> "\"" \o Escape(v.s) \o "\""
    [] v.t = "boolean" -> IF v.b THEN "true" ELSE "false"
    [] IsList(v)   -> "(" \o v.t \o PrintItems(v.e, ind + 1) \o ")"
    [] IsMap(v)    -> "(" \o v.t \o PrintPairs(v.m, ind + 1) \o ")"
    [] IsStruct(v) -> "(" \o v.t \o PrintPairs(v.p, ind + 1) \o ")"
PrintItems(s, ind) ==
  IF s = <<>> THEN ""
  ELSE "\n" \o Spaces(ind) \o PrintI(Head(s), ind) \o PrintItems(Tail(s), ind)
PrintPairs(s, ind) ==
  IF s = <<>> THEN ""
  ELSE LET one == PrintI(Head(s)[2], ind + 1)
       IN "\n" \o Spaces(ind) \o ":" \o Head(s)[1]
          \o (IF HasNl(one) THEN "\n" \o Spaces(ind + 1) \o one ELSE " " \o one)
          \o PrintPairs(Tail(s), ind)
Show(v) == PrintI(v, 0)
=============================================================================
