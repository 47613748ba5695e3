-------------------------------- MODULE VxDoc --------------------------------
(***************************************************************************)
(* The documentation page.  Packages declare types, constants and          *)
(* functions with texts about them; names recur between packages and, for  *)
(* functions, within one.  The page is written one declaration after the   *)
(* other: an entry with the texts as written, and for every type that is   *)
(* named a link to the entry of that very type.  A reader who follows any  *)
(* link lands on the one entry it is about.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Size,      \* number of packages
          Most,      \* most declarations of one package
          OutFile

VARIABLES pkgs,      \* packages: [doc, decls]
          page,      \* entries: [id, links]
          at,        \* <<package, declaration>> written next
          phase

vars == <<pkgs, page, at, phase>>
Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)

(* ----- texts: pieces that mean something to a page or a program ----- *)
Pieces == {"a", "b c", "LT", "GT", "AMP", "AMPLT", "QT", "SQ", "NL", "CLOSE", "ENDC", "ENDDIV", "DASH", "E9", "TAB", "SEMI", "BRACE", "SLASH"}
Text(k) == LET r == RandomElement(1..(8 + 0 * k)) IN
  IF r = 1 THEN <<>> ELSE [i \in 1..RandomElement(1..(4 + 0 * k)) |-> RandomElement(Pieces)]

(* ----- declarations ----- *)
TypeNames == {"pet", "bag", "box", "item", "list-of"}
ConstNames == {"seven", "motto", "pet-age"}
FuncNames == {"add", "is-over?", "pet<-int", "int<-string", "a-b", "more"}
ParamNames == {"num", "val", "ok?", "rest"}
CoreTypes == {"int", "string", "boolean", "intlist", "any", "stringmap"}
NoRef == [pkg |-> 0, name |-> ""]
Core(n) == [pkg |-> 0, name |-> n]
Decl(kind, name, form, doc, alias) == [kind |-> kind, name |-> name, form |-> form, doc |-> doc, alias |-> alias,
  ref |-> NoRef, more |-> <<>>, bars |-> <<>>, rows |-> <<>>, tests |-> <<>>, note |-> 1, over |-> 0]
TypesOf(p) == {pkgs[p].decls[i].name : i \in {j \in 1..Len(pkgs[p].decls) : pkgs[p].decls[j].kind = "type"}}
Last == Len(pkgs)
Named(p, kind, name) == {i \in 1..Len(pkgs[p].decls) : pkgs[p].decls[i].kind = kind /\ pkgs[p].decls[i].name = name}
\* What may be named in the last package: its own types, those of earlier ones, those of the library.
Refs == {Core(n) : n \in CoreTypes} \cup {[pkg |-> q, name |-> n] : q \in 1..Last, n \in TypeNames}
Known == {r \in Refs : r.pkg = 0 \/ r.name \in TypesOf(r.pkg)}
\* Own and foreign types are drawn as often as those of the library.
Refer(k) == LET mine == {r \in Known : r.pkg # 0} IN
  IF mine # {} /\ RandomElement(1..(2 + 0 * k)) = 1 THEN RandomElement(mine) ELSE RandomElement({r \in Known : r.pkg = 0})
\* Further types that are allowed, and types that are not.
Refers(sizes, k) == [i \in 1..(CHOOSE x \in sizes : TRUE) |-> Refer(i + k)]

Put(d) == pkgs' = [pkgs EXCEPT ![Last].decls = Append(@, d)] /\ UNCHANGED <<page, at, phase>>
Room == phase = "draw" /\ Last > 0 /\ Len(pkgs[Last].decls) < Most
Begin == phase = "draw" /\ Last < Size /\ (IF Last = 0 THEN TRUE ELSE Len(pkgs[Last].decls) = Most)
  /\ \E doc \in {Text(1)} : pkgs' = Append(pkgs, [doc |-> doc, decls |-> <<>>]) /\ UNCHANGED <<page, at, phase>>
Alias(k) == IF RandomElement(1..(4 + 0 * k)) = 1 THEN "other" \o ToString(Len(pkgs[Last].decls)) ELSE ""
Rows(names, k) == LET order == RandomElement({f \in [1..RandomElement(1..(3 + 0 * k)) -> names] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]})
  IN [i \in DOMAIN order |-> [name |-> order[i], ref |-> Refer(i), doc |-> Text(i), last |-> FALSE]]
AddStruct == Room /\ \E n \in Pick(TypeNames \ TypesOf(Last)) : \E d \in {Text(1)} : \E rows \in {Rows({"name", "size", "next"}, 1)} : \E dflt \in Pick(BOOLEAN) : \E note \in Pick(1..3) :
  Put([Decl("type", n, "struct", d, "") EXCEPT !.rows = [rows EXCEPT ![Len(rows)].last = dflt], !.note = note])
AddList == Room /\ \E n \in Pick(TypeNames \ TypesOf(Last)) : \E d \in {Text(1)} : \E r \in {Refer(1)} : \E f \in Pick({"list", "map"}) : \E note \in Pick(1..3) :
  \E more \in {Refers(Pick(0..2), 1)} : \E bars \in {Refers(Pick(0..2), 2)} :
  Put([Decl("type", n, f, d, "") EXCEPT !.ref = r, !.more = more, !.bars = bars, !.note = note])
AddConst == Room /\ \E n \in Pick({x \in ConstNames : Named(Last, "const", x) = {}}) : \E d \in {Text(1)} : \E f \in Pick({"int", "string"}) : \E note \in Pick(1..3) :
  Put([Decl("const", n, f, d, "") EXCEPT !.ref = Core(f), !.note = note])
\* Functions of one name differ in the number of parameters.
AddFunc == Room /\ \E n \in Pick(FuncNames) : \E d \in {Text(1)} : \E al \in {Alias(1)} : \E ret \in Pick({"int", "string", "boolean"}) :
  \E rows \in {Rows(ParamNames, 2)} : \E note \in Pick(1..3) : \E tests \in Pick(0..2) :
  /\ ~\E i \in Named(Last, "func", n) : Len(pkgs[Last].decls[i].rows) = Len(rows)
  /\ Put([Decl("func", n, ret, d, al) EXCEPT !.ref = Core(ret), !.rows = rows, !.note = note, !.over = Cardinality(Named(Last, "func", n)),
         !.tests = [i \in 1..tests |-> [text |-> Text(i)]]])
Seal == phase = "draw" /\ Last = Size /\ Len(pkgs[Last].decls) = Most /\ phase' = "write" /\ at' = <<1, 0>> /\ UNCHANGED <<pkgs, page>>

(* ----- the page ----- *)
Id(kind, p, name, over) == <<kind, ToString(p), name, ToString(over)>>
Target(r) == Id("type", r.pkg, r.name, 0)
Links(d) == {Target(d.rows[i].ref) : i \in DOMAIN d.rows} \cup {Target(d.more[i]) : i \in DOMAIN d.more} \cup {Target(d.bars[i]) : i \in DOMAIN d.bars} \cup (IF d.ref = NoRef THEN {} ELSE {Target(d.ref)})
WritePkg == phase = "write" /\ at[1] <= Size /\ at[2] = 0
  /\ page' = Append(page, [id |-> Id("pkg", at[1], "", 0), links |-> {Id(d.kind, at[1], d.name, d.over) : d \in {pkgs[at[1]].decls[i] : i \in 1..Len(pkgs[at[1]].decls)}}])
  /\ at' = <<at[1], 1>> /\ UNCHANGED <<pkgs, phase>>
WriteDecl == phase = "write" /\ at[1] <= Size /\ at[2] > 0 /\ at[2] <= Len(pkgs[at[1]].decls)
  /\ \E d \in {pkgs[at[1]].decls[at[2]]} : page' = Append(page, [id |-> Id(d.kind, at[1], d.name, d.over), links |-> Links(d)])
  /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED <<pkgs, phase>>
NextPkg == phase = "write" /\ at[1] <= Size /\ at[2] > Len(pkgs[at[1]].decls) /\ at[2] > 0 /\ at' = <<at[1] + 1, 0>> /\ UNCHANGED <<pkgs, page, phase>>
Done == phase = "write" /\ at[1] > Size /\ phase' = "done" /\ UNCHANGED <<pkgs, page, at>>

Init == pkgs = <<>> /\ page = <<>> /\ at = <<1, 0>> /\ phase = "draw"
Next == Begin \/ AddStruct \/ AddList \/ AddConst \/ AddFunc \/ Seal \/ WritePkg \/ WriteDecl \/ NextPkg \/ Done
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Ids == {page[i].id : i \in DOMAIN page}
\* One entry for each declaration, each under an id of its own.
OnceInv == phase = "done" => Cardinality(Ids) = Len(page) /\ Len(page) = Size * (Most + 1)
\* Every link leads to an entry of the page or of the library.
LandInv == phase = "done" => \A i \in DOMAIN page : \A l \in page[i].links : l \in Ids \/ l[2] = "0"
\* From its package, every declaration is one step away.
ReachInv == phase = "done" => \A i \in DOMAIN page : page[i].id[1] # "pkg" =>
  \E j \in DOMAIN page : page[j].id[1] = "pkg" /\ page[j].id[2] = page[i].id[2] /\ page[i].id \in page[j].links

Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([pkgs |-> pkgs, page |-> page])>>, OutFile)
=============================================================================
