-------------------------------- MODULE VxSuite --------------------------------
(***************************************************************************)
(* The tests written next to declarations.  A package declares types,      *)
(* constants and functions (some under one name); each may have a doc text *)
(* and tests.  The suite made of the packages carries out every test once, *)
(* in the order in which the tests of a declaration are written; a test    *)
(* passes or fails by the values it compares, a package passes when all    *)
(* its tests do, and the coverage counts declarations, those with tests    *)
(* and those with a doc text.  A filter leaves the tests of one name.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Size,      \* number of packages
          Runs,      \* number of runs; the first is without a filter
          OutFile

VARIABLES pkgs,      \* packages: sequences of declarations
          runs,      \* the runs that are over: [filter, ran]
          at,        \* <<package, declaration, test>> carried out next
          ran,       \* per package: <<declaration, test, passed>> in the order they are carried out
          filter,    \* <<>> or <<package, name>>
          phase

vars == <<pkgs, runs, at, ran, filter, phase>>
Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)

(* ----- values ----- *)
Texts == {<<>>, <<"a">>, <<"b c">>, <<"QT">>, <<"a", "NL">>, <<"BS", "n">>, <<"E9">>}
Num(n) == [t |-> "int", n |-> n, s |-> <<>>, b |-> FALSE]
Txt(s) == [t |-> "string", n |-> 0, s |-> s, b |-> FALSE]
Boo(b) == [t |-> "boolean", n |-> 0, s |-> <<>>, b |-> b]
Two(n, m) == [t |-> "list", n |-> n, s |-> <<ToString(m)>>, b |-> FALSE]
Bag(n, m) == [t |-> "bag", n |-> n, s |-> <<ToString(m)>>, b |-> FALSE]
Pet(s, n) == [t |-> "pet", n |-> n, s |-> s, b |-> FALSE]
\* Another value of the same kind.
Other(v, by) == IF v.t = "boolean" THEN Boo(~v.b)
  ELSE IF v.t \in {"string"} \/ (v.t = "pet" /\ by = 1) THEN [v EXCEPT !.s = @ \o <<"x">>]
  ELSE IF v.t \in {"list", "bag"} /\ by = 1 THEN [v EXCEPT !.s = <<"1" \o @[1]>>]
  ELSE [v EXCEPT !.n = @ + by]

(* ----- declarations ----- *)
\* Kinds of function, by what they do with their argument and their number k.
FuncKinds == {"add", "tag", "over", "pair", "make"}
Names == [add |-> {"add", "more", "add-to", "int<-int"}, tag |-> {"tag", "more", "tag-on"}, over |-> {"over", "is-over", "more", "over?"},
          pair |-> {"pair", "pair-up"}, make |-> {"make", "pet<-string", "re-make"}]
\* Names of which the first begins or ends the second.
Alike == {<<"add", "add-to">>, <<"tag", "tag-on">>, <<"over", "is-over">>, <<"over", "over?">>, <<"pair", "pair-up">>, <<"make", "re-make">>, <<"pet", "pet<-string">>}
TakesInt == {"add", "over", "pair"}
Result(d, n, s) == CASE d.f = "add" -> Num(n + d.k) [] d.f = "over" -> Boo(n > d.k) [] d.f = "pair" -> Two(n, d.k)
  [] d.f = "tag" -> Txt(s \o <<"!">>) [] d.f = "make" -> Pet(s, d.k)
  [] d.f = "num" -> Num(d.k) [] d.f = "text" -> Txt(<<"a">>) [] d.f = "bag" -> Bag(n, d.k) [] d.f = "pet" -> Pet(s, n)

Decl(kind, name, f, k, doc) == [kind |-> kind, name |-> name, f |-> f, k |-> k, doc |-> doc, tests |-> <<>>, style |-> 1]
Head1(doc) == <<Decl("type", "pet", "pet", 0, doc)>>
DeclsOf(p) == 1..Len(pkgs[p])
NamesOf(p) == {<<pkgs[p][i].kind, pkgs[p][i].name>> : i \in DeclsOf(p)}

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Written(p) == Sum([i \in DeclsOf(p) |-> Len(pkgs[p][i].tests)])

\* A new package begins; it always has the type its structs are of.
Begin == phase = "draw" /\ Len(pkgs) < Size /\ (IF Len(pkgs) = 0 THEN TRUE ELSE Len(pkgs[Len(pkgs)]) >= 4 /\ Written(Len(pkgs)) >= 7)
  /\ \E doc \in Pick(BOOLEAN) : pkgs' = Append(pkgs, Head1(doc)) /\ UNCHANGED <<runs, at, ran, filter, phase>>
\* Functions of one name differ in what they take: one on a number, one on a text.
Fits(p, f, n) == ~\E i \in DeclsOf(p) : pkgs[p][i].kind = "func" /\ pkgs[p][i].name = n /\ ((pkgs[p][i].f \in TakesInt) = (f \in TakesInt))
AddFunc == phase = "draw" /\ Len(pkgs) > 0 /\ Len(pkgs[Len(pkgs)]) < 7
  /\ \E f \in Pick(FuncKinds) : \E n \in Pick(Names[f]) : \E k \in Pick(1..4) : \E doc \in Pick(BOOLEAN) : \E st \in Pick(1..3) :
     /\ Fits(Len(pkgs), f, n)
     /\ pkgs' = [pkgs EXCEPT ![Len(pkgs)] = Append(@, [Decl("func", n, f, k, doc) EXCEPT !.style = st])]
  /\ UNCHANGED <<runs, at, ran, filter, phase>>
AddOther == phase = "draw" /\ Len(pkgs) > 0 /\ Len(pkgs[Len(pkgs)]) < 7
  /\ \E c \in Pick({<<"const", "seven", "num">>, <<"const", "motto", "text">>, <<"type", "bag", "bag">>}) : \E k \in Pick(0..4) : \E doc \in Pick(BOOLEAN) : \E st \in Pick(1..3) :
     /\ <<c[1], c[2]>> \notin NamesOf(Len(pkgs))
     /\ pkgs' = [pkgs EXCEPT ![Len(pkgs)] = Append(@, [Decl(c[1], c[2], c[3], k, doc) EXCEPT !.style = st])]
  /\ UNCHANGED <<runs, at, ran, filter, phase>>

(* ----- tests ----- *)
\* Those a test may call: what its own package or an earlier one declares; constants only its own.
Callable(p) == {<<q, i>> \in (1..p) \X (1..7) : i <= Len(pkgs[q]) /\ (q = p \/ (pkgs[q][i].kind = "func" /\ pkgs[q][i].f \in {"add", "tag", "over"}))}
Forms(v) == IF v.t = "boolean" THEN {"test-true", "test-false", "test", "test-ne"} ELSE {"test", "test-ne", "test-string"}
Passes(form, want, got) == CASE form = "test" -> want = got [] form = "test-string" -> want = got [] form = "test-ne" -> want # got
  [] form = "test-true" -> got.b [] form = "test-false" -> ~got.b
\* Some packages have only tests that pass.
Calm(p) == p \in {2, 5, 7}
AddTest == phase = "draw" /\ Len(pkgs) > 0
  /\ \E p \in {Len(pkgs)} : \E i \in Pick({x \in DeclsOf(p) : Len(pkgs[p][x].tests) < 5}) : \E far \in Pick(1..6) : \E c \in (IF far = 1 THEN Pick(Callable(p)) ELSE {<<p, i>>}) :
     \E n \in Pick(0..5) : \E s \in Pick(Texts) : \E draw \in Pick(1..3) : \E by \in Pick(1..2) :
     \E got \in {Result(pkgs[c[1]][c[2]], n, s)} : \E form \in Pick({f \in Forms(got) : Calm(p) => f # (IF got.b THEN "test-false" ELSE "test-true")}) :
     \E miss \in {draw = 1 /\ ~Calm(p)} :
     pkgs' = [pkgs EXCEPT ![p][i].tests = Append(@, [form |-> form, call |-> c, n |-> n, s |-> s,
            want |-> IF miss = (form = "test-ne") THEN got ELSE Other(got, by), got |-> got])]
  /\ UNCHANGED <<runs, at, ran, filter, phase>>
Empty == [p \in 1..Size |-> <<>>]
Seal == phase = "draw" /\ Len(pkgs) = Size /\ Len(pkgs[Size]) >= 5 /\ Written(Size) >= 8 /\ phase' = "run" /\ at' = <<1, 1, 1>> /\ ran' = Empty
  /\ UNCHANGED <<pkgs, runs, filter>>

PkgPass(p) == \A i \in 1..Len(ran[p]) : ran[p][i][3]
Chosen(p, i) == filter = <<>> \/ filter = <<ToString(p), pkgs[p][i].name>>
Here == pkgs[at[1]][at[2]]
\* One test is carried out.
Carry == phase = "run" /\ at[1] <= Size /\ at[2] <= Len(pkgs[at[1]]) /\ Chosen(at[1], at[2]) /\ at[3] <= Len(Here.tests)
  /\ ran' = [ran EXCEPT ![at[1]] = Append(@, <<at[2], at[3], Passes(Here.tests[at[3]].form, Here.tests[at[3]].want, Here.tests[at[3]].got)>>)]
  /\ at' = [at EXCEPT ![3] = @ + 1] /\ UNCHANGED <<pkgs, runs, filter, phase>>
NextDecl == phase = "run" /\ at[1] <= Size /\ at[2] <= Len(pkgs[at[1]]) /\ (~Chosen(at[1], at[2]) \/ at[3] > Len(Here.tests))
  /\ at' = <<at[1], at[2] + 1, 1>> /\ UNCHANGED <<pkgs, runs, ran, filter, phase>>
NextPkg == phase = "run" /\ at[1] <= Size /\ at[2] > Len(pkgs[at[1]]) /\ at' = <<at[1] + 1, 1, 1>> /\ UNCHANGED <<pkgs, runs, ran, filter, phase>>
Over == phase = "run" /\ at[1] > Size
Saved == Append(runs, [filter |-> filter, ran |-> ran, pass |-> [p \in 1..Size |-> PkgPass(p)]])
\* The suite is made again for one name: of a drawn declaration, most often one with tests, best of all
\* one whose name is a part of the name of another with tests.
Near(p) == {j \in DeclsOf(p) : \E x \in DeclsOf(p) : <<pkgs[p][j].name, pkgs[p][x].name>> \in Alike /\ pkgs[p][x].tests # <<>>}
Again == Over /\ Len(runs) + 1 < Runs
  /\ \E p \in Pick(1..Size) : \E i \in Pick(DeclsOf(p)) : \E j \in Pick(IF Near(p) # {} /\ <<ToString(p), pkgs[p][CHOOSE x \in Near(p) : TRUE].name>> \notin {runs[r].filter : r \in DOMAIN runs} THEN Near(p)
                                                            ELSE {x \in DeclsOf(p) : pkgs[p][x].tests # <<>>} \cup {i}) :
     filter' = <<ToString(p), pkgs[p][j].name>>
  /\ runs' = Saved /\ at' = <<1, 1, 1>> /\ ran' = Empty /\ UNCHANGED <<pkgs, phase>>
Finish == Over /\ Len(runs) + 1 = Runs /\ runs' = Saved /\ phase' = "done" /\ UNCHANGED <<pkgs, at, ran, filter>>

Init == pkgs = <<>> /\ runs = <<>> /\ at = <<1, 1, 1>> /\ ran = <<>> /\ filter = <<>> /\ phase = "draw"
Next == Begin \/ AddFunc \/ AddOther \/ AddTest \/ Seal \/ Carry \/ NextDecl \/ NextPkg \/ Again \/ Finish
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Of(p, kind) == {i \in DeclsOf(p) : pkgs[p][i].kind = kind}
Tested(p, S) == {i \in S : pkgs[p][i].tests # <<>>}
Pct(n, m) == IF m = 0 THEN 100 ELSE (n * 100) \div m
Nums(p, S) == <<Pct(Cardinality(Tested(p, S)), Cardinality(S)), Cardinality(Tested(p, S)), Cardinality(S)>>
Docs(p) == LET n == Cardinality({i \in DeclsOf(p) : pkgs[p][i].doc}) IN <<Pct(n, Len(pkgs[p])), n, Len(pkgs[p])>>

OnceInv == Over => \A p \in 1..Size :
  /\ \A i \in DeclsOf(p) : \A j \in 1..Len(pkgs[p][i].tests) : Cardinality({r \in 1..Len(ran[p]) : ran[p][r][1] = i /\ ran[p][r][2] = j}) = IF Chosen(p, i) THEN 1 ELSE 0
  /\ \A r \in 1..Len(ran[p]) : ran[p][r][1] \in DeclsOf(p)
CoverInv == phase = "done" => \A p \in 1..Size : \A k \in {"type", "const", "func"} :
  LET n == Nums(p, Of(p, k)) IN n[2] <= n[3] /\ n[1] \in 0..100 /\ (n[1] = 100 <=> n[2] = n[3])
CalmInv == Over => \A p \in 1..Size : Calm(p) => PkgPass(p)
OppositeInv == phase = "done" => \A p \in 1..Size : \A i \in DeclsOf(p) : \A j \in 1..Len(pkgs[p][i].tests) :
  LET t == pkgs[p][i].tests[j] IN Passes("test", t.want, t.got) # Passes("test-ne", t.want, t.got) /\ (t.got.t = "boolean" => Passes("test-true", t.want, t.got) # Passes("test-false", t.want, t.got))

Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([
   pkgs |-> pkgs, runs |-> runs,
   nums |-> [p \in 1..Size |-> [type |-> Nums(p, Of(p, "type")), const |-> Nums(p, Of(p, "const")), func |-> Nums(p, Of(p, "func")), doc |-> Docs(p), total |-> Nums(p, DeclsOf(p))]]])>>, OutFile)
=============================================================================
