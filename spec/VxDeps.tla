-------------------------------- MODULE VxDeps ---------------------------------
(***************************************************************************)
(* Packages that use each other.  A project is sound when every library    *)
(* its packages name exists and none uses itself, directly or through      *)
(* others; then it does not matter in which order the files are found, and *)
(* a name with a library in front means the one of that library.           *)
(*                                                                         *)
(* Packages are put in order in rounds: a round takes every package all of *)
(* whose libraries were taken before.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Mode,      \* "all": every graph on three packages; "drawn": larger ones
          Size, OutFile

VARIABLES uses,      \* set of <<p, q>>: package p uses package q; q = Size + 1 does not exist
          taken,     \* packages put in order so far
          rounds,    \* the rounds
          phase

vars == <<uses, taken, rounds, phase>>
Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
Nodes == 1..Size
Lost == Size + 1
Libs(p) == {q \in Nodes \cup {Lost} : <<p, q>> \in uses}

TakeAll == phase = "draw" /\ Mode = "all" /\ \E e \in SUBSET (Nodes \X Nodes) : uses' = e /\ phase' = "order" /\ UNCHANGED <<taken, rounds>>
\* In every way a package of a sound graph on three may name a library that does not exist.
TakeLost == phase = "draw" /\ Mode = "all" /\ \E p \in Nodes : \E e \in SUBSET {<<a, b>> \in Nodes \X Nodes : a < b} :
  uses' = e \cup {<<p, Lost>>} /\ phase' = "order" /\ UNCHANGED <<taken, rounds>>
\* Drawn graphs: along a drawn order, so that many are sound, with now and then one use too many.
DrawOne == phase = "draw" /\ Mode = "drawn" /\ \E o \in Pick(Permutations(Nodes)) : \E dense \in Pick(1..3) : \E back \in Pick(1..5) :
  \E e \in {RandomSubset(dense * Size - 2, Nodes \X Nodes)} : \E w \in {RandomSubset(1, Nodes \X Nodes)} :
  /\ uses' = {x \in e : o[x[1]] > o[x[2]]} \cup (IF back = 1 THEN w ELSE {})
  /\ phase' = "order" /\ UNCHANGED <<taken, rounds>>

Ready == {p \in Nodes \ taken : Libs(p) \subseteq taken}
Round == phase = "order" /\ Ready # {} /\ taken' = taken \cup Ready /\ rounds' = Append(rounds, Ready) /\ UNCHANGED <<uses, phase>>
Stop == phase = "order" /\ Ready = {} /\ phase' = "done" /\ UNCHANGED <<uses, taken, rounds>>

Init == uses = {} /\ taken = {} /\ rounds = <<>> /\ phase = "draw"
Next == TakeAll \/ TakeLost \/ DrawOne \/ Round \/ Stop
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sound == taken = Nodes
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {Libs(p) : p \in S \ {Lost}}, n - 1)
From(p) == Reach(Libs(p), Size)
\* Sound, put in order, is the same as without a circle and without a lost library.
OrderInv == phase = "done" => (Sound <=> \A p \in Nodes : p \notin From(p) /\ Lost \notin From(p))
\* Exactly the packages that depend on a circle or on a lost library are left over.
LeftInv == phase = "done" => \A p \in Nodes : p \notin taken <=> (Lost \in From(p) \cup {} \/ \E q \in (From(p) \cup {p}) \cap Nodes : q \in From(q))

\* What the function of package p computes: its own number and what it gets from the libraries.
RECURSIVE Worth(_), SumOf(_)
SumOf(S) == IF S = {} THEN 0 ELSE LET q == CHOOSE q \in S : TRUE IN Worth(q) + 10 * q + SumOf(S \ {q})
Worth(p) == p + SumOf(Libs(p))
Circle == {p \in Nodes : p \in From(p)}

Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([
   uses |-> uses, sound |-> Sound, circle |-> Circle, left |-> Nodes \ taken, n |-> Size, lost |-> {p \in Nodes : Lost \in Libs(p)},
   worth |-> IF Sound THEN [p \in Nodes |-> Worth(p)] ELSE [p \in Nodes |-> 0]])>>, OutFile)
=============================================================================
