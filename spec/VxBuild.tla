-------------------------------- MODULE VxBuild --------------------------------
(***************************************************************************)
(* Building a project: which files a run of the compiler writes, and when  *)
(* it writes none.                                                         *)
(*                                                                         *)
(* A project is its source files (package "two" uses package "one") and    *)
(* its commands.                                                           *)
(* The state of a history is the version of every source and what lies     *)
(* under the output folders.  A history edits, breaks, mends and removes   *)
(* sources, meddles with outputs, and runs commands.                       *)
(*                                                                         *)
(* The content of a file is a token: what it has to depend on and nothing  *)
(* else.  Equal tokens stand for equal bytes, in every history, wherever   *)
(* and whenever the run happens; tokens of one file that differ in the     *)
(* version of its source stand for different bytes.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Mode,      \* "errors": one error at a time; "faults", "edits", "orders": drawn histories
          Runs,      \* runs of a drawn history
          OutFile

VARIABLES src,       \* package -> version of its source: a good one, a bad one or "none"
          prj,       \* version of the project file
          disk,      \* <<folder, file>> -> token, for what lies under the outputs
          log,       \* the steps so far
          phase

vars == <<src, prj, disk, log, phase>>

Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
One(S) == CHOOSE x \in RandomSubset(1, S) : TRUE

-----------------------------------------------------------------------------
Packages == {"one", "two", "three"}
Uses(p) == IF p = "two" THEN {"one"} ELSE {}
\* "a" and "b" differ in one symbol; "c" is longer.
Good == {"a", "b", "c"}
\* unread: brackets do not match; head: no package form; word: unknown keyword in a declaration;
\* name: an unknown function is called; ref: an unknown value is used; type: an unknown type; count: an
\* argument too few; more: an argument too many; kind: an argument of another type; result: a body of another
\* type; lib: an unknown library; round: libraries that use each other; test: a test calls an unknown function.
Bad == {"unread", "head", "word", "name", "ref", "type", "count", "more", "kind", "result", "lib", "round", "test"}

\* The commands of the project file, in order.  d: the output folder.
Cmd(n, code, lang, d, main) == [n |-> n, code |-> code, lang |-> lang, d |-> d, main |-> main]
Cmds == <<
  Cmd("js", "source", "js", "js", ""),
  Cmd("java", "source", "java", "java", ""),
  Cmd("cpp", "source", "cpp", "cpp", ""),
  Cmd("testjs", "test", "js", "testjs", ""),
  Cmd("testjava", "test", "java", "testjava", ""),
  Cmd("testcpp", "test", "cpp", "testcpp", ""),
  Cmd("page", "doc", "", "page", ""),
  Cmd("start", "source", "js", "start", "start"),
  Cmd("both", "source", "js", "both1", ""),
  Cmd("both", "doc", "", "both2", ""),
  Cmd("both", "test", "js", "both3", ""),
  Cmd("alias", "source", "js", "alias", ""),
  Cmd("inner", "source", "java", "inner", ""),
  Cmd("js2", "source", "js", "js2", ""),
  Cmd("csharp", "source", "csharp", "csharp", ""),
  Cmd("kotlin", "source", "kotlin", "kotlin", ""),
  Cmd("nolang", "source", "", "no1", ""),
  Cmd("oddlang", "source", "odd", "no2", ""),
  Cmd("nocode", "", "js", "no3", ""),
  Cmd("nomain", "source", "js", "no4", "nosuch") >>
Sound(c) == c.code \in {"source", "test", "doc"} /\ (c.code = "doc" \/ c.lang \notin {"", "odd"}) /\ c.main # "nosuch"
Names == {Cmds[i].n : i \in 1..Len(Cmds)} \cup {"nosuch"}
SoundNames == {n \in Names : (\E i \in 1..Len(Cmds) : Cmds[i].n = n) /\ \A i \in 1..Len(Cmds) : Cmds[i].n = n => Sound(Cmds[i])}
Folders == {Cmds[i].d : i \in 1..Len(Cmds)}
Range(s) == {s[i] : i \in 1..Len(s)}

-----------------------------------------------------------------------------
Present == {p \in Packages : src[p] # "none"}
\* What is wrong with the sources, whatever is asked for.
SourceError == prj # "a" \/ \E p \in Present : src[p] \in Bad \/ ~ Uses(p) \subseteq Present
\* What is wrong with what is asked for.
OrderError(names) == \E k \in 1..Len(names) :
  names[k] \notin SoundNames \/ (names[k] = "start" /\ "one" \notin Present)
Error(names) == SourceError \/ OrderError(names)

Kind(c) == c.code \o " " \o c.lang
\* What a command writes, and what each of these files depends on.
Files(c) == IF c.code = "doc" THEN {"page"} ELSE {"app", "library"} \cup Present
Token(c, f) ==
  CASE f = "page" -> [k |-> Kind(c), f |-> f, v |-> src["one"] \o src["two"] \o src["three"], m |-> "", s |-> Present]
    [] f = "app" -> [k |-> Kind(c), f |-> f, v |-> "", m |-> c.main, s |-> Present]
    [] f = "library" -> [k |-> Kind(c), f |-> f, v |-> "", m |-> "", s |-> {}]
    [] OTHER -> [k |-> Kind(c), f |-> f, v |-> src[f], m |-> "", s |-> {}]
Junk(how) == [k |-> "junk", f |-> "", v |-> how, m |-> "", s |-> {}]

Asked(names) == {i \in 1..Len(Cmds) : Cmds[i].n \in Range(names)}
Wanted(names) == UNION {{<<Cmds[i].d, f>> : f \in Files(Cmds[i])} : i \in Asked(names)}
CmdOf(w, names) == Cmds[CHOOSE i \in Asked(names) : Cmds[i].d = w[1]]
Want(names) == [w \in Wanted(names) |-> Token(CmdOf(w, names), w[2])]
After(names) == IF Error(names) THEN disk ELSE Want(names) @@ disk
\* The files a run has to write; it leaves alone those that are right already.
Written(names) == IF Error(names) THEN {} ELSE {w \in Wanted(names) : w \notin DOMAIN disk \/ disk[w] # Want(names)[w]}

-----------------------------------------------------------------------------
Step(r) == log' = Append(log, r)
Ran == Cardinality({i \in 1..Len(log) : log[i].a = "run"})
Seen(d) == {[w |-> w, t |-> d[w]] : w \in DOMAIN d}
DoRun(names, how) ==
  /\ disk' = After(names)
  /\ Step([a |-> "run", names |-> names, how |-> how, bad |-> Error(names), disk |-> Seen(After(names)), written |-> Written(names)])
  /\ UNCHANGED <<src, prj>>

Open == phase = "open" /\ Ran < Runs
\* Where the path goes in the command line, how it is spelt and from where the compiler is run.
Hows == [at : {"first", "last", "middle"}, word : {"--path", ":path"}, spelt : {"whole", "relative"}]
SomeNames == {<<x, y>> : x \in SoundNames, y \in SoundNames}
DrawNames(k) ==
  IF k = 1 THEN {<<x>> : x \in Pick(SoundNames)}
  ELSE IF k = 2 THEN {<<x, y>> : x \in Pick(SoundNames), y \in Pick(SoundNames)}
  ELSE {<<x, y, z>> : x \in Pick(SoundNames), y \in Pick(SoundNames), z \in Pick(SoundNames)}
\* What an odd order is: sound names with one that cannot be carried out among them.
OddNames(k) ==
  IF k = 1 THEN {<<x>> : x \in Pick(Names \ SoundNames)}
  ELSE IF k = 2 THEN {<<x, y>> : x \in Pick(SoundNames), y \in Pick(Names \ SoundNames)}
  ELSE {<<x, y>> : x \in Pick(Names \ SoundNames), y \in Pick(SoundNames)}

RunSound == Open /\ \E k \in Pick(1..3) : \E names \in DrawNames(k) : \E how \in Pick(Hows) : DoRun(names, how) /\ UNCHANGED phase
RunOdd == Open /\ Mode \in {"faults", "orders"} /\ \E k \in Pick(1..3) : \E names \in OddNames(k) : \E how \in Pick(Hows) : DoRun(names, how) /\ UNCHANGED phase
Again == Open /\ Ran > 0 /\ \E i \in Pick({j \in 1..Len(log) : log[j].a = "run"}) : \E how \in Pick(Hows) : DoRun(log[i].names, how) /\ UNCHANGED phase

Quiet == log # <<>> /\ log[Len(log)].a # "run"   \* at most two changes between runs
Change == Open /\ ~ (Quiet /\ Len(log) > 1 /\ log[Len(log) - 1].a # "run")
Put(p, v) == src' = [src EXCEPT ![p] = v] /\ Step([a |-> "source", p |-> p, v |-> v]) /\ UNCHANGED <<prj, disk, phase>>
Edit == Change /\ \E p \in Pick(Packages) : \E v \in Pick(Good \ {src[p]}) : Put(p, v)
Remove == Change /\ \E p \in Pick({q \in Packages : src[q] # "none"}) : Put(p, "none")
Break == Change /\ Mode = "faults" /\ ~ SourceError /\ \E p \in Pick(Packages) : \E v \in Pick(Bad) : Put(p, v)
Mend == Change /\ \E p \in Pick({q \in Packages : src[q] \in Bad \cup {"none"}}) : \E v \in Pick(Good) : Put(p, v)
Project == Change /\ Mode = "faults" /\ prj' = (IF prj = "a" THEN One({"unread", "word", "away", "sub"}) ELSE "a")
           /\ Step([a |-> "project", v |-> prj']) /\ UNCHANGED <<src, disk, phase>>
\* Somebody else writes where the outputs are.
Marks == {"one symbol", "cut", "longer", "empty", "blank"}
Meddle == Change /\ DOMAIN disk # {} /\ \E w \in Pick(DOMAIN disk) : \E how \in Pick(Marks) :
  /\ disk[w].k # "junk"
  /\ disk' = [disk EXCEPT ![w] = Junk(how)] /\ Step([a |-> "meddle", w |-> w, how |-> how]) /\ UNCHANGED <<src, prj, phase>>
Delete == Change /\ DOMAIN disk # {} /\ \E w \in Pick(DOMAIN disk) :
  /\ disk' = [x \in DOMAIN disk \ {w} |-> disk[x]] /\ Step([a |-> "delete", w |-> w]) /\ UNCHANGED <<src, prj, phase>>
Foreign == Change /\ \E d \in Pick(Folders) :
  /\ <<d, "foreign">> \notin DOMAIN disk
  /\ disk' = (<<d, "foreign">> :> Junk("foreign")) @@ disk /\ Step([a |-> "foreign", w |-> <<d, "foreign">>]) /\ UNCHANGED <<src, prj, phase>>

\* A history ends with a run that shows the state everything ended in.
Stop == phase = "open" /\ Ran = Runs /\ phase' = "done" /\ UNCHANGED <<src, prj, disk, log>>

\* One error at a time, on top of a finished build: sources first, then orders.
First == Mode = "errors" /\ phase = "start" /\ DoRun(<<"js", "page">>, [at |-> "first", word |-> ":path", spelt |-> "whole"]) /\ phase' = "built"
OneBad == Mode = "errors" /\ phase = "built" /\ \E p \in Packages : \E v \in Bad \cup {"none"} : \E q \in Packages \ {p} : \E w \in {"b"} :
  /\ src' = [src EXCEPT ![p] = v, ![q] = w] /\ phase' = "broken"
  /\ log' = log \o <<[a |-> "source", p |-> p, v |-> v], [a |-> "source", p |-> q, v |-> w]>> /\ UNCHANGED <<prj, disk>>
OneProject == Mode = "errors" /\ phase = "built" /\ \E v \in {"unread", "word", "away", "sub"} :
  prj' = v /\ Step([a |-> "project", v |-> v]) /\ phase' = "broken" /\ UNCHANGED <<src, disk>>
OneOrder == Mode = "errors" /\ phase = "built" /\ \E x \in Names \ SoundNames : \E names \in {<<x>>, <<"js2", x>>, <<x, "js2">>, <<"js2", x, "page">>} :
  /\ log' = Append(log, [a |-> "run", names |-> names, how |-> [at |-> "last", word |-> "--path", spelt |-> "whole"], bad |-> Error(names), disk |-> Seen(disk), written |-> {}])
  /\ phase' = "done" /\ UNCHANGED <<src, prj, disk>>
Try == Mode = "errors" /\ phase = "broken" /\ DoRun(<<"js2", "page", "testjs", "java">>, [at |-> "last", word |-> "--path", spelt |-> "whole"]) /\ phase' = "done"

Init == src = [p \in Packages |-> "a"] /\ prj = "a" /\ disk = <<>> /\ log = <<>> /\ phase = (IF Mode = "errors" THEN "start" ELSE "open")
Next == RunSound \/ RunOdd \/ Again \/ Edit \/ Remove \/ Break \/ Mend \/ Project \/ Meddle \/ Delete \/ Foreign \/ Stop
        \/ First \/ OneBad \/ OneProject \/ OneOrder \/ Try
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A run with an error leaves everything as it was; one without leaves every file it was asked for right.
Last == log[Len(log)]
RunInv == (log # <<>> /\ Last.a = "run") =>
  /\ Last.bad => Last.written = {}
  /\ Last.bad = Error(Last.names)
  /\ ~ Last.bad => \A w \in Wanted(Last.names) : disk[w] = Want(Last.names)[w] /\ disk[w].v \notin Bad
\* Nothing under the outputs was ever generated from a bad source.
CleanInv == \A w \in DOMAIN disk : disk[w].v \notin Bad
\* No two commands write one file.
ApartInv == \A i, j \in 1..Len(Cmds) : i # j => Cmds[i].d # Cmds[j].d

Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson(log)>>, OutFile)
=============================================================================
