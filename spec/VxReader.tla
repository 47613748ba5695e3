------------------------------ MODULE VxReader ------------------------------
(* How source text is read.                                                   *)
(*                                                                            *)
(* A document is a sequence of symbols: delimiters, blanks and runs of plain  *)
(* characters.  A behaviour draws a form, writes it down symbol by symbol     *)
(* with blanks and comments of every kind between its tokens, and may then    *)
(* damage it.  Read is the reader: it gives the forms of a document, or says  *)
(* that the document is malformed.  Worth gives the text a form computes.     *)
(*                                                                            *)
(* What the writer meant and what Read gives are defined independently;       *)
(* ReadInv says that they agree on every layout.                              *)
(*                                                                            *)
(*   Mode = "layout":  simulation over forms and layouts.                     *)
(*   Mode = "gaps":    one form with every kind of gap at every place.        *)
(*   Mode = "texts":   every text in every style of quoting.                  *)
(*   Mode = "damage":  every single damage of one document.                   *)
(*   Mode = "random damage": simulation, several damages of drawn documents.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Randomization, CSV, Json

CONSTANTS Mode, Kind, OutFile

VARIABLES tree, toks, doc, damage, got, phase
vars == <<tree, toks, doc, damage, got, phase>>

Pick(X) == IF X = {} THEN {} ELSE RandomSubset(1, X)
One(X) == RandomElement(X)
Value(X) == CHOOSE x \in X : TRUE
Random == Mode \in {"layout", "random damage"}

-----------------------------------------------------------------------------
(* Symbols with a meaning of their own; all others are plain. *)
Blank == {" ", "TAB", "NL", "CR"}
Openers == {"(", "[", "{"}
Closers == {")", "]", "}"}
Pair(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] OTHER -> "}"
Width(c) == IF c \in {"TAB", "NL", "CR", "QT", "BQ", "BS", "E9", "LDQ", "RDQ"} THEN 1 ELSE Len(c)

Node(k, x, q) == [k |-> k, x |-> x, q |-> q]
Word(s) == Node("w", <<s>>, <<>>)
Text(s) == Node("t", s, <<>>)
Form(q) == Node("(", <<>>, q)
Square(q) == Node("[", <<>>, q)

-----------------------------------------------------------------------------
(* The reader.  st: mode, the open forms with what they hold, the word or     *)
(* text read so far, the column, and whether a blank or delimiter came last.  *)
RECURSIVE Ends(_)
\* Line ends are written NL, CR NL or CR.
Ends(d) == IF d = <<>> THEN <<>>
           ELSE IF Head(d) # "CR" THEN <<Head(d)>> \o Ends(Tail(d))
           ELSE <<"NL">> \o Ends(IF Len(d) > 1 /\ d[2] = "NL" THEN Tail(Tail(d)) ELSE Tail(d))
Start == [m |-> "top", open |-> <<>>, q |-> << <<>> >>, w |-> <<>>, col |-> 0, last |-> "", tcol |-> 0, v |-> "ok"]
Bad(st) == [st EXCEPT !.v = "bad"]
Unclear(st) == [st EXCEPT !.v = "unclear"]
Item(st, n) == [st EXCEPT !.q = [@ EXCEPT ![Len(@)] = Append(@, n)]]
EndWord(st) == IF st.w = <<>> THEN st ELSE [Item(st, Node("w", st.w, <<>>)) EXCEPT !.w = <<>>]
InForm(st) == IF st.open = <<>> THEN "top" ELSE "form"
RECURSIVE Lines(_, _, _), Unescape(_)
\* Lines after the first lose the blanks that are below the opening quote.
Spaces(n) == [i \in 1..n |-> " "]
Lines(x, n, cur) ==
  LET fit(l) == IF Len(l) >= n /\ SubSeq(l, 1, n) = Spaces(n) THEN SubSeq(l, n + 1, Len(l)) ELSE l
  IN IF x = <<>> THEN fit(cur)
     ELSE IF Head(x) = "NL" THEN fit(cur) \o <<"NL">> \o Lines(Tail(x), n, <<>>)
     ELSE Lines(Tail(x), n, Append(cur, Head(x)))
FirstNL(x) == IF \E i \in 1..Len(x) : x[i] = "NL" THEN CHOOSE i \in 1..Len(x) : x[i] = "NL" /\ \A j \in 1..(i - 1) : x[j] # "NL" ELSE 0
Outdent(x, n) == LET i == FirstNL(x) IN IF i = 0 THEN x ELSE SubSeq(x, 1, i) \o Lines(SubSeq(x, i + 1, Len(x)), n, <<>>)
\* Escapes: a quote, a backslash, a line end, a tab.
Unescape(x) ==
  IF x = <<>> THEN <<>>
  ELSE IF Head(x) = "BS" /\ Len(x) > 1 THEN
         <<CASE x[2] = "n" -> "NL" [] x[2] = "t" -> "TAB" [] OTHER -> x[2]>> \o Unescape(Tail(Tail(x)))
  ELSE IF Head(x) \in {"LDQ", "RDQ"} THEN <<"QT">> \o Unescape(Tail(x))
  ELSE <<Head(x)>> \o Unescape(Tail(x))
\* An escape that means nothing.
RECURSIVE Odd(_, _)
Odd(x, ok) == IF x = <<>> THEN FALSE
              ELSE IF Head(x) = "BS" THEN Len(x) = 1 \/ x[2] \notin ok \/ Odd(Tail(Tail(x)), ok) ELSE Odd(Tail(x), ok)

StepTop(st, c) ==
  CASE st.last = "/" /\ c = "/" -> [st EXCEPT !.m = "line", !.last = ""]
    [] st.last = "/" /\ c = "*" -> [st EXCEPT !.m = "block", !.last = ""]
    [] st.last = "/" -> Unclear(st)
    [] c \in Blank \cup {"/"} -> st
    [] c = "(" -> [st EXCEPT !.open = <<"(">>, !.q = Append(@, <<>>), !.m = "form", !.last = "("]
    [] OTHER -> Bad(st)
\* Comments inside a form start where a word could start.
StepForm(st, c) ==
  CASE st.w = <<"/">> /\ c = "/" -> [st EXCEPT !.m = "line", !.w = <<>>, !.last = ""]
    [] c = "*" /\ st.w # <<>> /\ st.w[Len(st.w)] = "/" ->
         IF Len(st.w) = 1 THEN [st EXCEPT !.m = "block", !.w = <<>>, !.last = ""] ELSE Bad(st)
    [] c \in Blank -> EndWord(st)
    [] c \in Closers ->
         IF Pair(st.open[Len(st.open)]) # c THEN Bad(st)
         ELSE LET s == EndWord(st)
                  n == Len(s.q)
                  r == Node(s.open[Len(s.open)], <<>>, s.q[n])
                  t == [s EXCEPT !.q = SubSeq(s.q, 1, n - 1), !.open = SubSeq(s.open, 1, Len(s.open) - 1)]
              IN [Item(t, r) EXCEPT !.m = InForm(t)]
    [] c \in Openers ->
         IF st.w # <<>> THEN Bad(st)
         ELSE IF c = "(" /\ st.last = "NL" THEN Bad(st)
         ELSE IF st.last \in Closers \cup {"QT", "BQ"} THEN Unclear(st)
         ELSE [st EXCEPT !.open = Append(@, c), !.q = Append(@, <<>>)]
    [] c \in {"QT", "BQ"} ->
         IF st.w # <<>> THEN Bad(st)
         ELSE IF st.last \in Closers \cup {"QT", "BQ"} THEN Unclear(st)
         ELSE [st EXCEPT !.m = c, !.tcol = st.col, !.last = ""]
    [] st.last \in Closers \cup {"QT", "BQ"} /\ c # "/" -> Unclear(st)
    [] st.w # <<>> /\ c = "/" /\ st.w[Len(st.w)] = "/" -> Unclear(st)
    [] OTHER -> [st EXCEPT !.w = Append(@, c)]
StepLine(st, c) == IF c = "NL" THEN [st EXCEPT !.m = InForm(st)] ELSE st
StepBlock(st, c) == IF st.last = "*" /\ c = "/" THEN [st EXCEPT !.m = InForm(st), !.last = "*/"] ELSE st
StepQuote(st, c) ==
  IF c = "QT" /\ st.last # "BS"
  THEN IF Odd(st.w, {"n", "t", "QT", "BS"}) THEN Unclear(st)
       ELSE [Item(st, Text(Unescape(Outdent(st.w, st.tcol)))) EXCEPT !.w = <<>>, !.m = InForm(st)]
  ELSE [st EXCEPT !.w = Append(@, c)]
StepRaw(st, c) ==
  IF c = "BQ" THEN IF Odd(st.w, {"n", "t", "BS"}) \/ \E i \in 1..Len(st.w) : st.w[i] \in {"LDQ", "RDQ"} THEN Unclear(st)
                   ELSE [Item(st, Text(Unescape(st.w))) EXCEPT !.w = <<>>, !.m = InForm(st)]
  ELSE [st EXCEPT !.w = Append(@, c)]
Step(st0, c) ==
  LET st == [st0 EXCEPT !.col = IF c = "NL" THEN 0 ELSE @ + Width(c)]
      m == st.m
      r == CASE m = "top" -> StepTop(st, c) [] m = "form" -> StepForm(st, c) [] m = "line" -> StepLine(st, c)
             [] m = "block" -> StepBlock(st, c) [] m = "QT" -> StepQuote(st, c) [] OTHER -> StepRaw(st, c)
  IN \* a backslash that is escaped escapes nothing; what starts or ends a comment or text is not the start of another
     [r EXCEPT !.last = CASE m = "QT" /\ c = "BS" /\ st.last = "BS" -> ""
                          [] r.m # m /\ r.m \in {"line", "block", "QT", "BQ"} -> ""
                          [] r.m # m /\ m = "block" -> "*/"
                          [] OTHER -> c]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(st, d, i) == IF st.v # "ok" \/ i > Len(d) THEN st ELSE ReadFrom(Step(st, d[i]), d, i + 1)
Read(d) ==
  LET st == ReadFrom(Start, Ends(d), 1)
  IN IF st.v # "ok" THEN [v |-> st.v, q |-> <<>>]
     ELSE IF st.open # <<>> \/ st.m \notin {"top", "line"} THEN [v |-> "bad", q |-> <<>>]
     ELSE IF st.m = "top" /\ st.last = "/" THEN [v |-> "unclear", q |-> <<>>]
     ELSE [v |-> "ok", q |-> st.q[1]]

-----------------------------------------------------------------------------
(* What a form computes: a text, as a sequence of symbols.  Good says whether *)
(* a tree is one of the forms.                                                *)
IsW(n, s) == n.k = "w" /\ n.x = <<s>>
Ints == {"0", "1", "2", "3", "12", "407"}
IsInt(n) == n.k = "w" /\ Len(n.x) = 1 /\ n.x[1] \in Ints
Vars == {"x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"}
IsVar(n) == n.k = "w" /\ Len(n.x) = 1 /\ n.x[1] \in Vars
IsForm(n, s) == n.k = "(" /\ n.q # <<>> /\ IsW(n.q[1], s)
Index(s) == CASE s = ":1" -> 1 [] s = ":2" -> 2 [] OTHER -> 3
Indexes == {":1", ":2", ":3"}
RECURSIVE Good(_, _), GoodAll(_, _, _)
GoodAll(env, q, i) == \A j \in i..Len(q) : Good(env, q[j])
GoodBind(env, b) == b.k = "[" /\ Len(b.q) = 5 /\ IsVar(b.q[1]) /\ IsW(b.q[2], ":") /\ IsW(b.q[3], "string") /\ IsW(b.q[4], ":=")
                    /\ b.q[1].x[1] \notin env /\ Good(env, b.q[5])
Good(env, n) ==
  CASE n.k = "t" -> TRUE
    [] n.k = "w" -> IsVar(n) /\ n.x[1] \in env
    [] IsForm(n, "string") -> Len(n.q) > 1 /\ GoodAll(env, n.q, 2)
    [] IsForm(n, "string<-any") -> Len(n.q) = 2 /\ IsInt(n.q[2])
    [] IsForm(n, "let") -> Len(n.q) = 5 /\ IsW(n.q[2], ":") /\ IsW(n.q[3], "string") /\ GoodBind(env, n.q[4])
                           /\ Good(env \cup {n.q[4].q[1].x[1]}, n.q[5])
    [] IsForm(n, "if") -> Len(n.q) = 5 /\ IsW(n.q[2], ":") /\ IsW(n.q[3], "string")
                          /\ IsForm(n.q[4], "then") /\ Len(n.q[4].q) = 3
                          /\ IsForm(n.q[4].q[2], "=") /\ Len(n.q[4].q[2].q) = 3 /\ IsInt(n.q[4].q[2].q[2]) /\ IsInt(n.q[4].q[2].q[3])
                          /\ Good(env, n.q[4].q[3])
                          /\ IsForm(n.q[5], "else") /\ Len(n.q[5].q) = 2 /\ Good(env, n.q[5].q[2])
    [] n.k = "(" /\ Len(n.q) = 2 /\ n.q[1].k = "w" /\ Len(n.q[1].x) = 1 /\ n.q[1].x[1] \in Indexes ->
         IsForm(n.q[2], "stringlist") /\ Len(n.q[2].q) > 1 /\ GoodAll(env, n.q[2].q, 2)
    [] OTHER -> FALSE
RECURSIVE Worth(_, _), WorthAll(_, _, _)
WorthAll(env, q, i) == IF i > Len(q) THEN <<>> ELSE Worth(env, q[i]) \o WorthAll(env, q, i + 1)
Worth(env, n) ==
  CASE n.k = "t" -> n.x
    [] n.k = "w" -> env[CHOOSE i \in 1..Len(env) : env[i][1] = n.x[1]][2]
    [] IsForm(n, "string") -> WorthAll(env, n.q, 2)
    [] IsForm(n, "string<-any") -> n.q[2].x
    [] IsForm(n, "let") -> Worth(Append(env, <<n.q[4].q[1].x[1], Worth(env, n.q[4].q[5])>>), n.q[5])
    [] IsForm(n, "if") -> IF n.q[4].q[2].q[2].x = n.q[4].q[2].q[3].x THEN Worth(env, n.q[4].q[3]) ELSE Worth(env, n.q[5].q[2])
    [] OTHER -> LET i == Index(n.q[1].x[1]) IN IF i + 1 <= Len(n.q[2].q) THEN Worth(env, n.q[2].q[i + 1]) ELSE <<>>
\* A function: (func NAME : string [] expression), with a text about it or without.
GoodFunc(f) == /\ IsForm(f, "func") /\ Len(f.q) \in {6, 8}
               /\ IsW(f.q[2], "NAME") /\ IsW(f.q[3], ":") /\ IsW(f.q[4], "string") /\ f.q[5] = Square(<<>>)
               /\ Len(f.q) = 8 => IsW(f.q[6], ":doc") /\ f.q[7].k = "t"
               /\ Good({}, f.q[Len(f.q)])
WorthFunc(f) == Worth(<<>>, f.q[Len(f.q)])

-----------------------------------------------------------------------------
(* Drawing forms. *)
\* A text is given by how it is written: a quote style and the symbols between the quotes.
Written(style, s) == [k |-> style, x |-> s, q |-> <<>>]
Contents == {
  <<>>, <<"a">>, <<"two", " ", "words">>, <<"(">>, <<")">>, <<"]", "[">>, <<"{", "}">>, <<"/", "/", " ", "no">>, <<"/", "*", "no", "*", "/">>, <<"*", "/">>, <<"/", "*">>,
  <<":", "k">>, <<"'">>, <<"a", "NL", "b">>, <<"a", "NL", " ", " ", "b">>, <<"NL">>, <<"a", "NL", "NL", "b">>, <<"TAB", "x">>, <<"E9", "x">>, <<" ", "a", " ">>,
  <<"a", "NL", "(", "b">>, <<"a", "NL", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", " ", "far">>,
  <<"BS", "n", "x">>, <<"a", "BS", "t">>, <<"BS", "BS">>, <<"a", "BS", "BS", "BS", "BS">>, <<"BS", "BS", "n">>, <<"a", "CR", "NL", "b">>, <<"12">>, <<"string">> }
QuoteOnly == { <<"BQ">>, <<"BS", "QT">>, <<"q", "BS", "QT", "q">>, <<"BS", "BS", "BS", "QT">>, <<"LDQ", "x", "RDQ">>, <<"BS", "QT", "BS", "BS">>, <<"a", "BS", "QT", " ", ")", "BS", "QT">> }
RawOnly == { <<"QT">>, <<"a", "QT", " ", "QT", ")">>, <<"QT", "QT", "QT">> }
DrawText(d) == IF One(1..4) = 1 THEN Written("BQ", One(Contents \cup RawOnly)) ELSE Written("QT", One(Contents \cup QuoteOnly))
RECURSIVE Draw(_, _), DrawAll(_, _, _)
DrawAll(env, d, n) == IF n = 0 THEN <<>> ELSE <<Draw(env, d)>> \o DrawAll(env, d, n - 1)
\* Nested bindings have names of their own.
NextVar(d) == "x" \o ToString(d)
Draw(env, d) ==
  Value({
    IF d = 0 \/ c <= 2 THEN (IF env # {} /\ One(1..2) = 1 THEN Word(One(env)) ELSE DrawText(d))
    ELSE IF c <= 5 THEN Form(<<Word("string")>> \o DrawAll(env, d - 1, One(1..4)))
    ELSE IF c = 6 THEN Form(<<Word("string<-any"), Word(One(Ints))>>)
    ELSE IF c = 7 THEN
           Form(<<Word("let"), Word(":"), Word("string"), Square(<<Word(NextVar(d)), Word(":"), Word("string"), Word(":="), Draw(env, d - 1)>>),
                  Draw(env \cup {NextVar(d)}, d - 1)>>)
    ELSE IF c = 8 THEN Form(<<Word(One(Indexes)), Form(<<Word("stringlist")>> \o DrawAll(env, d - 1, One(3..4)))>>)
    ELSE Form(<<Word("if"), Word(":"), Word("string"), Form(<<Word("then"), Form(<<Word("="), Word(One(Ints)), Word(One({"1", "2"}))>>), Draw(env, d - 1)>>),
                Form(<<Word("else"), Draw(env, d - 1)>>)>>)
    : c \in {One(1..9)}})
Func(e) == Form(<<Word("func"), Word("NAME"), Word(":"), Word("string"), Square(<<>>)>> \o e)

\* The forms of the other kinds of document.
Q(s) == Written("QT", s)
Lib(a, p) == Form(<<Word("lib"), Word(a), Word(":path"), Word(p)>>)
PackageForm == Form(<<Word("package"), Word("PACKAGE"), Word(":libs"), Lib("coll", "vx/collection"), Lib("type", "vx/type")>>)
Native(a, p, l) == Form(<<Word("lib"), Word(a), Word(":path"), Q(<<p>>), Word(":lang"), Word(l)>>)
Cmd(a, l, p) == Form(<<Word("cmd"), Word(a), Word(":code"), Word(":source"), Word(":lang"), Word(l), Word(":path"), Word(p)>>)
ProjectForm == Form(<<Word("project"), Word("verif"), Word(":version"), Q(<<"1">>), Word(":author"), Q(<<"v", " ", "w">>), Word(":doc"), Q(<<"a", "NL", "(", "b">>),
                      Word(":javadomain"), Q(<<"com.vxlisp">>), Word(":libs"),
                      Native("cpprandom", "<random>", ":cpp"), Native("javaniofile", "java.nio.file.*", ":java"),
                      Native("javafuture", "java.util.concurrent.CompletableFuture", ":java"), Native("javafunction", "java.util.function.*", ":java"),
                      Native("javacollectors", "java.util.stream.Collectors", ":java"),
                      Word(":projects"), Q(<<"LIBRARY">>),
                      Word(":cmds"), Cmd("srcjs", ":js", "../out/js/src"), Cmd("srcjava", ":java", "../out/java/src/main/java"),
                      Cmd("srccpp", ":cpp", "../out/cpp/src/main")>>)
FixedFunc == Func(<<Form(<<Word("string"), Q(<<"a">>), Written("BQ", <<"b", " ", "c">>),
                      Form(<<Word("let"), Word(":"), Word("string"), Square(<<Word("x1"), Word(":"), Word("string"), Word(":="), Q(<<"d", " ", "BS", "QT">>)>>), Word("x1")>>),
                      Form(<<Word(":2"), Form(<<Word("stringlist"), Q(<<"e">>), Q(<<")">>)>>)>>),
                      Form(<<Word("string<-any"), Word("12")>>)>>)>>)
FixedDoc == Func(<<Word(":doc"), Q(<<"t">>), Form(<<Word("string"), Q(<<"a">>),
                      Form(<<Word("let"), Word(":"), Word("string"), Square(<<Word("x1"), Word(":"), Word("string"), Word(":="), Written("BQ", <<"d">>)>>), Word("x1")>>),
                      Form(<<Word("string<-any"), Word("12")>>)>>)>>)

-----------------------------------------------------------------------------
(* Writing: the tokens of a form and the gaps between them. *)
RECURSIVE Toks(_), ToksAll(_)
ToksAll(q) == IF q = <<>> THEN <<>> ELSE Toks(Head(q)) \o ToksAll(Tail(q))
Toks(n) == CASE n.k = "w" -> << <<"w", n.x>> >>
             [] n.k \in {"QT", "BQ"} -> << <<"t", <<n.k>> \o n.x \o <<n.k>> >> >>
             [] OTHER -> << <<"o", <<n.k>> >> >> \o ToksAll(n.q) \o << <<"c", <<Pair(n.k)>> >> >>
\* What the writer means by a tree: its texts without escapes, at the column they are written at.
RECURSIVE Meant(_)
Meant(n) == IF n.k \in {"QT", "BQ"} THEN Text(n.x) ELSE [n EXCEPT !.q = [i \in 1..Len(n.q) |-> Meant(n.q[i])]]

Note == <<"some", " ", "words">>
Gaps == {
  << >>, <<" ">>, <<" ", " ">>, <<"TAB">>, <<"NL">>, <<"NL", " ">>, <<"NL", "TAB">>, <<"CR", "NL", " ">>, <<"CR", " ", " ">>, <<" ", "NL", "NL", " ", " ", " ">>,
  <<" ", "/", "/", "NL", " ">>, <<" ", "/", "/">> \o Note \o <<"NL", " ">>, <<"NL", "/", "/", " ">> \o Note \o <<"CR", "NL", " ">>,
  <<" ", "/", "/", " ", ")", "]", " ", "QT", "BQ", "(", "/", "*", "NL", " ">>,
  <<" ", "/", "*", "*", "/", " ">>, <<" ", "/", "*">> \o Note \o <<"*", "/", " ">>, <<"NL", "/", "*", "NL", "(", "QT", " ", "BQ", "[", ")", "NL", "(", "/", "/", " ", "*", "/", " ">>,
  <<" ", "/", "*", "*", " ", "*", " ", "/", "*", "*", "*", "/", "NL", " ">>, <<"/", "*">> \o Note \o <<"*", "/">>, <<"/", "/">> \o Note \o <<"NL", " ", " ">>,
  <<" ", "/", "*", "x", "*", "/", "/", "/", " ", "y", "NL", " ">>, <<" ", "/", "/", "*", "/", "NL", " ">>, <<" ", "/", "*", "/", "*", "/", " ">> }
StartsBlank(g) == g # <<>> /\ g[1] \in Blank
\* Whether a gap can stand between two tokens.
Fits(a, g, b) ==
  /\ a[1] = "w" => (StartsBlank(g) \/ (g = <<>> /\ b[1] = "c"))
  /\ g = <<>> => (a[1] = "o" \/ b[1] = "c")
  /\ b[2] = <<"(">> => g # <<"NL">>
  /\ a[1] \in {"t", "c"} /\ g # <<>> => TRUE
TopGaps == {<<>>, <<"NL">>, <<" ", "NL", "NL">>, <<"/", "/", " ", "(", "NL">>, <<"/", "/", "QT", "NL", "/", "/", "NL">>, <<"/", "*", " ", ")", " ", "QT", " ", "*", "/", "NL">>,
            <<"NL", "/", "*", "*", "/", "NL", "/", "/", "/", "NL">>, <<"TAB", " ", "CR", "NL">>, <<"/", "*", "*", "*", "/">>}

Begin(t) == /\ tree' = t /\ toks' = Toks(t) /\ phase' = "layout" /\ UNCHANGED <<damage, got>>
Fresh == phase = "start"
DrawFunc == Fresh /\ Random /\ Kind = "func" /\ \E e \in {Draw({}, 4)} : \E g \in Pick(TopGaps) : \E w \in {DrawText(0)} : \E k \in {One(1..3)} :
  Begin(Func(IF k = 1 THEN <<Word(":doc"), w, e>> ELSE <<e>>)) /\ doc' = g
TakePackage == Fresh /\ Kind = "package" /\ \E g \in (IF Random THEN Pick(TopGaps) ELSE {<<>>}) : Begin(PackageForm) /\ doc' = g
TakeProject == Fresh /\ Kind = "project" /\ \E g \in (IF Random THEN Pick(TopGaps) ELSE {<<>>}) : Begin(ProjectForm) /\ doc' = g
TakeFixed == Fresh /\ Kind = "func" /\ Mode \in {"gaps", "damage"} /\ \E t \in (IF Mode = "gaps" THEN {FixedFunc} ELSE {FixedFunc, FixedDoc}) : Begin(t) /\ doc' = <<>>
TakeText == Fresh /\ Kind = "func" /\ Mode = "texts" /\ \E s \in {"QT", "BQ"} : \E x \in Contents \cup (IF s = "QT" THEN QuoteOnly ELSE RawOnly) : \E k \in 1..3 :
  /\ doc' = <<>>
  /\ Begin(Func(CASE k = 1 -> <<Written(s, x)>>
                  [] k = 2 -> <<Form(<<Word("string"), Written(s, x), Q(<<"!">>)>>)>>
                  [] OTHER -> <<Form(<<Word("let"), Word(":"), Word("string"), Square(<<Word("x1"), Word(":"), Word("string"), Word(":="), Written(s, x)>>), Form(<<Word("string"), Word("x1"), Q(<<"!">>)>>)>>)>>))

\* Every text and every comment of two units.
Units == { <<"(">>, <<")">>, <<"]">>, <<"{">>, <<"/">>, <<"*">>, <<":">>, <<"NL">>, <<"TAB">>, <<" ">>, <<"'">>, <<"E9">>, <<"$">>, <<"%">>, <<"?">>, <<"#">>, <<";">>, <<"u">>, <<"0">>,
           <<"BS", "BS">>, <<"BS", "n">>, <<"BS", "t">> }
QuoteUnits == Units \cup { <<"BQ">>, <<"BS", "QT">>, <<"LDQ">> }
RawUnits == Units \cup { <<"QT">> }
TakePair == Fresh /\ Kind = "func" /\ Mode = "pairs" /\ \E s \in {"QT", "BQ"} : \E a, b \in (IF s = "QT" THEN QuoteUnits ELSE RawUnits) :
  /\ doc' = <<>> /\ Begin(Func(<<Form(<<Word("string"), Written(s, a \o b), Q(<<"!">>)>>)>>))
NoteUnits == {"(", ")", "]", "{", "/", "*", ":", "TAB", " ", "'", "BS", "QT", "BQ", "x", "E9", "#"}
NoteForm == Func(<<Form(<<Word("string"), Q(<<"a">>), Q(<<"b">>)>>)>>)
TakeNote == Fresh /\ Kind = "func" /\ Mode = "comments" /\ \E a, b \in NoteUnits : \E k \in {"line", "block"} : \E inside \in BOOLEAN :
  LET note == IF k = "line" THEN <<"/", "/", a, b, "NL", " ">> ELSE <<"/", "*", a, b, "*", "/", " ">>
      t == Toks(NoteForm)
  IN /\ ~ (k = "block" /\ a = "*" /\ b = "/")
     /\ tree' = NoteForm /\ phase' = "layout" /\ UNCHANGED <<damage, got>>
     /\ doc' = (IF inside THEN <<>> ELSE note)
     /\ toks' = [i \in 1..Len(t) |-> IF inside /\ t[i][2] = <<"QT", "a", "QT">> THEN <<"t", t[i][2] \o <<" ">> \o note>> ELSE t[i]]

\* The plain gap: nothing inside brackets, a line start before forms, else one blank.
Plain(a, b) == IF a[1] = "o" \/ b[1] = "c" THEN <<>> ELSE IF b[2] = <<"(">> THEN <<"NL", " ">> ELSE <<" ">>
Write(g) == doc' = doc \o toks[1][2] \o g /\ toks' = Tail(toks) /\ UNCHANGED <<tree, damage, got, phase>>
Writing == phase = "layout" /\ Len(toks) > 1
PutGap == Writing /\ Mode = "layout" /\ \E g \in Pick({h \in Gaps : Fits(toks[1], h, toks[2])}) : Write(g)
PutPlain == Writing /\ Mode = "random damage" /\ \E g \in {IF One(1..4) = 1 THEN One({h \in Gaps : Fits(toks[1], h, toks[2])}) ELSE Plain(toks[1], toks[2])} : Write(g)
\* All plain but at most one.
PutOne == Writing /\ Mode \in {"gaps", "texts", "damage", "pairs", "comments"} /\
  \/ Write(Plain(toks[1], toks[2]))
  \/ /\ Mode = "gaps" /\ damage = ""
     /\ \E g \in Gaps : /\ Fits(toks[1], g, toks[2])
                        /\ doc' = doc \o toks[1][2] \o g /\ toks' = Tail(toks) /\ damage' = "gap" /\ UNCHANGED <<tree, got, phase>>
PutLast == phase = "layout" /\ Len(toks) = 1 /\ \E g \in (IF Random THEN Pick(TopGaps \cup {<<"NL", "/", "/", "end">>}) ELSE {<<"NL">>}) :
  doc' = doc \o toks[1][2] \o g /\ toks' = <<>> /\ phase' = (IF Mode \in {"damage", "random damage"} THEN "damage" ELSE "read") /\ UNCHANGED <<tree, got, damage>>

-----------------------------------------------------------------------------
(* Damage: a symbol lost, added or exchanged, or the end of the document lost.*)
Delims == Openers \cup Closers \cup {"QT", "BQ", "BS", "/", "*", "NL", " "}
Marks == Openers \cup Closers \cup {"QT", "BQ", "BS", "x"}
Cut(i) == SubSeq(doc, 1, i - 1) \o SubSeq(doc, i + 1, Len(doc))
Put(i, c) == SubSeq(doc, 1, i - 1) \o <<c>> \o SubSeq(doc, i, Len(doc))
Swap(i, c) == SubSeq(doc, 1, i - 1) \o <<c>> \o SubSeq(doc, i + 1, Len(doc))
Damaging == phase = "damage"
\* The second alternative of a random damage goes on.
Then(d) == IF Random /\ One(1..4) = 1 THEN "damage" ELSE "read"
Hurt(d, what) == doc' = d /\ damage' = what /\ phase' = Then(d) /\ UNCHANGED <<tree, got, toks>>
Places == IF Random THEN Pick(1..Len(doc)) ELSE 1..Len(doc)
Lose == Damaging /\ \E i \in Places : doc[i] \in Delims /\ Hurt(Cut(i), "lost")
Add == Damaging /\ \E i \in Places : \E c \in (IF Random THEN Pick(Marks) ELSE Marks) : Hurt(Put(i, c), "added")
Exchange == Damaging /\ \E i \in Places : doc[i] \in Openers \cup Closers \cup {"QT", "BQ"} /\ \E c \in (IF Random THEN Pick(Marks) ELSE Marks \ {doc[i]}) : Hurt(Swap(i, c), "exchanged")
Truncate == Damaging /\ \E i \in Places : Hurt(SubSeq(doc, 1, i - 1), "truncated")

ReadIt == phase = "read" /\ got' = Read(doc) /\ phase' = "done" /\ UNCHANGED <<tree, toks, doc, damage>>

Init == got = [v |-> "", q |-> <<>>] /\ tree = Word("") /\ toks = <<>> /\ doc = <<>> /\ damage = "" /\ phase = "start"
Next == DrawFunc \/ TakePackage \/ TakeProject \/ TakeFixed \/ TakeText \/ TakePair \/ TakeNote \/ PutGap \/ PutPlain \/ PutOne \/ PutLast \/ Lose \/ Add \/ Exchange \/ Truncate \/ ReadIt
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Texts apart, an undamaged document reads as the form that was written, whatever the layout; a text
\* reads as written, but for escapes and the blanks below its quote.
RECURSIVE Shape(_)
Shape(n) == IF n.k \in {"QT", "BQ", "t"} THEN Text(<<>>) ELSE [n EXCEPT !.q = [i \in 1..Len(n.q) |-> Shape(n.q[i])]]
RECURSIVE TextsOf(_), TextsAll(_)
TextsAll(q) == IF q = <<>> THEN <<>> ELSE TextsOf(Head(q)) \o TextsAll(Tail(q))
TextsOf(n) == IF n.k \in {"QT", "BQ", "t"} THEN <<n.x>> ELSE TextsAll(n.q)
SeqRange(s) == {s[i] : i \in 1..Len(s)}
Undamaged == phase = "done" /\ damage \in {"", "gap"}
ReadInv == Undamaged =>
  LET r == got
  IN /\ r.v = "ok" /\ Len(r.q) = 1 /\ Shape(r.q[1]) = Shape(tree)
     /\ LET a == TextsOf(tree)
            b == TextsOf(r.q[1])
        IN \A i \in 1..Len(a) : SeqRange(a[i]) \cap {"NL", "CR", "BS", "LDQ"} = {} => a[i] = b[i]
     /\ Kind = "func" => GoodFunc(r.q[1])
\* A document cut short inside its form is malformed.
CutInv == (phase = "done" /\ damage = "truncated" /\ Mode = "damage" /\ Len(doc) < 12) => got.v \in {"bad", "unclear"} \/ doc = <<>>

Emit == (phase = "done" /\ OutFile # "") =>
  LET r == got
      known == r.v = "ok" /\ Kind = "func" /\ Len(r.q) = 1 /\ GoodFunc(r.q[1])
  IN CSVWrite("%1$s", <<ToJson([d |-> doc, v |-> r.v, h |-> damage, w |-> IF known THEN WorthFunc(r.q[1]) ELSE <<>>, known |-> known])>>, OutFile)
=============================================================================
