-------------------------------- MODULE VxCheck --------------------------------
(***************************************************************************)
(* Which programs make sense: every name is declared and in scope, every   *)
(* call has the arguments its function declares, and every value fits the  *)
(* type of the place it is put in.                                         *)
(*                                                                         *)
(* A program is a function over declared types, constants and functions.   *)
(* It is drawn so that it makes sense, and then one thing in it may be     *)
(* damaged.  TypeOf is the judge, of both.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, Randomization

CONSTANTS Mode,      \* "sound": as drawn; "damaged": one thing is wrong
          OutFile

VARIABLES ps,        \* parameters of the function: sequence of [n, t]
          rt,        \* its result type
          body,      \* its body
          what,      \* what was damaged
          verdict,   \* "" or what TypeOf says
          phase

vars == <<ps, rt, body, what, verdict, phase>>
Pick(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
One(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
Value(S) == CHOOSE x \in S : TRUE

-----------------------------------------------------------------------------
(* What is declared around the function.                                    *)
Types == {"int", "string", "boolean", "intlist", "stringlist", "pet", "shop"}
Lost == "nosuch"
\* A value of type a may stand where type b is expected.
Fit(a, b) == a = b \/ b = "any" \/ (b = "number" /\ a = "int")
\* Two types of which neither may stand for the other.
Apart(a, b) == ~ Fit(a, b) /\ ~ Fit(b, a)

\* Functions: name, types of parameters, result.  "pair" is declared twice; "lib/up" comes from a library.
Sig(n, p, r) == [n |-> n, p |-> p, r |-> r]
Sigs == <<
  Sig("none", <<>>, "int"), Sig("name-of", <<"pet">>, "string"), Sig("add2", <<"int", "int">>, "int"),
  Sig("greet", <<"string">>, "string"), Sig("is-old", <<"pet", "int">>, "boolean"), Sig("sort-of", <<"intlist">>, "intlist"),
  Sig("words", <<"string", "int">>, "stringlist"), Sig("make", <<"string", "int">>, "pet"), Sig("open", <<"pet", "stringlist">>, "shop"),
  Sig("show", <<"any">>, "string"), Sig("size", <<"number">>, "int"), Sig("pick3", <<"boolean", "int", "string">>, "string"),
  Sig("pair", <<"int", "int">>, "int"), Sig("pair", <<"string", "string">>, "string"), Sig("pair", <<"int", "string">>, "boolean"),
  Sig("lib/up", <<"string">>, "string"), Sig("lib/flag", <<"int">>, "boolean"), Sig("lib/best", <<"shop">>, "pet") >>
Consts == <<[n |-> "seven", t |-> "int"], [n |-> "motto", t |-> "string"], [n |-> "lib/far", t |-> "int"]>>
\* pet: name, age; shop: owner (a pet), stock (stringlist), open (boolean)
Props == {[s |-> "pet", n |-> "name", t |-> "string"], [s |-> "pet", n |-> "age", t |-> "int"],
          [s |-> "shop", n |-> "owner", t |-> "pet"], [s |-> "shop", n |-> "stock", t |-> "stringlist"], [s |-> "shop", n |-> "open", t |-> "boolean"]}

-----------------------------------------------------------------------------
(* Expressions: k kind, t type named in it, n name, as parts, bs bindings.   *)
Ex(k, t, n, as, bs) == [k |-> k, t |-> t, n |-> n, as |-> as, bs |-> bs]
Lit(t) == Ex("lit", t, "", <<>>, <<>>)
Var(n) == Ex("var", "", n, <<>>, <<>>)
Call(n, as) == Ex("call", "", n, as, <<>>)
Get(n, e) == Ex("get", "", n, <<e>>, <<>>)
Cond(t, c, a, b) == Ex("if", t, "", <<c, a, b>>, <<>>)
Let(t, n, bt, e, b) == Ex("let", t, n, <<e, b>>, <<bt>>)
\* Part 1 goes into the first place of the call that is part 2.
Thread(e, c) == Ex("thread", "", "", <<e, c>>, <<>>)

\* The type of e where env says what is in scope; "bad" when it makes no sense, "dim" when this specification
\* does not say: the branch of a conditional or the body of a let that has another type than is named there (F12), a property
\* of something that has none (F11), a binding that reads its own name (F08).
RECURSIVE TypeOf(_, _)
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "dim" \in S THEN "dim" ELSE ""
InScope(env, n) == {i \in 1..Len(env) : env[i].n = n}
CallType(n, ts) ==
  LET same == {i \in 1..Len(Sigs) : Sigs[i].n = n /\ Len(Sigs[i].p) = Len(ts) /\ \A j \in 1..Len(ts) : Fit(ts[j], Sigs[i].p[j])}
  IN IF same = {} THEN "bad" ELSE Sigs[CHOOSE i \in same : \A j \in same : i <= j].r
TypeOf(env, e) ==
  CASE e.k = "lit" -> e.t
    [] e.k = "var" -> LET S == InScope(env, e.n)
                          C == {i \in 1..Len(Consts) : Consts[i].n = e.n}
                      IN IF S # {} THEN env[CHOOSE i \in S : \A j \in S : j <= i].t ELSE IF C # {} THEN Consts[CHOOSE i \in C : TRUE].t ELSE "bad"
    [] e.k = "call" -> LET ts == [i \in 1..Len(e.as) |-> TypeOf(env, e.as[i])]
                           w == Worst({ts[i] : i \in 1..Len(ts)})
                       IN IF w # "" THEN w ELSE CallType(e.n, ts)
    [] e.k = "thread" -> IF e.as[2].k # "call" THEN "bad" ELSE TypeOf(env, Call(e.as[2].n, <<e.as[1]>> \o e.as[2].as))
    [] e.k = "get" -> LET t == TypeOf(env, e.as[1])
                          P == {p \in Props : p.s = t /\ p.n = e.n}
                      IN IF t \in {"bad", "dim"} THEN t ELSE IF t \notin {p.s : p \in Props} THEN "dim" ELSE IF P = {} THEN "bad" ELSE (CHOOSE p \in P : TRUE).t
    [] e.k = "if" -> LET c == TypeOf(env, e.as[1])
                         a == TypeOf(env, e.as[2])
                         b == TypeOf(env, e.as[3])
                     IN IF c = "bad" \/ (c # "dim" /\ ~ Fit(c, "boolean")) \/ a = "bad" \/ b = "bad" \/ e.t \notin Types THEN "bad"
                        ELSE IF "dim" \in {a, b, c} \/ ~ Fit(c, "boolean") \/ ~ Fit(a, e.t) \/ ~ Fit(b, e.t) THEN "dim" ELSE e.t
    [] e.k = "let" -> LET x == TypeOf(Append(env, [n |-> e.n, t |-> "dim"]), e.as[1])
                          y == TypeOf(Append(env, [n |-> e.n, t |-> e.bs[1]]), e.as[2])
                      IN IF x = "bad" \/ y = "bad" \/ e.t \notin Types \/ e.bs[1] \notin Types \/ (x # "dim" /\ ~ Fit(x, e.bs[1])) THEN "bad"
                         ELSE IF "dim" \in {x, y} \/ ~ Fit(y, e.t) THEN "dim" ELSE e.t
\* What a whole function is.
Judge(params, r, e) ==
  LET t == TypeOf(params, e)
  IN IF r \notin Types \/ (\E i \in 1..Len(params) : params[i].t \notin Types) \/ t = "bad" THEN "bad"
     ELSE IF t = "dim" THEN "dim" ELSE IF Fit(t, r) THEN "good" ELSE "bad"

-----------------------------------------------------------------------------
(* Drawing an expression that has a type.                                    *)
RECURSIVE Draw(_, _, _)
Fresh(env) == "v" \o ToString(Len(env) + 1)
Leaves(t, env) == {Lit(t)} \cup {Var(env[i].n) : i \in {j \in 1..Len(env) : env[j].t = t}} \cup {Var(Consts[i].n) : i \in {j \in 1..Len(Consts) : Consts[j].t = t}}
\* A parameter of type any or number gets a value of some type that fits.
Actual(t) == IF t = "any" THEN One({"int", "string", "boolean"}) ELSE IF t = "number" THEN "int" ELSE t
RECURSIVE DrawAll(_, _, _)
DrawAll(ts, env, d) == IF ts = <<>> THEN <<>> ELSE Value({<<x>> : x \in {Draw(t, env, d) : t \in {Actual(Head(ts))}}}) \o DrawAll(Tail(ts), env, d)
Makers(t) == {i \in 1..Len(Sigs) : Sigs[i].r = t}
Draw(t, env, d) ==
  IF d = 0 THEN One(Leaves(t, env))
  ELSE Value({
    CASE w = "leaf" -> One(Leaves(t, env))
      [] w = "call" -> IF Makers(t) = {} THEN One(Leaves(t, env)) ELSE Value({Call(Sigs[i].n, DrawAll(Sigs[i].p, env, d - 1)) : i \in Pick(Makers(t))})
      [] w = "thread" -> LET M == {i \in Makers(t) : Len(Sigs[i].p) > 0}
                         IN IF M = {} THEN One(Leaves(t, env)) ELSE Value({Value({Thread(as[1], Call(Sigs[i].n, Tail(as))) : as \in {DrawAll(Sigs[i].p, env, d - 1)}}) : i \in Pick(M)})
      [] w = "get" -> LET P == {p \in Props : p.t = t} IN IF P = {} THEN One(Leaves(t, env)) ELSE Value({Get(p.n, Draw(p.s, env, d - 1)) : p \in Pick(P)})
      [] w = "if" -> Cond(t, Draw("boolean", env, d - 1), Draw(t, env, d - 1), Draw(t, env, d - 1))
      [] w = "let" -> Value({Let(t, Fresh(env), bt, Draw(bt, env, d - 1), Draw(t, Append(env, [n |-> Fresh(env), t |-> bt]), d - 1)) : bt \in Pick(Types)})
    : w \in Pick({"leaf", "call", "thread", "get", "if", "let"})})

Start == phase = "draw" /\ \E k \in Pick(0..3) : \E ts \in {[i \in 1..k |-> [n |-> "v" \o ToString(i), t |-> One(Types)]]} : \E r \in Pick(Types) : \E d \in Pick(1..3) : \E e \in {Draw(r, ts, d)} :
  ps' = ts /\ rt' = r /\ body' = e /\ phase' = (IF Mode = "damaged" THEN "damage" ELSE "judge") /\ UNCHANGED <<what, verdict>>

-----------------------------------------------------------------------------
(* Damage, somewhere.                                                        *)
\* Each step goes one part down or hurts what is there.
RECURSIVE Hurt(_, _, _)
Other(t) == One({u \in Types : Apart(u, t)})
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
\* h: what to damage; env: the scope at e.
Hurt(h, env, e) ==
  LET down == {i \in 1..Len(e.as) : e.k \in {"call", "get", "if", "let", "thread"}}
      here == CASE h = "type" -> e.k \in {"lit", "var", "call", "get"}
                [] h = "name" -> e.k = "call"
                [] h = "ref" -> e.k \in {"lit", "var"}
                [] h = "less" -> e.k = "call" /\ Len(e.as) > 0
                [] h = "more" -> e.k = "call"
                [] h = "property" -> e.k = "get"
                [] h = "kind" -> e.k \in {"if", "let"}
                [] h = "scope" -> e.k \in {"lit", "var"}
                [] OTHER -> FALSE
      stay == down = {} \/ One(1..3) = 1
  IN IF here /\ stay
     THEN CASE h = "type" -> LET t == TypeOf(env, e) IN IF t \in Types THEN Value({Draw(u, env, 1) : u \in {Other(t)}}) ELSE e
            [] h = "name" -> [e EXCEPT !.n = One({Lost, "lib/" \o Lost, "zz/" \o Lost, "pet-of"})]
            [] h = "ref" -> Var(One({Lost, "lib/" \o Lost, "v9", "zz/far"}))
            [] h = "less" -> Value({[e EXCEPT !.as = Drop(e.as, i)] : i \in Pick(1..Len(e.as))})
            [] h = "more" -> [e EXCEPT !.as = Append(@, Lit(One(Types)))]
            [] h = "property" -> [e EXCEPT !.n = One({Lost, "nam", "ages"})]
            [] h = "kind" -> IF e.k = "let" /\ One(1..2) = 1 THEN [e EXCEPT !.bs = <<Lost>>] ELSE [e EXCEPT !.t = Lost]
            [] h = "scope" -> Var("v" \o ToString(Len(env) + 1 + One(0..1)))
     ELSE IF down = {} THEN e
     ELSE Value({[e EXCEPT !.as = [j \in 1..Len(e.as) |-> IF j = i
            THEN Hurt(h, IF e.k = "let" /\ i = 2 THEN Append(env, [n |-> e.n, t |-> e.bs[1]]) ELSE env, e.as[j]) ELSE e.as[j]]] : i \in Pick(down)})

Harms == {"type", "name", "ref", "less", "more", "property", "kind", "scope"}
Damage == phase = "damage" /\ \E h \in Pick(Harms) : \E e \in {Hurt(h, ps, body)} :
  body' = e /\ what' = h /\ phase' = "judge" /\ UNCHANGED <<ps, rt, verdict>>
DamageResult == phase = "damage" /\ \E t \in {Other(rt)} : rt' = t /\ what' = "result" /\ phase' = "judge" /\ UNCHANGED <<ps, body, verdict>>
DamageParam == phase = "damage" /\ Len(ps) > 0 /\ \E i \in Pick(1..Len(ps)) : \E t \in Pick({Lost, Other(ps[i].t)}) :
  ps' = [ps EXCEPT ![i].t = t] /\ what' = "parameter" /\ phase' = "judge" /\ UNCHANGED <<rt, body, verdict>>
Weigh == phase = "judge" /\ verdict' = Judge(ps, rt, body) /\ phase' = "done" /\ UNCHANGED <<ps, rt, body, what>>

Init == ps = <<>> /\ rt = "" /\ body = Lit("int") /\ what = "" /\ verdict = "" /\ phase = "draw"
Next == Start \/ Damage \/ DamageResult \/ DamageParam \/ Weigh
Spec == Init /\ [][Next]_vars

\* What is drawn makes sense, and has the type it was drawn for.
SoundInv == (phase = "done" /\ what = "") => verdict = "good"
Emit == (phase = "done" /\ OutFile # "") => CSVWrite("%1$s", <<ToJson([ps |-> ps, rt |-> rt, body |-> body, what |-> what, verdict |-> verdict])>>, OutFile)
=============================================================================
