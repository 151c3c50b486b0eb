------------------------- MODULE ResolverMachine -------------------------
(* The resolver as a machine that asks the file system one question at a     *)
(* time: which entry is there? Checked against Resolver!Resolved for every   *)
(* tree of a family; each finished run is printed and replayed against the   *)
(* real resolver.                                                            *)
EXTENDS Resolver, Json, IOUtils, TLC

Family == IOEnv.FAMILY
Printing == IOEnv.PRINT = "1"

File == [k |-> "file", pkg |-> "no", style |-> <<>>]
Dir == [k |-> "dir", pkg |-> "no", style |-> <<>>]
Pkg(p, s) == [k |-> "file", pkg |-> p, style |-> s]

Under(d, t) == [p \in {d \o q : q \in DOMAIN t} |-> t[SubSeq(p, Len(d) + 1, Len(p))]]
Empty == [p \in {} |-> File]
One(p, n) == [q \in {p} |-> n]
Union(ts) == [p \in UNION {DOMAIN t : t \in ts} |-> (CHOOSE t \in {u \in ts : p \in DOMAIN u} : TRUE)[p]]

(* Everything there can be at a candidate called m. *)
Packages == {Empty, One(<<"package.json">>, Pkg("bad", <<>>)), One(<<"package.json">>, Pkg("none", <<>>))}
            \cup {Union({One(<<"package.json">>, Pkg("style", <<"main.css">>)), t}) :
                     t \in {Empty, One(<<"main.css">>, File), One(<<"main.css">>, Dir)}}
            \cup {Union({One(<<"package.json">>, Pkg("style", <<".", "dist", "", "a.b">>)), One(<<"dist">>, Dir), One(<<"dist", "a.b">>, File)}),
                  Union({One(<<"package.json">>, Pkg("style", <<"..", "up">>))}),
                  Union({One(<<"package.json">>, Pkg("style", <<"main">>)), One(<<"main.css">>, File)})}
Indexes == {Empty, One(<<"index.css">>, File), One(<<"index.css">>, Dir)}
Directories == {Union({One(<<>>, Dir), p, i}) : p \in Packages, i \in Indexes}
Nodes == {Empty, One(<<>>, File)} \cup Directories
Beside == {Empty, One(<<"m.css">>, File), One(<<"m.css">>, Dir),
           Union({One(<<"m.css">>, Dir), One(<<"m.css", "index.css">>, File)})}
Candidates == {Union({Under(<<"m">>, n), b}) : n \in Nodes, b \in Beside}

(* The candidates that differ in how they resolve. *)
Kinds == {Empty,
          One(<<"m">>, File),
          One(<<"m">>, Dir),
          One(<<"m.css">>, File),
          One(<<"m.css">>, Dir),
          Union({One(<<"m">>, Dir), One(<<"m.css">>, File)}),
          Union({One(<<"m">>, Dir), One(<<"m", "index.css">>, File)}),
          Union({One(<<"m">>, Dir), One(<<"m", "sub">>, File), One(<<"m", "package.json">>, Pkg("style", <<"sub">>))}),
          Union({One(<<"m">>, Dir), One(<<"m", "index.css">>, File), One(<<"m", "package.json">>, Pkg("none", <<>>))})}
Scoped(t) == Union({One(<<"@s">>, Dir), Under(<<"@s">>, t)})
Modules == {Union({One(<<"node_modules">>, Dir), Under(<<"node_modules">>, t)}) : t \in Kinds} \cup {One(<<"node_modules">>, File), Empty}

Home == Union({One(<<"p">>, Dir), One(<<"p", "q">>, Dir)})
Decoy(d) == Union({Under(d, One(<<"node_modules">>, Dir)), Under(d, One(<<"node_modules", "m">>, File))})

RelativeSpecs == {<<".", "m">>, <<"..", "m">>, <<"", "m">>, <<".", "m.css">>, <<".", "", "m">>, <<".", "m", "">>, <<".", ".">>,
                  <<"..", "q", "m">>, <<".", "none", "..", "m">>, <<".", "">>, <<"..", "">>, <<"..", "..", "p", "q", "m">>,
                  <<".", "m", "index.css">>, <<".", "m", "index">>, <<".", "m", "package.json">>}
BareSpecs == {<<"m">>, <<"m.css">>, <<"m", "sub">>, <<"m", "index">>, <<"m", "">>, <<"x", "..", "m">>}

(* [fs, spec, from, base] *)
Questions ==
  CASE Family = "relative" ->
         {[fs |-> Union({Home, Under(d, c)} \cup e), spec |-> s, from |-> <<"p", "q">>, base |-> b] :
            d \in {<<"p", "q">>, <<"p">>}, c \in Candidates, s \in RelativeSpecs, b \in {NoBase, <<>>}, e \in {{}, {Decoy(<<"p", "q">>)}}}
    [] Family = "bare" ->
         {[fs |-> Union({Home, One(<<"base">>, Dir), Under(<<"p", "q">>, c), One(<<"m.css">>, File), One(<<"p", "m">>, File)}
                        \cup {Under(<<"base">>, b)} \cup {IF k = 0 THEN d ELSE Under(SubSeq(<<"p", "q">>, 1, k), d) : k \in {w}}),
           spec |-> s, from |-> <<"p", "q">>, base |-> e] :
            c \in Modules, b \in Kinds, d \in Modules, w \in {0, 1}, s \in BareSpecs, e \in {NoBase, <<"base">>}}
    [] Family = "deep" ->
         {[fs |-> Union({Home, Under(<<"p", "q">>, a), Under(<<"p">>, b), c}),
           spec |-> s, from |-> f, base |-> NoBase] :
            a \in Modules, b \in Modules, c \in Modules, s \in {<<"m">>, <<"m", "sub">>}, f \in {<<"p", "q">>, <<"p">>, <<"p", "q", "node_modules">>}}
    [] OTHER ->
         {[fs |-> Union({Home, One(<<"base">>, Dir), Under(<<"base">>, t), Under(<<"p">>, Union({One(<<"node_modules">>, Dir), Under(<<"node_modules">>, t)}))}),
           spec |-> s, from |-> <<"p", "q">>, base |-> e] :
            t \in Candidates \cup {Scoped(k) : k \in Candidates},
            s \in BareSpecs \cup {<<"@s", "m">>, <<"@s">>, <<".">>, <<"..">>, <<"">>, <<".m">>},
            e \in {NoBase, <<"base">>, <<>>}}

VARIABLES q,       \* the question
          todo,    \* paths that are still to be tried
          asking,  \* what is looked at now: "file", "extension", "package", "style", "index"
          result   \* "none yet" is NotYet
vars == <<q, todo, asking, result>>

NotYet == [ok |-> FALSE, p |-> <<"?">>]

Paths(x) ==
  IF IsRelative(x.spec) THEN <<Norm(x.from \o x.spec)>>
  ELSE (IF x.base = NoBase THEN <<>> ELSE <<Norm(x.base \o x.spec)>>)
       \o [i \in 1..Len(x.from) + 1 |-> Level(x.spec, x.from, Len(x.from) + 1 - i)]

Init == /\ q \in {x \in Questions : WellFormed(x.fs)}
        /\ todo = Paths(q)
        /\ asking = "file"
        /\ result = NotYet

Answer(r) == result' = r /\ UNCHANGED <<q, todo, asking>>
Ask(what) == asking' = what /\ UNCHANGED <<q, todo, result>>
GiveUp == IF Len(todo) > 1 THEN todo' = Tail(todo) /\ asking' = "file" /\ UNCHANGED <<q, result>>
          ELSE Answer(Fail)

Running == result = NotYet
Cur == Head(todo)
Is(p) == KindOf(q.fs, p)

LookAtFile == Running /\ asking = "file"
              /\ CASE Is(Cur) = "file" -> Answer(Found(Cur))
                   [] Is(Cur) = "dir" -> Ask("package")
                   [] OTHER -> Ask("extension")
LookAtExtension == Running /\ asking = "extension"
                   /\ IF Is(WithExtension(Cur)) = "file" THEN Answer(Found(WithExtension(Cur))) ELSE GiveUp
LookAtPackage == Running /\ asking = "package"
                 /\ IF Is(Append(Cur, "package.json")) # "file" THEN Ask("index")
                    ELSE IF q.fs[Append(Cur, "package.json")].pkg = "style" THEN Ask("style") ELSE GiveUp
LookAtStyle == Running /\ asking = "style"
               /\ LET main == Norm(Cur \o q.fs[Append(Cur, "package.json")].style)
                  IN IF Is(main) = "file" THEN Answer(Found(main)) ELSE GiveUp
LookAtIndex == Running /\ asking = "index"
               /\ IF Is(Append(Cur, "index.css")) = "file" THEN Answer(Found(Append(Cur, "index.css"))) ELSE GiveUp

Steps == LookAtFile \/ LookAtExtension \/ LookAtPackage \/ LookAtStyle \/ LookAtIndex
Listing(fs) == LET RECURSIVE go(_)
                   go(ps) == IF ps = {} THEN <<>>
                             ELSE LET p == CHOOSE p \in ps : TRUE IN <<[p |-> p, n |-> fs[p]]>> \o go(ps \ {p})
               IN go(DOMAIN fs)
Next == Steps /\ (Printing /\ result' # NotYet =>
                    PrintT("Q`" \o ToJson([fs |-> Listing(q.fs), spec |-> q.spec, from |-> q.from, base |-> q.base, r |-> result',
                                          missing |-> NotFound(q.fs, q.spec, q.from, q.base)])))
Spec == Init /\ [][Next]_vars /\ WF_vars(Steps)

Correct == result # NotYet => result = Resolved(q.fs, q.spec, q.from, q.base)
ResultIsFile == result # NotYet => Sound(q.fs, result)
NotFoundIsFailure == result.ok => ~NotFound(q.fs, q.spec, q.from, q.base)
(* A relative specifier is never looked for elsewhere. *)
StaysRelative == IsRelative(q.spec) => todo = <<Norm(q.from \o q.spec)>>
(* The nearest wins: what was skipped does not resolve. *)
Skipped == \A i \in 1..Len(Paths(q)) - Len(todo) : ~At(q.fs, Paths(q)[i]).ok
Terminates == <>(result # NotYet)
=============================================================================
