------------------------------ MODULE CssCheck ------------------------------
(***************************************************************************)
(* Conformance: checks recorded runs of the real compiler against the      *)
(* reference semantics.  A record (one line of JSON) is                    *)
(*   id      name                                                          *)
(*   files   input texts (code points)                                     *)
(*   imports [f, s, g]: import specifier s in file f means file g          *)
(*           (absent: not resolvable)                                      *)
(*   paths   if not empty: the files' paths, by which relative specifiers  *)
(*           are resolved (R01) instead                                    *)
(*   outs    [f, o, inl, t, strict, loose, raws]: text t came out for file f      *)
(*           under options o, with imports inlined or not; strict: compare *)
(*           without the tolerances for known findings; loose: without whitespace in generic at-rules; raws: texts that   *)
(*           have to be in t verbatim, in this order; mixed: what the      *)
(*           options do not transform is as it was                         *)
(*   groups  [outs, errs, fails]: the run that made these outputs reported *)
(*           errs errors, of which fails are about files and imports       *)
(*   like    [i, j]: files i and j are the same stylesheet in two layouts  *)
(*   same    [i, j]: outputs i and j have to be equal texts                *)
(* Each record is one initial state; checking it is one transition.        *)
(***************************************************************************)
EXTENDS CssTransform, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Verbose == IOEnv.VERBOSE = "1"

VARIABLES n, verdict
vars == <<n, verdict>>

(* The segments of a path, without those that cancel each other. *)
Clean(p) ==
  LET RECURSIVE go(_, _, _)
      Push(segs, w) == IF w = <<>> \/ w = <<46>> THEN segs
                       ELSE IF w = <<46, 46>> /\ segs # <<>> /\ segs[Len(segs)] # <<46, 46>> THEN SubSeq(segs, 1, Len(segs)-1)
                       ELSE Append(segs, w)
      go(i, w, segs) == IF i > Len(p) THEN Push(segs, w)
                        ELSE IF p[i] = 47 THEN go(i+1, <<>>, Push(segs, w))
                        ELSE go(i+1, Append(w, p[i]), segs)
  IN go(1, <<>>, <<>>)
Relative(s) == \E pre \in {<<46, 47>>, <<46, 46, 47>>, <<47>>} : Len(s) >= Len(pre) /\ SubSeq(s, 1, Len(pre)) = pre
CssExt == <<46, 99, 115, 115>>
ByPath(c, f, s) ==
  LET to   == Clean(c.paths[f] \o <<47, 46, 46, 47>> \o s)
      with == IF to = <<>> THEN to ELSE [to EXCEPT ![Len(to)] = @ \o CssExt]
      PathIs(x) == {i \in 1..Len(c.paths) : Clean(c.paths[i]) = x}
  IN IF ~Relative(s) THEN 0
     ELSE IF PathIs(to) # {} THEN CHOOSE i \in PathIs(to) : TRUE
     ELSE IF PathIs(with) # {} THEN CHOOSE i \in PathIs(with) : TRUE ELSE 0

Target(c, f, s) ==
  IF c.paths # <<>> THEN ByPath(c, f, s) ELSE
  LET I == {i \in 1..Len(c.imports) : c.imports[i].f = f /\ c.imports[i].s = s}
  IN IF I = {} THEN 0 ELSE c.imports[CHOOSE i \in I : TRUE].g

Flattened(c, parsed, out) ==
  IF out.inl THEN Expand(parsed, LAMBDA f, s : Target(c, f, s), out.f) ELSE parsed[out.f]

(* Errors and warnings a run may report for one output: at least, and at most. *)
Warnings(o, nodes) ==
  LET applied == Apply(o, nodes)
      cerr  == o.calc /\ CalcErrs(applied, {"err"}) > 0
      maybe == o.calc /\ CalcErrs(applied, {"err", "odd"}) > 0
  IN [least |-> (IF o.props THEN Cardinality(VarNames(applied)) ELSE 0) + (IF cerr THEN 1 ELSE 0),
      most  |-> IF maybe THEN 1000000 ELSE IF o.props THEN CountVars(applied) ELSE 0]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* Are all texts of ws in t, one after the other? *)
RECURSIVE FindFrom(_, _, _)
FindFrom(t, w, i) ==
  IF i + Len(w) - 1 > Len(t) THEN 0
  ELSE IF Sub(t, i, i + Len(w) - 1) = w THEN i ELSE FindFrom(t, w, i + 1)
Verbatim(t, ws) ==
  LET RECURSIVE go(_, _)
      go(k, i) == IF k > Len(ws) THEN TRUE
                  ELSE LET p == FindFrom(t, ws[k], i) IN p # 0 /\ go(k + 1, p + Len(ws[k]))
  IN go(1, 1)

(* Whitespace in the preludes of at-rules the compiler does not interpret may mean something to
   it, or not: layouts are compared without. *)
Interpreted == {MediaN, ImportN, CustomMediaN} \cup Keyframes
RECURSIVE Loose(_)
Loose(nodes) ==
  [i \in 1..Len(nodes) |->
     LET x == nodes[i] IN
     [x EXCEPT !.b = Loose(x.b),
               !.v = IF x.k \in {"at", "stmt"} /\ x.n \notin Interpreted
                     THEN SelectSeq(x.v, LAMBDA t : t.t # "ws") ELSE x.v]]
Alike(a, b) == Loose(Finish(a, FALSE)) = Loose(Finish(b, FALSE))

(* a is e, except where it is o: each prelude and each declaration on its own. *)
RECURSIVE MatchEither(_, _, _, _)
MatchEither(e, o, a, bag) ==
  /\ Len(e) = Len(a) /\ Len(o) = Len(a)
  /\ \A i \in 1..Len(a) :
       /\ e[i].k = a[i].k /\ e[i].n = a[i].n /\ e[i].imp = a[i].imp
       /\ \/ MatchNode([e[i] EXCEPT !.b = <<>>], [a[i] EXCEPT !.b = <<>>], bag)
          \/ MatchNode([o[i] EXCEPT !.b = <<>>], [a[i] EXCEPT !.b = <<>>], bag)
       /\ MatchEither(e[i].b, o[i].b, a[i].b, bag)
(* The same stylesheet without the transforms that keep its structure. *)
Off == [props |-> FALSE, media |-> FALSE, ranges |-> FALSE, anylink |-> FALSE, calc |-> FALSE]

BadOuts(c) ==
  LET parsed == [i \in 1..Len(c.files) |-> Meaning(c.files[i])]
      RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(c.outs) THEN acc
        ELSE LET out == c.outs[i]
                 nodes == Flattened(c, parsed, out)
                 e == IF out.strict THEN DropEmpty(nodes)
                      ELSE IF out.loose THEN Loose(Expected(out.o, nodes)) ELSE Expected(out.o, nodes)
                 a == IF out.strict THEN DropEmpty(Meaning(out.t))
                      ELSE IF out.loose THEN Loose(Actual(out.t)) ELSE Actual(out.t)
                 okm == IF out.mixed THEN MatchEither(e, Expected([Off EXCEPT !.props = out.o.props], nodes), a, out.o.anylink)
                        ELSE MatchNodes(e, a, out.o.anylink)
                 okr == Verbatim(out.t, out.raws)
                 why == (IF okm THEN <<>> ELSE <<"meaning">>) \o (IF okr THEN <<>> ELSE <<"verbatim">>)
             IN IF why = <<>> THEN go(i+1, acc)
                ELSE IF Verbose /\ PrintT(<<"EXPECTED", c.id, i, e>>) /\ PrintT(<<"ACTUAL", c.id, i, a>>)
                THEN go(i+1, Append(acc, <<i, why>>)) ELSE go(i+1, Append(acc, <<i, why>>))
  IN go(1, <<>>)
      \o Flat([k \in 1..Len(c.groups) |->
           LET g == c.groups[k]
               ws == [j \in 1..Len(g.outs) |->
                        LET out == c.outs[g.outs[j]] IN Warnings(out.o, Flattened(c, parsed, out))]
               seen == g.errs - g.fails
           IN IF /\ seen >= SumSeq([j \in 1..Len(ws) |-> ws[j].least])
                 /\ seen <= SumSeq([j \in 1..Len(ws) |-> ws[j].most])
              THEN <<>> ELSE << <<k, <<"errors">> >> >>])
      \o Flat([k \in 1..Len(c.like) |->
           IF Alike(parsed[c.like[k].i], parsed[c.like[k].j]) THEN <<>> ELSE << <<k, <<"GENERATOR-like">> >> >>])
      \o Flat([k \in 1..Len(c.same) |->
           IF c.outs[c.same[k].i].t = c.outs[c.same[k].j].t THEN <<>> ELSE << <<k, <<"same">> >> >>])

Init == n \in 1..Len(Cases) /\ verdict = "new"
Check ==
  /\ verdict = "new"
  /\ \E bad \in {BadOuts(Cases[n])} :      \* (evaluated only once)
     /\ verdict' = IF bad = <<>> THEN "ok" ELSE "bad"
     /\ IF bad = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", Cases[n].id, bad>>)
  /\ UNCHANGED n
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
