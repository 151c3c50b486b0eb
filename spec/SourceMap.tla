---------------------------- MODULE SourceMap ----------------------------
(***************************************************************************)
(* Source maps: what the mappings of an output have to say. Rules carry    *)
(* their position (and file) through the reference semantics of the        *)
(* transforms, so each rule of the output is known to come from a place.   *)
(*                                                                         *)
(* A record: files, imports, outs [f, o, inl, t, map, content] as in       *)
(* CssCheck; map is the text of "mappings", content the embedded source.   *)
(***************************************************************************)
EXTENDS CssTransform, Positions, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, verdict
vars == <<n, verdict>>

(* ---- decoding "mappings" ---------------------------------------------- *)
Digit(c) == IF c >= 65 /\ c <= 90 THEN c - 65
            ELSE IF c >= 97 /\ c <= 122 THEN c - 71
            ELSE IF c >= 48 /\ c <= 57 THEN c + 4
            ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
Signed(v) == IF v % 2 = 1 THEN -(v \div 2) ELSE v \div 2

(* One transition of the decoder: consumes a character.                    *)
(*  fields: values of the segment so far; acc, shift: value being read     *)
(*  segs: finished segments [l, c, src, ol, oc]; src = -1: not mapped      *)
DecInit == [line |-> 0, fields |-> <<>>, acc |-> 0, shift |-> 1, col |-> 0, src |-> 0, ol |-> 0, oc |-> 0, segs |-> <<>>, ok |-> TRUE]
Segment(d) ==
  IF d.shift # 1 THEN [d EXCEPT !.ok = FALSE]
  ELSE IF d.fields = <<>> THEN d
  ELSE IF Len(d.fields) \notin {1, 4, 5} THEN [d EXCEPT !.ok = FALSE]
  ELSE LET col == d.col + d.fields[1]
           far == Len(d.fields) > 1
           src == IF far THEN d.src + d.fields[2] ELSE d.src
           ol == IF far THEN d.ol + d.fields[3] ELSE d.ol
           oc == IF far THEN d.oc + d.fields[4] ELSE d.oc
       IN [d EXCEPT !.fields = <<>>, !.col = col, !.src = src, !.ol = ol, !.oc = oc,
                    !.segs = Append(@, [l |-> d.line, c |-> col, src |-> IF far THEN src ELSE -1, ol |-> ol, oc |-> oc])]
DecStep(d, c) ==
  IF c = 59 THEN LET e == Segment(d) IN [e EXCEPT !.line = @ + 1, !.col = 0]
  ELSE IF c = 44 THEN IF d.fields = <<>> THEN [d EXCEPT !.ok = FALSE] ELSE Segment(d)
  ELSE LET x == Digit(c) IN
       IF x < 0 \/ d.shift > 1000000 THEN [d EXCEPT !.ok = FALSE]
       ELSE LET acc == d.acc + (x % 32) * d.shift IN
            IF x >= 32 THEN [d EXCEPT !.acc = acc, !.shift = @ * 32]
            ELSE [d EXCEPT !.acc = 0, !.shift = 1, !.fields = Append(@, Signed(acc))]
Decode(m) ==
  LET RECURSIVE go(_, _)
      go(i, d) == IF i > Len(m) THEN Segment(d) ELSE go(i + 1, DecStep(d, m[i]))
  IN go(1, DecInit)

(* ---- rules with their positions --------------------------------------- *)
(* Tokens and where they begin in the text.                                *)
Indices(text) == SelectSeq([i \in 1..Len(text) |-> i], LAMBDA i : ~(text[i] = 10 /\ i > 1 /\ text[i-1] = 13))
Spans(text) ==
  LET s == Preprocess(text)
      at == Indices(text)
      RECURSIVE run(_, _)
      run(st, ps) ==
        IF LexDone(s, st) THEN [toks |-> st.toks, pos |-> ps]
        ELSE LET nx == LexStep(s, st) IN
             run(nx, IF Len(nx.toks) > Len(st.toks) THEN Append(ps, at[st.pos]) ELSE ps)
  IN run(LexInit, <<>>)
Put(node, f, p) == [k |-> node.k, n |-> node.n, v |-> node.v, b |-> node.b, imp |-> node.imp, f |-> f, p |-> p]

(* CssParse!Items, with positions. *)
RECURSIVE Located(_, _, _, _, _, _)
Located(ts, ps, f, i, top, acc) ==
  IF i > Len(ts) THEN [b |-> acc, e |-> i]
  ELSE LET t == ts[i].t IN
  IF t \in {"ws", ";"} \/ (top /\ t \in {"cdo", "cdc"}) THEN Located(ts, ps, f, i+1, top, acc)
  ELSE IF t = "}" /\ ~top THEN [b |-> acc, e |-> i + 1]
  ELSE IF t = "at" THEN
    LET name == Lower(ts[i].v)
        s == ScanTo(ts, i+1, IF top THEN {";", "{"} ELSE {";", "{", "}"})
        pre == NormPrelude(name, Sub(ts, i+1, s-1))
    IN IF TypeAt(ts, s) = "{"
       THEN LET r == Located(ts, ps, f, s+1, FALSE, <<>>) IN
            Located(ts, ps, f, r.e, top, Append(acc, Put(Node("at", name, pre, r.b, FALSE), f, ps[i])))
       ELSE Located(ts, ps, f, IF TypeAt(ts, s) = ";" THEN s+1 ELSE s, top,
                  Append(acc, Put(Node("stmt", name, pre, <<>>, FALSE), f, ps[i])))
  ELSE
    LET s == ScanTo(ts, i, IF top THEN {"{"} ELSE {";", "{", "}"}) IN
    IF TypeAt(ts, s) = "{"
    THEN LET r == Located(ts, ps, f, s+1, FALSE, <<>>) IN
         Located(ts, ps, f, r.e, top, Append(acc, Put(Node("rule", <<>>, NormSel(Sub(ts, i, s-1)), r.b, FALSE), f, ps[i])))
    ELSE IF top THEN Located(ts, ps, f, s, top, acc)
    ELSE Located(ts, ps, f, s, top, Append(acc, Put(ItemNode(Sub(ts, i, s-1)), f, ps[i])))
PlacesOf(text, f) == LET x == Spans(text) IN Located(x.toks, x.pos, f, 1, TRUE, <<>>).b

(* All rules and at-rules, in order: those on top, in group rules and in   *)
(* @keyframes. What is in other blocks is text to the compiler.            *)
Groups == Keyframes \cup {MediaN}
  \cup {<<115,117,112,112,111,114,116,115>>,
        <<108,97,121,101,114>>,
        <<99,111,110,116,97,105,110,101,114>>,
        <<115,99,111,112,101>>,
        <<115,116,97,114,116,105,110,103,45,115,116,121,108,101>>,
        <<100,111,99,117,109,101,110,116>>,
        <<45,109,111,122,45,100,111,99,117,109,101,110,116>>}  \* supports, layer, container, scope, starting-style, document, -moz-document
RECURSIVE Rules(_)
Rules(nodes) ==
  Flat([i \in 1..Len(nodes) |-> IF nodes[i].k \in {"rule", "at", "stmt"}
                                THEN <<nodes[i]>> \o (IF nodes[i].k = "at" /\ nodes[i].n \in Groups THEN Rules(nodes[i].b) ELSE <<>>)
                                ELSE <<>>])

(* ---- the requirement --------------------------------------------------- *)
Target(c, f, s) ==
  LET I == {i \in 1..Len(c.imports) : c.imports[i].f = f /\ c.imports[i].s = s}
  IN IF I = {} THEN 0 ELSE c.imports[CHOOSE i \in I : TRUE].g

Increasing(segs) == \A i \in 1..(Len(segs) - 1) : segs[i].l < segs[i+1].l \/ (segs[i].l = segs[i+1].l /\ segs[i].c <= segs[i+1].c)

Bad(c, out, parsed) ==
  LET src == c.files[out.f]
      dec == Decode(out.map)
      nodes == IF out.inl THEN Expand(parsed, LAMBDA f, s : Target(c, f, s), out.f) ELSE parsed[out.f]
      e == Expected(out.o, nodes)
      a == Finish(PlacesOf(out.t, 0), FALSE)
      er == Rules(e)
      ar == Rules(a)
      ss == LineStarts(src)
      os == LineStarts(out.t)
      (* (a set, because TLC evaluates what is bound to one only once) *)
      Covering(p) == {LET before == SelectSeq(dec.segs, LAMBDA x : x.l = g.l /\ x.c <= g.c)
                      IN IF before = <<>> THEN [src |-> -1] ELSE before[Len(before)] : g \in {p}}
      Covers(p) == CHOOSE x \in Covering(p) : TRUE
      have == {dec.segs[k] : k \in 1..Len(dec.segs)}
      Mapped(i) ==
        LET g == MapPos(out.t, os, ar[i].p) IN
        IF er[i].f = out.f
        THEN LET w == MapPos(src, ss, er[i].p)
             IN [l |-> g.l, c |-> g.c, src |-> 0, ol |-> w.l, oc |-> w.c] \in have
        ELSE Covers(g).src = -1
      Inside(seg) == seg.src = -1 \/ (seg.src = 0 /\ seg.ol >= 0 /\ seg.ol < Len(ss) /\ seg.oc >= 0)
  IN IF ~dec.ok THEN <<"mappings cannot be decoded">>
     ELSE IF out.content # src THEN <<"embedded content differs">>
     ELSE IF ~Increasing(dec.segs) THEN <<"mappings are not in order">>
     ELSE IF \E i \in 1..Len(dec.segs) : ~Inside(dec.segs[i]) THEN <<"a mapping leaves the source">>
     ELSE IF ~MatchNodes(e, a, out.o.anylink) THEN <<>>       \* another property's business
     ELSE LET wrong == SelectSeq([i \in 1..Len(er) |-> i], LAMBDA i : ~Mapped(i)) IN
          IF wrong = <<>> THEN <<>>
          ELSE LET i == wrong[1] IN
               <<"rule is not mapped to where it comes from", i, MapPos(out.t, os, ar[i].p),
                 IF er[i].f = out.f THEN MapPos(src, ss, er[i].p) ELSE [l |-> -1, c |-> -1], Covers(MapPos(out.t, os, ar[i].p))>>

(* How many rules were compared. *)
Compared(c, out, parsed) ==
  LET nodes == IF out.inl THEN Expand(parsed, LAMBDA f, s : Target(c, f, s), out.f) ELSE parsed[out.f]
  IN Len(Rules(Expected(out.o, nodes)))

Init == n \in 1..Len(Cases) /\ verdict = "new"
Check ==
  /\ verdict = "new"
  /\ LET c == Cases[n]
         parsed == [i \in 1..Len(c.files) |-> PlacesOf(c.files[i], i)]
         bad == SelectSeq([i \in 1..Len(c.outs) |-> <<i, Bad(c, c.outs[i], parsed)>>], LAMBDA x : x[2] # <<>>)
     IN \E b \in {bad} :      \* evaluated once
          /\ verdict' = IF b = <<>> THEN "ok" ELSE "bad"
          /\ IF b = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", c.id, b[1]>>)
  /\ UNCHANGED n
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
