---------------------------- MODULE CssTransform ----------------------------
(***************************************************************************)
(* Reference semantics of cssc's transforms, on the meaning of a           *)
(* stylesheet (CssParse nodes).  Each transform is a function from         *)
(* meanings to meanings; a compilation is the composition                  *)
(*    Apply(opts, Inline(project, entry)).                                 *)
(* Options: [ranges, anylink, props, media, calc] of BOOLEAN.              *)
(***************************************************************************)
EXTENDS CssParse, FiniteSets, Decimal

(* ---- numbers ---------------------------------------------------------- *)
IndexOf(s, c) == LET I == {i \in 1..Len(s) : s[i] = c}
                 IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
(* The value of a number literal: digits, a fraction, an exponent. *)
NumFrac(raw) ==
  LET s0 == StripSign(raw)
      E == {i \in 1..Len(s0) : s0[i] \in {69, 101}}
      e == IF E = {} THEN Len(s0) + 1 ELSE CHOOSE i \in E : TRUE
      s == Sub(s0, 1, e-1)
      x == Sub(s0, e+1, Len(s0))
      dot == IndexOf(s, 46)
      ip == IF dot = 0 THEN s ELSE Sub(s, 1, dot-1)
      fp == IF dot = 0 THEN <<>> ELSE Sub(s, dot+1, Len(s))
  IN IF Len(StripSign(x)) > 4 THEN Unknown
     ELSE FOf(raw[1] = 45, ip \o fp, (IF x = <<>> THEN 0 ELSE IntVal(x)) - Len(fp))
Near(raw, f) == Len(raw) > 0 /\ FNear(NumFrac(raw), f)

(* An expected number: value known exactly, spelling free. *)
ApproxTok(f, unit) == [t |-> "approx", v |-> FEnc(f), u |-> unit]
UnitOf(tk) == IF tk.t = "pct" THEN <<37>> ELSE tk.u
IsNumTok(tk) == tk.t \in {"num", "dim", "pct"}
FracOf(tk) == IF tk.t = "approx" THEN FDec(tk.v) ELSE NumFrac(tk.v)

(* ---- token trees ------------------------------------------------------ *)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE JoinC(_)
JoinC(ss) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1]
             ELSE ss[1] \o <<P(",")>> \o JoinC(Tail(ss))
DashDash(s) == Len(s) >= 2 /\ s[1] = 45 /\ s[2] = 45

VarN  == <<118, 97, 114>>
CalcN == <<99, 97, 108, 99>>
MathNames == { CalcN, <<109,105,110>>, <<109,97,120>>, <<99,108,97,109,112>> }
RootN == <<114,111,111,116>>
AnyLinkN == <<97,110,121,45,108,105,110,107>>
LinkN == <<108,105,110,107>>
VisitedN == <<118,105,115,105,116,101,100>>
AndN == <<97,110,100>>
Ident(n) == Tok("ident", n, <<>>)

(* ======================= custom properties ============================= *)
PlainRoot(node) == node.k = "rule" /\ Len(node.v) = 2 /\ node.v[1] = P(":") /\ node.v[2].t = "ident" /\ Lower(node.v[2].v) = RootN
IsCustomProp(d) == d.k = "decl" /\ DashDash(d.n)
(* The definitions of a stylesheet: the last one of each name counts. *)
PropDefs(nodes) ==
  Flat([i \in 1..Len(nodes) |->
     IF PlainRoot(nodes[i]) THEN SelectSeq(nodes[i].b, IsCustomProp) ELSE <<>>])
Defined(defs, name) == \E i \in 1..Len(defs) : defs[i].n = name
DefOf(defs, name) ==
  LET i == CHOOSE i \in 1..Len(defs) :
             defs[i].n = name /\ \A j \in (i+1)..Len(defs) : defs[j].n # name
  IN defs[i].v
RemoveDefs(nodes) ==
  [i \in 1..Len(nodes) |->
     IF PlainRoot(nodes[i])
     THEN [nodes[i] EXCEPT !.b = SelectSeq(@, LAMBDA d : ~IsCustomProp(d))] ELSE nodes[i]]

(* Substitute var() in tokens; busy: names being expanded (a cycle is      *)
(* treated as undefined).                                                  *)
RECURSIVE SubstVar(_, _, _)
SubstVar(ts, defs, busy) ==
  LET RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF ts[i].t = "func" /\ Lower(ts[i].v) = VarN /\ Close(ts, i) <= Len(ts) THEN
          LET c == Close(ts, i)
              inner == Sub(ts, i+1, c-1)
              comma == ScanTo(inner, 1, {","})
              name == IF inner # <<>> THEN inner[1].v ELSE <<>>
              fb == Sub(inner, comma+1, Len(inner))
              whole == IF comma > Len(inner) THEN Sub(ts, i, c)
                       ELSE Sub(ts, i, i + comma) \o SubstVar(fb, defs, busy) \o <<ts[c]>>
          IN IF Defined(defs, name) /\ name \notin busy
             THEN go(c+1, acc \o SubstVar(DefOf(defs, name), defs, busy \cup {name}))
             ELSE IF comma <= Len(inner) /\ fb # <<>> THEN go(c+1, acc \o SubstVar(fb, defs, busy))
             ELSE go(c+1, acc \o whole)
        ELSE go(i+1, Append(acc, ts[i]))
  IN go(1, <<>>)
MapDecls(nodes, F(_)) ==
  LET RECURSIVE m(_)
      m(ns) == [i \in 1..Len(ns) |->
                  IF ns[i].k = "decl" THEN [ns[i] EXCEPT !.v = F(@)]
                  ELSE [ns[i] EXCEPT !.b = m(@)]]
  IN m(nodes)
Props(nodes) ==
  LET defs == PropDefs(nodes) IN MapDecls(RemoveDefs(nodes), LAMBDA v : SubstVar(v, defs, {}))

TypedName(v, j) == IF j < Len(v) THEN v[j+1].v ELSE <<>>
(* var() without definition and fallback that stay, as warnings. *)
RECURSIVE CountVars(_)
CountVars(nodes) ==
  LET RECURSIVE sum(_)
      sum(i) == IF i > Len(nodes) THEN 0
                ELSE sum(i+1) + (IF nodes[i].k = "decl"
                     THEN Cardinality({j \in 1..Len(nodes[i].v) : nodes[i].v[j].t = "func" /\ Lower(nodes[i].v[j].v) = VarN})
                     ELSE CountVars(nodes[i].b))
  IN sum(1)

(* the names they have *)
RECURSIVE VarNames(_)
VarNames(nodes) ==
  UNION {IF nodes[i].k = "decl"
         THEN {TypedName(nodes[i].v, k) : k \in {j \in 1..Len(nodes[i].v) : nodes[i].v[j].t = "func" /\ Lower(nodes[i].v[j].v) = VarN}}
         ELSE VarNames(nodes[i].b) : i \in 1..Len(nodes)}

(* ======================= custom media queries ========================== *)
HasMediaPrelude(node) ==
  \/ node.k = "at" /\ node.n = MediaN
  \/ node.k = "stmt" /\ node.n = ImportN
IsCustomMedia(node) == node.k = "stmt" /\ node.n = CustomMediaN /\ node.v # <<>>
MediaDefs(nodes) ==
  LET ds == SelectSeq(nodes, IsCustomMedia)
  IN [i \in 1..Len(ds) |-> [n |-> ds[i].v[1].v, v |-> Tail(ds[i].v)]]
RECURSIVE ExpandMedia(_, _, _)
ExpandMedia(ts, defs, busy) ==
  LET RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF /\ ts[i].t = "(" /\ TypeAt(ts, i+1) = "ident" /\ TypeAt(ts, i+2) = ")"
                /\ DashDash(ts[i+1].v) /\ Defined(defs, ts[i+1].v) /\ ts[i+1].v \notin busy
             THEN go(i+3, acc \o ExpandMedia(DefOf(defs, ts[i+1].v), defs, busy \cup {ts[i+1].v}))
        ELSE go(i+1, Append(acc, ts[i]))
  IN go(1, <<>>)
MapPreludes(nodes, F(_)) ==
  LET RECURSIVE m(_)
      m(ns) == [i \in 1..Len(ns) |->
                  LET x == [ns[i] EXCEPT !.b = m(@)] IN
                  IF HasMediaPrelude(x) THEN [x EXCEPT !.v = F(@)] ELSE x]
  IN m(nodes)
Media(nodes) ==
  LET defs == MediaDefs(nodes) IN MapPreludes(nodes, LAMBDA v : ExpandMedia(v, defs, {}))
(* Definitions never reach the output (also with the transform off, which  *)
(* the project's own tests pin).                                           *)
RemoveMedia(nodes) == SelectSeq(nodes, LAMBDA x : ~IsCustomMedia(x))

(* ======================= range media features ========================== *)
CLt == 60  CGt == 62  CEq == 61
IsCmp(tk) == tk.t = "delim" /\ tk.v[1] \in {CLt, CGt}
MinP == <<109,105,110,45>>
MaxP == <<109,97,120,45>>
Step == FOf(FALSE, <<49>>, -3)
Moved(tk, by) == LET f == FAdd(FracOf(tk), by) IN ApproxTok(f, UnitOf(tk))
Feature(prefix, prop, val) == <<P("("), Ident(prefix \o prop), P(":"), val, P(")")>>
(* value OP property, OP \in < <= > >= : a lower bound if OP is < or <=. *)
LeftBound(val, op, eq, prop) ==
  IF op = CLt THEN Feature(MinP, prop, IF eq THEN val ELSE Moved(val, Step))
  ELSE Feature(MaxP, prop, IF eq THEN val ELSE Moved(val, FNeg(Step)))
(* property OP value *)
RightBound(prop, op, eq, val) ==
  IF op = CLt THEN Feature(MaxP, prop, IF eq THEN val ELSE Moved(val, FNeg(Step)))
  ELSE Feature(MinP, prop, IF eq THEN val ELSE Moved(val, Step))
(* One operator at i: [op, eq, next] *)
OpAt(ts, i) == LET eq == i+1 <= Len(ts) /\ IsDelim(ts[i+1], CEq)
               IN [op |-> ts[i].v[1], eq |-> eq, next |-> IF eq THEN i+2 ELSE i+1]
(* inner: the tokens between the parentheses of a feature *)
IsRange(inner) == Len(inner) >= 3 /\ IsCmp(inner[2])
                  /\ (IsNumTok(inner[1]) \/ inner[1].t = "ident")
LowerRange(inner) ==
  LET o1 == OpAt(inner, 2) IN
  IF inner[1].t = "ident"
  THEN RightBound(inner[1].v, o1.op, o1.eq, inner[o1.next])
  ELSE LET prop == inner[o1.next].v left == LeftBound(inner[1], o1.op, o1.eq, prop) IN
       IF o1.next = Len(inner) THEN left
       ELSE LET o2 == OpAt(inner, o1.next + 1)
            IN left \o <<Ident(AndN)>> \o RightBound(prop, o2.op, o2.eq, inner[o2.next])
LowerRanges(ts) ==
  LET RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF ts[i].t = "(" /\ Close(ts, i) <= Len(ts) /\ IsRange(Sub(ts, i+1, Close(ts, i)-1))
             THEN go(Close(ts, i)+1, acc \o LowerRange(Sub(ts, i+1, Close(ts, i)-1)))
        ELSE go(i+1, Append(acc, ts[i]))
  IN go(1, <<>>)
Ranges(nodes) == MapPreludes(nodes, LowerRanges)

(* ============================ :any-link ================================ *)
(* All choices for one selector; a nested selector list is expanded in     *)
(* place.                                                                  *)
RECURSIVE Choices(_)
RECURSIVE ExpandList(_)
Choices(ts) ==
  LET RECURSIVE go(_, _)     \* acc: set-as-sequence of partial selectors
      Ext(acc, x) == [j \in 1..Len(acc) |-> acc[j] \o x]
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF /\ ts[i].t = ":" /\ i < Len(ts) /\ ts[i+1].t = "ident" /\ Lower(ts[i+1].v) = AnyLinkN
                /\ TypeAt(ts, i-1) # ":"
             THEN go(i+2, Ext(acc, <<P(":"), Ident(VisitedN)>>) \o Ext(acc, <<P(":"), Ident(LinkN)>>))
        ELSE IF ts[i].t \in {"func", "("} /\ Close(ts, i) <= Len(ts)
             THEN LET c == Close(ts, i) IN
                  go(c+1, Ext(acc, <<ts[i]>> \o JoinC(ExpandList(SplitCommas(Sub(ts, i+1, c-1)))) \o <<ts[c]>>))
        ELSE go(i+1, Ext(acc, <<ts[i]>>))
  IN go(1, << <<>> >>)
ExpandList(sels) == Flat([i \in 1..Len(sels) |-> Choices(sels[i])])
RECURSIVE AnyLink(_)
AnyLink(nodes) ==
  [i \in 1..Len(nodes) |->
     LET m == [nodes[i] EXCEPT !.b = AnyLink(@)] IN
     IF m.k = "rule" THEN [m EXCEPT !.v = JoinC(ExpandList(SplitCommas(@)))] ELSE m]
HasAnyLink(v) == \E i \in 1..Len(v) : v[i].t = "ident" /\ Lower(v[i].v) = AnyLinkN

(* ============================== calc() ================================= *)
(* Canonical text of tokens, for the contents of math functions.           *)
TokText(tk) ==
  CASE tk.t \in {"num"} -> tk.v
    [] tk.t = "dim" -> tk.v \o tk.u
    [] tk.t = "pct" -> tk.v \o <<37>>
    [] tk.t = "ident" -> tk.v
    [] tk.t = "func" -> tk.v \o <<40>>
    [] tk.t = "(" -> <<40>>
    [] tk.t = ")" -> <<41>>
    [] tk.t = "," -> <<44>>
    [] tk.t = "delim" -> tk.v
    [] OTHER -> <<0>> \o tk.v
TokensText(ts) == Flat([i \in 1..Len(ts) |-> TokText(ts[i])])

(* Evaluate the tokens of a calc expression: [s, f, u]                     *)
(*   s = "num" (value f, unit u), "open" (valid but not one known number), *)
(*   "err" (invalid).                                                      *)
ENum(f, u) == [s |-> "num", f |-> f, u |-> u]
EOpen == [s |-> "open", f |-> Unknown, u |-> <<>>]
EErr  == [s |-> "err",  f |-> Unknown, u |-> <<>>]
Combine(op, a, b) ==
  IF a.s = "err" \/ b.s = "err" THEN EErr
  ELSE IF op \in {43, 45} THEN
     IF a.s # "num" \/ b.s # "num" THEN EOpen
     ELSE IF a.u = b.u THEN ENum(FAdd(a.f, IF op = 45 THEN FNeg(b.f) ELSE b.f), a.u)
     ELSE IF a.u = <<>> \/ b.u = <<>> THEN EErr ELSE EOpen
  ELSE IF op = 42 THEN
     IF a.s # "num" \/ b.s # "num" THEN EOpen
     ELSE IF a.u # <<>> /\ b.u # <<>> THEN EErr
     ELSE ENum(FMul(a.f, b.f), IF a.u = <<>> THEN b.u ELSE a.u)
  ELSE IF b.s = "num" /\ (b.u # <<>> \/ IsZero(b.f)) THEN EErr
     ELSE IF a.s # "num" \/ b.s # "num" THEN EOpen
     ELSE ENum(FMul(a.f, FInv(b.f)), a.u)

RECURSIVE EvalSum(_)
EvalPrimary(ts) ==
  IF Len(ts) = 1 /\ IsNumTok(ts[1]) THEN ENum(NumFrac(ts[1].v), UnitOf(ts[1]))
  ELSE IF Len(ts) >= 2 /\ Close(ts, 1) = Len(ts) /\ (ts[1].t = "(" \/ (ts[1].t = "func" /\ Lower(ts[1].v) = CalcN))
       THEN EvalSum(Sub(ts, 2, Len(ts)-1))
  ELSE EOpen
(* last index outside brackets of a delim in ops, or 0 *)
RECURSIVE LastOp(_, _, _, _)
LastOp(ts, i, ops, best) ==
  IF i > Len(ts) THEN best
  ELSE IF Opens(ts[i].t) THEN LastOp(ts, Close(ts, i)+1, ops, best)
  ELSE LastOp(ts, i+1, ops, IF ts[i].t = "delim" /\ ts[i].v[1] \in ops THEN i ELSE best)
RECURSIVE EvalProduct(_)
EvalProduct(ts) ==
  LET k == LastOp(ts, 1, {42, 47}, 0) IN
  IF k <= 1 \/ k = Len(ts) THEN EvalPrimary(ts)
  ELSE Combine(ts[k].v[1], EvalProduct(Sub(ts, 1, k-1)), EvalPrimary(Sub(ts, k+1, Len(ts))))
EvalSum(ts) ==
  LET k == LastOp(ts, 1, {43, 45}, 0) IN
  IF k <= 1 \/ k = Len(ts) THEN EvalProduct(ts)
  ELSE Combine(ts[k].v[1], EvalSum(Sub(ts, 1, k-1)), EvalProduct(Sub(ts, k+1, Len(ts))))

(* What is inside calc( ) as a whole: exactly one expression ("odd": it is
   not, which may be reported).                                            *)
EOdd == [EErr EXCEPT !.s = "odd"]
EvalCalc(ts) == IF ts = <<>> \/ ScanTo(ts, 1, {","}) <= Len(ts) THEN EOdd ELSE EvalSum(ts)

(* Replace math functions by one token each.                               *)
(*  "math": its text.  With reduction, calc() becomes                      *)
(*  "calc": v = its text, u = << must, known, length >> \o number \o unit  *)
RECURSIVE FoldMath(_, _)
FoldMath(ts, reduce) ==
  LET RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF ts[i].t = "func" /\ Lower(ts[i].v) \in MathNames /\ Close(ts, i) <= Len(ts) THEN
          LET c == Close(ts, i)
              inner == Sub(ts, i+1, c-1)
              text == TokensText(Sub(ts, i, c))
              ev == EvalCalc(inner)
              must == IF ev.s = "num" /\ Known(ev.f) THEN 1 ELSE 0
              tk == IF reduce /\ Lower(ts[i].v) = CalcN
                    THEN Tok("calc", text, IF ev.s = "num" THEN <<must, 1, Len(FEnc(ev.f))>> \o FEnc(ev.f) \o ev.u
                                           ELSE <<0, 0, 0>>)
                    ELSE Tok("math", text, <<>>)
          IN go(c+1, Append(acc, tk))
        ELSE go(i+1, Append(acc, ts[i]))
  IN go(1, <<>>)
FoldMathIn(nodes, reduce) == MapDecls(nodes, LAMBDA v : FoldMath(v, reduce))

(* number of calc() that are invalid / that are there at all *)
RECURSIVE CalcErrs(_, _)
CalcErrsV(ts, bad) ==
  LET RECURSIVE go(_)
      go(i) == IF i > Len(ts) THEN 0
               ELSE IF ts[i].t = "func" /\ Lower(ts[i].v) \in MathNames \ {CalcN} /\ Close(ts, i) <= Len(ts)
               THEN go(Close(ts, i)+1)
               ELSE IF ts[i].t = "func" /\ Lower(ts[i].v) = CalcN /\ Close(ts, i) <= Len(ts)
               THEN go(Close(ts, i)+1) + (IF EvalCalc(Sub(ts, i+1, Close(ts, i)-1)).s \in bad THEN 1 ELSE 0)
               ELSE go(i+1)
  IN go(1)
CalcErrs(nodes, bad) ==
  LET RECURSIVE sum(_)
      sum(i) == IF i > Len(nodes) THEN 0
                ELSE sum(i+1) + (IF nodes[i].k = "decl" THEN CalcErrsV(nodes[i].v, bad) ELSE CalcErrs(nodes[i].b, bad))
  IN sum(1)

(* ============================ composition ============================== *)
Apply(o, nodes) ==
  LET a == IF o.props THEN Props(nodes) ELSE nodes
      b == IF o.media THEN Media(a) ELSE a
      c == RemoveMedia(b)
      d == IF o.ranges THEN Ranges(c) ELSE c
      e == IF o.anylink THEN AnyLink(d) ELSE d
  IN e

(* =============================== inlining ============================== *)
(* A project: parsed [path -> nodes], target [specifier -> path or ""].    *)
(* Inlining replaces each resolvable import by the imported rules, once    *)
(* per statement; an import that closes a cycle contributes nothing.       *)
Expand(parsed, target(_, _), f0) ==
  LET RECURSIVE x(_, _)
      x(f, stack) ==
        LET nodes == parsed[f] IN
        Flat([i \in 1..Len(nodes) |->
           IF nodes[i].k = "stmt" /\ nodes[i].n = ImportN /\ nodes[i].v # <<>>
           THEN LET g == target(f, nodes[i].v[1].v) IN
                IF g = 0 THEN <<nodes[i]>>
                ELSE IF g \in stack \cup {f} THEN <<>>
                ELSE x(g, stack \cup {f})
           ELSE <<nodes[i]>>])
  IN x(f0, {})

(* ============================= comparison ============================== *)
MatchTok(e, a) ==
  CASE e.t = "approx" -> IsNumTok(a) /\ UnitOf(a) = e.u /\ Near(a.v, FDec(e.v))
    [] e.t = "calc" ->
         \/ a.t = "math" /\ a.v = e.v /\ e.u[1] = 0
         \/ /\ IsNumTok(a) /\ e.u[2] = 1
            /\ UnitOf(a) = Sub(e.u, 4 + e.u[3], Len(e.u))
            /\ Near(a.v, FDec(Sub(e.u, 4, 3 + e.u[3])))
    [] OTHER -> e = a
MatchToks(e, a) == Len(e) = Len(a) /\ \A i \in 1..Len(e) : MatchTok(e[i], a[i])
(* Selector lists are compared as bags, nested argument lists included. *)
RECURSIVE EqSel(_, _)
EqList(A, B) ==
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) :
       Cardinality({j \in 1..Len(A) : EqSel(A[i], A[j])}) =
       Cardinality({j \in 1..Len(B) : EqSel(A[i], B[j])})
EqSel(a, b) ==
  LET RECURSIVE go(_, _)
      go(i, j) ==
        IF i > Len(a) \/ j > Len(b) THEN i > Len(a) /\ j > Len(b)
        ELSE IF a[i] # b[j] THEN FALSE
        ELSE IF a[i].t \in {"func", "("} /\ Close(a, i) <= Len(a) /\ Close(b, j) <= Len(b) THEN
             /\ EqList(SplitCommas(Sub(a, i+1, Close(a, i)-1)), SplitCommas(Sub(b, j+1, Close(b, j)-1)))
             /\ go(Close(a, i)+1, Close(b, j)+1)
        ELSE go(i+1, j+1)
  IN go(1, 1)

RECURSIVE MatchNodes(_, _, _)
MatchNode(e, a, bag) ==
  /\ e.k = a.k /\ e.n = a.n /\ e.imp = a.imp
  /\ IF bag /\ e.k = "rule" THEN e.v = a.v \/ EqList(SplitCommas(e.v), SplitCommas(a.v))
     ELSE MatchToks(e.v, a.v)
  /\ MatchNodes(e.b, a.b, bag)
MatchNodes(e, a, bag) == Len(e) = Len(a) /\ \A i \in 1..Len(e) : MatchNode(e[i], a[i], bag)

Finish(nodes, reduce) == DropEmpty(FoldMathIn(nodes, reduce))
(* What an output of options o must mean, and what an output text means.   *)
Expected(o, nodes) == Finish(Apply(o, nodes), o.calc)
Actual(text) == Finish(Meaning(text), FALSE)
Conforms(o, nodes, text) == MatchNodes(Expected(o, nodes), Actual(text), o.anylink)
=============================================================================
