------------------------------ MODULE CssParse ------------------------------
(***************************************************************************)
(* Reference parser: CSS Syntax Module Level 3, section 5 (rules, at-rules *)
(* and declarations), plus the normal form of Selectors 4, An+B, Media     *)
(* Queries and Values that this project compares.                          *)
(*                                                                         *)
(* The *meaning* of a text is a sequence of nodes                          *)
(*     [k, n, v, b, imp]                                                   *)
(* k: "rule" (qualified rule), "decl", "raw" (not a declaration),          *)
(*    "at" (at-rule with block), "stmt" (at-rule without block),           *)
(*    "bad" (the text is not well formed here)                             *)
(* n: name (property, at-rule), v: tokens (selector list, value, prelude), *)
(* b: child nodes, imp: !important.                                        *)
(***************************************************************************)
EXTENDS CssLex

Node(k, n, v, b, imp) == [k |-> k, n |-> n, v |-> v, b |-> b, imp |-> imp]

WS  == Tok("ws", <<>>, <<>>)
P(c) == Tok(c, <<>>, <<>>)
D(c) == Tok("delim", <<c>>, <<>>)
TypeAt(ts, i) == IF i >= 1 /\ i <= Len(ts) THEN ts[i].t ELSE "eof"
IsDelim(tk, c) == tk.t = "delim" /\ tk.v = <<c>>

Opens(t)  == t \in {"(", "[", "{", "func"}
Closes(t) == t \in {")", "]", "}"}
CloserOf(t) == IF t = "[" THEN "]" ELSE IF t = "{" THEN "}" ELSE ")"

(* Index of the token closing the bracket opened at i, or Len+1. *)
RECURSIVE CloseOf(_, _, _)
CloseOf(ts, i, stack) ==
  IF i > Len(ts) THEN i
  ELSE LET t == ts[i].t IN
       IF Opens(t) THEN CloseOf(ts, i+1, Append(stack, CloserOf(t)))
       ELSE IF Closes(t) /\ stack # <<>> /\ t = stack[Len(stack)]
            THEN IF Len(stack) = 1 THEN i ELSE CloseOf(ts, i+1, Sub(stack, 1, Len(stack)-1))
            ELSE CloseOf(ts, i+1, stack)
Close(ts, i) == CloseOf(ts, i, <<>>)

(* First index >= i, outside brackets, whose type is in stop; or Len+1. *)
RECURSIVE ScanTo(_, _, _)
ScanTo(ts, i, stop) ==
  IF i > Len(ts) THEN i
  ELSE IF ts[i].t \in stop THEN i
  ELSE IF Opens(ts[i].t) THEN ScanTo(ts, Close(ts, i) + 1, stop)
  ELSE ScanTo(ts, i+1, stop)

NoWs(ts) == SelectSeq(ts, LAMBDA x : x.t # "ws")
(* Whitespace before the = of an operator like <= or ^= makes it another one. *)
NoWsOp(ts) ==
  LET keep == SelectSeq([i \in 1..Len(ts) |-> i],
                LAMBDA i : \/ ts[i].t # "ws"
                           \/ i > 1 /\ ts[i-1].t = "delim" /\ i < Len(ts) /\ IsDelim(ts[i+1], 61))
  IN [j \in 1..Len(keep) |-> ts[keep[j]]]

RECURSIVE TrimL(_)
TrimL(ts) == IF ts # <<>> /\ ts[1].t = "ws" THEN TrimL(Tail(ts)) ELSE ts
RECURSIVE TrimR(_)
TrimR(ts) == IF ts # <<>> /\ ts[Len(ts)].t = "ws" THEN TrimR(Sub(ts, 1, Len(ts)-1)) ELSE ts
Trim(ts) == TrimR(TrimL(ts))
(* Adjacent whitespace tokens (a comment was between them) are one. *)
Collapse(ts) ==
  LET keep == SelectSeq([i \in 1..Len(ts) |-> i],
                LAMBDA i : ~(ts[i].t = "ws" /\ i > 1 /\ ts[i-1].t = "ws"))
  IN [j \in 1..Len(keep) |-> ts[keep[j]]]

------------------------------------------------------------------------------
(* Numbers. *)
DigitsVal(s) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i+1, acc*10 + (s[i]-48))
  IN go(1, 0)
AllDigits(s) == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])
StripSign(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN Tail(s) ELSE s
IsInt(s) == AllDigits(StripSign(s))
IntVal(s) == IF s[1] = 45 THEN -DigitsVal(Tail(s)) ELSE DigitsVal(StripSign(s))

(* An+B: [a, b, ok] of a token sequence without whitespace. *)
W(str) == str
CN == 110  CPlus == 43  CMinus == 45
LowerT(tk) == Lower(tk.v)
Anb(a, b) == [ok |-> TRUE, a |-> a, b |-> b]
NoAnb == [ok |-> FALSE, a |-> 0, b |-> 0]
SignOf(tk) == IF tk.v = <<CMinus>> THEN -1 ELSE 1
(* the part after "An": nothing, a signed number, or a sign and a number *)
AnbRest(a, ts) ==
  IF Len(ts) = 0 THEN Anb(a, 0)
  ELSE IF Len(ts) = 1 /\ ts[1].t = "num" /\ IsInt(ts[1].v) /\ ts[1].v[1] \in {CPlus, CMinus}
       THEN Anb(a, IntVal(ts[1].v))
  ELSE IF Len(ts) = 2 /\ ts[1].t = "delim" /\ ts[1].v[1] \in {CPlus, CMinus}
          /\ ts[2].t = "num" /\ AllDigits(ts[2].v)
       THEN Anb(a, SignOf(ts[1]) * IntVal(ts[2].v))
  ELSE NoAnb
(* a name after the coefficient: "n", "n-", "n-3" *)
AnbName(a, name, rest) ==
  IF Len(name) = 1 THEN AnbRest(a, rest)
  ELSE IF name[2] # CMinus THEN NoAnb
  ELSE IF Len(name) = 2
       THEN IF Len(rest) = 1 /\ rest[1].t = "num" /\ AllDigits(rest[1].v)
            THEN Anb(a, -IntVal(rest[1].v)) ELSE NoAnb
  ELSE IF AllDigits(Sub(name, 3, Len(name))) /\ rest = <<>>
       THEN Anb(a, -DigitsVal(Sub(name, 3, Len(name)))) ELSE NoAnb
EvenN == <<101, 118, 101, 110>>
OddN  == <<111, 100, 100>>
ParseAnb(ts0) ==
  LET plus == ts0 # <<>> /\ IsDelim(ts0[1], CPlus)
      ts == IF plus THEN Tail(ts0) ELSE ts0
  IN
  IF ts = <<>> THEN NoAnb
  ELSE LET k == ts[1] r == Tail(ts) IN
  IF k.t = "ident" THEN
     LET nm == Lower(k.v) IN
     IF nm = EvenN /\ r = <<>> /\ ~plus THEN Anb(2, 0)
     ELSE IF nm = OddN /\ r = <<>> /\ ~plus THEN Anb(2, 1)
     ELSE IF nm[1] = CN THEN AnbName(1, nm, r)
     ELSE IF Len(nm) > 1 /\ nm[1] = CMinus /\ nm[2] = CN /\ ~plus THEN AnbName(-1, Tail(nm), r)
     ELSE NoAnb
  ELSE IF k.t = "dim" /\ ~plus /\ IsInt(k.v) /\ Lower(k.u)[1] = CN THEN AnbName(IntVal(k.v), Lower(k.u), r)
  ELSE IF k.t = "num" /\ ~plus /\ IsInt(k.v) /\ r = <<>> THEN Anb(0, IntVal(k.v))
  ELSE NoAnb

NthNames == { <<110,116,104,45,99,104,105,108,100>>,                              \* nth-child
              <<110,116,104,45,108,97,115,116,45,99,104,105,108,100>>,            \* nth-last-child
              <<110,116,104,45,111,102,45,116,121,112,101>>,                      \* nth-of-type
              <<110,116,104,45,108,97,115,116,45,111,102,45,116,121,112,101>> }   \* nth-last-of-type

------------------------------------------------------------------------------
(* Selectors: whitespace is a combinator only between compound selectors. *)
Combinator(tk) == tk.t = "," \/ (tk.t = "delim" /\ tk.v[1] \in {62, 43, 126})
RECURSIVE SqueezeSel(_)
SqueezeSel(ts0) ==
  LET ts == Collapse(ts0)
      keep == SelectSeq([i \in 1..Len(ts) |-> i],
                LAMBDA i : ~(/\ ts[i].t = "ws"
                             /\ \/ i = 1 \/ i = Len(ts)
                                \/ Combinator(ts[i-1]) \/ Combinator(ts[i+1])))
  IN [j \in 1..Len(keep) |-> ts[keep[j]]]

RECURSIVE NormSel(_)
NormSel(ts0) ==
  LET ts == SqueezeSel(ts0)
      RECURSIVE go(_, _)
      go(i, acc) ==
        IF i > Len(ts) THEN acc
        ELSE IF ts[i].t = "[" THEN
             LET c == Close(ts, i) IN go(c + 1, acc \o NoWsOp(Sub(ts, i, IF c > Len(ts) THEN Len(ts) ELSE c)))
        ELSE IF ts[i].t \in {"func", "("} THEN
             LET c == Close(ts, i)
                 inner == Sub(ts, i+1, c-1)
                 anb == IF ts[i].t = "func" /\ Lower(ts[i].v) \in NthNames THEN ParseAnb(NoWs(inner)) ELSE NoAnb
                 arg == IF anb.ok THEN <<Tok("anb", <<anb.a>>, <<anb.b>>)>> ELSE NormSel(inner)
             IN IF c > Len(ts) THEN acc \o <<ts[i]>> \o arg \o <<P("unclosed")>>
                ELSE go(c + 1, acc \o <<ts[i]>> \o arg \o <<ts[c]>>)
        ELSE go(i + 1, Append(acc, ts[i]))
  IN go(1, <<>>)

------------------------------------------------------------------------------
(* Preludes of at-rules. *)
ImportN   == <<105,109,112,111,114,116>>
MediaN    == <<109,101,100,105,97>>
CustomMediaN == <<99,117,115,116,111,109,45,109,101,100,105,97>>
SupportsN == <<115,117,112,112,111,114,116,115>>
Keyframes == { <<107,101,121,102,114,97,109,101,115>>,
               <<45,119,101,98,107,105,116,45,107,101,121,102,114,97,109,101,115>>,
               <<45,111,45,107,101,121,102,114,97,109,101,115>>,
               <<45,109,111,122,45,107,101,121,102,114,97,109,101,115>> }

(* url(x), url("x") and "x" name the same import target. *)
ImportPrelude(ts) ==
  IF ts = <<>> THEN ts
  ELSE IF ts[1].t = "url" THEN <<Tok("str", ts[1].v, <<>>)>> \o Tail(ts)
  ELSE IF /\ ts[1].t = "func" /\ Lower(ts[1].v) = UrlName /\ Len(ts) >= 3
          /\ ts[2].t = "str" /\ ts[3].t = ")"
       THEN <<ts[2]>> \o Sub(ts, 4, Len(ts))
  ELSE ts
(* Split at commas outside brackets. *)
RECURSIVE SplitC(_, _, _)
SplitC(ts, i, acc) ==
  LET s == ScanTo(ts, i, {","}) IN
  IF s > Len(ts) THEN Append(acc, Sub(ts, i, Len(ts)))
  ELSE SplitC(ts, s+1, Append(acc, Sub(ts, i, s-1)))
SplitCommas(ts) == SplitC(ts, 1, <<>>)
(* An empty query between commas is "not all": it adds nothing to a list,   *)
(* but a list of nothing else never applies.                                *)
NotAll == <<Tok("ident", <<110,111,116>>, <<>>), Tok("ident", <<97,108,108>>, <<>>)>>
RECURSIVE JoinQueries(_)
JoinQueries(qs) == IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o <<Tok(",", <<>>, <<>>)>> \o JoinQueries(Tail(qs))
Queries(ts) ==
  LET parts == SplitCommas(ts)
      full == SelectSeq(parts, LAMBDA q : q # <<>>)
  IN IF Len(parts) = 1 \/ Len(full) = Len(parts) THEN ts
     ELSE IF full = <<>> THEN NotAll ELSE JoinQueries(full)
NormPrelude(name, ts) ==
  IF name = ImportN
  THEN LET p == ImportPrelude(NoWsOp(ts)) IN IF p = <<>> THEN p ELSE <<p[1]>> \o Queries(Tail(p))
  ELSE IF name \in {MediaN, CustomMediaN} THEN Queries(NoWsOp(ts))
  ELSE IF name \in Keyframes THEN NoWs(ts)
  ELSE Trim(Collapse(ts))

------------------------------------------------------------------------------
(* Declarations. *)
ImportantN == <<105,109,112,111,114,116,97,110,116>>
EndsImportant(v) ==
  /\ Len(v) >= 2
  /\ IsDelim(v[Len(v)-1], 33)
  /\ v[Len(v)].t = "ident" /\ Lower(v[Len(v)].v) = ImportantN
Star == 42
ItemNode(ts0) ==
  LET ts == Trim(Collapse(ts0))
      star == Len(ts) >= 2 /\ IsDelim(ts[1], Star) /\ ts[2].t = "ident"
      t2 == IF star THEN Tail(ts) ELSE ts
      nm == IF star THEN <<Star>> \o ts[2].v ELSE IF ts # <<>> THEN ts[1].v ELSE <<>>
      c == IF Len(t2) >= 2 /\ t2[1].t = "ident" /\ t2[2].t = ":" THEN 2
           ELSE IF Len(t2) >= 3 /\ t2[1].t = "ident" /\ t2[2].t = "ws" /\ t2[3].t = ":" THEN 3 ELSE 0
      v == NoWs(Sub(t2, c + 1, Len(t2)))
      imp == EndsImportant(v)
  IN IF c = 0 THEN Node("raw", <<>>, ts, <<>>, FALSE)
     ELSE Node("decl", nm, IF imp THEN Sub(v, 1, Len(v) - 2) ELSE v, <<>>, imp)

(* The items of a stylesheet (top) or of a block, starting at i. *)
RECURSIVE Items(_, _, _, _)
Items(ts, i, top, acc) ==
  IF i > Len(ts)
  THEN [b |-> IF top THEN acc ELSE Append(acc, Node("bad", <<>>, <<>>, <<>>, FALSE)), e |-> i]
  ELSE LET t == ts[i].t IN
  IF t \in {"ws", ";"} \/ (top /\ t \in {"cdo", "cdc"}) THEN Items(ts, i+1, top, acc)
  ELSE IF t = "}" /\ ~top THEN [b |-> acc, e |-> i + 1]
  ELSE IF t = "at" THEN
    LET name == Lower(ts[i].v)
        s == ScanTo(ts, i+1, IF top THEN {";", "{"} ELSE {";", "{", "}"})
        pre == NormPrelude(name, Sub(ts, i+1, s-1))
    IN IF TypeAt(ts, s) = "{"
       THEN LET r == Items(ts, s+1, FALSE, <<>>) IN
            Items(ts, r.e, top, Append(acc, Node("at", name, pre, r.b, FALSE)))
       ELSE Items(ts, IF TypeAt(ts, s) = ";" THEN s+1 ELSE s, top,
                  Append(acc, Node("stmt", name, pre, <<>>, FALSE)))
  ELSE
    LET s == ScanTo(ts, i, IF top THEN {"{"} ELSE {";", "{", "}"}) IN
    IF TypeAt(ts, s) = "{"
    THEN LET r == Items(ts, s+1, FALSE, <<>>) IN
         Items(ts, r.e, top, Append(acc, Node("rule", <<>>, NormSel(Sub(ts, i, s-1)), r.b, FALSE)))
    ELSE IF top THEN Items(ts, s, top, Append(acc, Node("bad", <<>>, Sub(ts, i, s-1), <<>>, FALSE)))
    ELSE Items(ts, s, top, Append(acc, ItemNode(Sub(ts, i, s-1))))

(* The meaning of a token sequence / of a text. *)
ParseTokens(ts) == Items(ts, 1, TRUE, <<>>).b
Meaning(text) == ParseTokens(Tokens(text))

(* Empty rules and empty conditional groups mean nothing. *)
RECURSIVE DropEmpty(_)
DropEmpty(nodes) ==
  LET mapped == [i \in 1..Len(nodes) |-> [nodes[i] EXCEPT !.b = DropEmpty(@)]]
  IN SelectSeq(mapped, LAMBDA x :
       ~(x.b = <<>> /\ (x.k = "rule" \/ (x.k = "at" /\ x.n \in {MediaN, SupportsN}))))
=============================================================================
