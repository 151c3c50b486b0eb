------------------------------- MODULE CssLex -------------------------------
(***************************************************************************)
(* Reference tokenizer: CSS Syntax Module Level 3, section 4, transcribed  *)
(* as a transition function.  A lexer state is [pos, toks]; LexStep takes  *)
(* the state across exactly one token.  The text is a sequence of code     *)
(* points.  This module is written from the CSS specification, not from    *)
(* cssc: it is the oracle for what a text *means* lexically.               *)
(*                                                                         *)
(* A token is a record [t, v, u]: type, decoded value, decoded unit.       *)
(***************************************************************************)
EXTENDS Integers, Sequences

EOFC == -1
(* SubSeq, cut off at the ends of the sequence. *)
Sub(s, i, j) == LET e == IF j > Len(s) THEN Len(s) ELSE j
                IN IF i > e THEN <<>> ELSE SubSeq(s, i, e)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE EOFC

(* 3.3 Preprocessing: CRLF, CR and FF become LF; NUL becomes U+FFFD. *)
Preprocess(s) ==
  LET keep == SelectSeq([i \in 1..Len(s) |-> i],
                        LAMBDA i : ~(s[i] = 10 /\ i > 1 /\ s[i-1] = 13))
  IN  [k \in 1..Len(keep) |->
         LET c == s[keep[k]] IN
         IF c = 13 \/ c = 12 THEN 10 ELSE IF c = 0 THEN 65533 ELSE c]

IsDigit(c)     == c >= 48 /\ c <= 57
IsHex(c)       == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
IsNameStart(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ c >= 128 \/ c = 95
IsNameC(c)     == IsNameStart(c) \/ IsDigit(c) \/ c = 45
IsWs(c)        == c = 32 \/ c = 10 \/ c = 9
IsNonPrint(c)  == (c >= 0 /\ c <= 8) \/ c = 11 \/ (c >= 14 /\ c <= 31) \/ c = 127

HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

(* 4.3.8 Two code points are a valid escape. *)
ValidEscape(a, b) == a = 92 /\ b # 10
(* As used while consuming names and urls: an escape at the end of input still is one. *)
EscapeAt(s, i) == At(s, i) = 92 /\ At(s, i+1) # 10
(* 4.3.9 Three code points would start an ident sequence. *)
StartsIdent(s, i) ==
  LET a == At(s, i) b == At(s, i+1) IN
  IF a = 45 THEN b = 45 \/ IsNameStart(b) \/ EscapeAt(s, i+1)
  ELSE IsNameStart(a) \/ EscapeAt(s, i)
(* 4.3.10 Three code points would start a number. *)
StartsNumber(s, i) ==
  LET a == At(s, i) b == At(s, i+1) c == At(s, i+2) IN
  IF a = 43 \/ a = 45 THEN IsDigit(b) \/ (b = 46 /\ IsDigit(c))
  ELSE IF a = 46 THEN IsDigit(b) ELSE IsDigit(a)

RECURSIVE WsEnd(_, _)
WsEnd(s, i) == IF IsWs(At(s, i)) THEN WsEnd(s, i+1) ELSE i
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF IsDigit(At(s, i)) THEN DigitsEnd(s, i+1) ELSE i

(* 4.3.7 Consume an escaped code point; i is just after the backslash. *)
RECURSIVE HexRun(_, _, _, _)
HexRun(s, i, k, acc) ==
  IF k < 6 /\ IsHex(At(s, i)) THEN HexRun(s, i+1, k+1, acc*16 + HexVal(At(s, i)))
  ELSE [c |-> acc, e |-> IF IsWs(At(s, i)) THEN i+1 ELSE i]
Escape(s, i) ==
  IF At(s, i) = EOFC THEN [c |-> 65533, e |-> i]
  ELSE IF IsHex(At(s, i))
       THEN LET r == HexRun(s, i, 0, 0) IN
            IF r.c = 0 \/ (r.c >= 55296 /\ r.c <= 57343) \/ r.c > 1114111
            THEN [c |-> 65533, e |-> r.e] ELSE r
       ELSE [c |-> At(s, i), e |-> i+1]

(* 4.3.11 Consume an ident sequence. Plain runs are sliced, escapes decoded. *)
RECURSIVE PlainEnd(_, _)
PlainEnd(s, i) == IF IsNameC(At(s, i)) THEN PlainEnd(s, i+1) ELSE i
RECURSIVE Name(_, _, _)
Name(s, i, acc) ==
  LET e == PlainEnd(s, i) acc2 == acc \o Sub(s, i, e-1) IN
  IF EscapeAt(s, e) THEN LET x == Escape(s, e+1) IN Name(s, x.e, Append(acc2, x.c))
  ELSE [v |-> acc2, e |-> e]

(* 4.3.12 Consume a number: only its representation is kept. *)
NumberEnd(s, i) ==
  LET a == IF At(s, i) = 43 \/ At(s, i) = 45 THEN i+1 ELSE i
      b == DigitsEnd(s, a)
      c == IF At(s, b) = 46 /\ IsDigit(At(s, b+1)) THEN DigitsEnd(s, b+1) ELSE b
      e == At(s, c)
      d == IF e = 69 \/ e = 101
           THEN IF IsDigit(At(s, c+1)) THEN DigitsEnd(s, c+1)
                ELSE IF (At(s, c+1) = 43 \/ At(s, c+1) = 45) /\ IsDigit(At(s, c+2))
                     THEN DigitsEnd(s, c+2) ELSE c
           ELSE c
  IN d

Tok(t, v, u) == [t |-> t, v |-> v, u |-> u]
Res(t, v, u, e) == [k |-> Tok(t, v, u), e |-> e]

LexNumeric(s, i) ==
  LET e == NumberEnd(s, i) raw == Sub(s, i, e-1) IN
  IF StartsIdent(s, e) THEN LET n == Name(s, e, <<>>) IN Res("dim", raw, n.v, n.e)
  ELSE IF At(s, e) = 37 THEN Res("pct", raw, <<>>, e+1)
  ELSE Res("num", raw, <<>>, e)

(* 4.3.5 Consume a string token. *)
RECURSIVE StrPlainEnd(_, _, _)
StrPlainEnd(s, i, q) ==
  IF At(s, i) \in {q, EOFC, 10, 92} THEN i ELSE StrPlainEnd(s, i+1, q)
RECURSIVE LexString(_, _, _, _)
LexString(s, i, q, acc) ==
  LET e == StrPlainEnd(s, i, q) acc2 == acc \o Sub(s, i, e-1) c == At(s, e) IN
  IF c = q THEN Res("str", acc2, <<>>, e+1)
  ELSE IF c = EOFC THEN Res("badeof", acc2, <<>>, e)
  ELSE IF c = 10 THEN Res("badstr", acc2, <<>>, e)
  ELSE IF At(s, e+1) = EOFC THEN Res("badeof", acc2, <<>>, e+1)
  ELSE IF At(s, e+1) = 10 THEN LexString(s, e+2, q, acc2)
  ELSE LET x == Escape(s, e+1) IN LexString(s, x.e, q, Append(acc2, x.c))

(* 4.3.6 Consume a url token (unquoted). *)
RECURSIVE BadUrlEnd(_, _)
BadUrlEnd(s, i) ==
  IF At(s, i) = 41 THEN i+1 ELSE IF At(s, i) = EOFC THEN i
  ELSE IF EscapeAt(s, i) THEN BadUrlEnd(s, Escape(s, i+1).e) ELSE BadUrlEnd(s, i+1)
RECURSIVE LexUrl(_, _, _)
LexUrl(s, i, acc) ==
  LET c == At(s, i) IN
  IF c = 41 THEN Res("url", acc, <<>>, i+1)
  ELSE IF c = EOFC THEN Res("badeof", acc, <<>>, i)
  ELSE IF IsWs(c)
       THEN LET e == WsEnd(s, i) IN
            IF At(s, e) = 41 THEN Res("url", acc, <<>>, e+1)
            ELSE IF At(s, e) = EOFC THEN Res("badeof", acc, <<>>, e)
            ELSE Res("badurl", <<>>, <<>>, BadUrlEnd(s, e))
  ELSE IF c \in {34, 39, 40} \/ IsNonPrint(c) THEN Res("badurl", <<>>, <<>>, BadUrlEnd(s, i))
  ELSE IF c = 92
       THEN IF EscapeAt(s, i) THEN LET x == Escape(s, i+1) IN LexUrl(s, x.e, Append(acc, x.c))
            ELSE Res("badurl", <<>>, <<>>, BadUrlEnd(s, i))
  ELSE LexUrl(s, i+1, Append(acc, c))

Lower(v) == [i \in 1..Len(v) |-> IF v[i] >= 65 /\ v[i] <= 90 THEN v[i] + 32 ELSE v[i]]
UrlName == <<117, 114, 108>>

(* 4.3.4 Consume an ident-like token. *)
LexIdentLike(s, i) ==
  LET n == Name(s, i, <<>>) IN
  IF At(s, n.e) # 40 THEN Res("ident", n.v, <<>>, n.e)
  ELSE IF Lower(n.v) # UrlName THEN Res("func", n.v, <<>>, n.e + 1)
  ELSE LET w == WsEnd(s, n.e + 1) IN
       IF At(s, w) = 34 \/ At(s, w) = 39 THEN Res("func", n.v, <<>>, w)
       ELSE LexUrl(s, w, <<>>)

RECURSIVE CommentEnd(_, _)
CommentEnd(s, i) ==
  IF At(s, i) = EOFC THEN -1
  ELSE IF At(s, i) = 42 /\ At(s, i+1) = 47 THEN i+2 ELSE CommentEnd(s, i+1)

Delim(s, i) == Res("delim", <<At(s, i)>>, <<>>, i+1)

(* 4.3.1 Consume a token, starting at position i <= Len(s). *)
LexAt(s, i) ==
  LET c == s[i] IN
  CASE IsWs(c) -> Res("ws", <<>>, <<>>, WsEnd(s, i))
    [] IsNameStart(c) -> LexIdentLike(s, i)
    [] IsDigit(c) -> LexNumeric(s, i)
    [] c = 34 \/ c = 39 -> LexString(s, i+1, c, <<>>)
    [] c = 58 -> Res(":", <<>>, <<>>, i+1)
    [] c = 59 -> Res(";", <<>>, <<>>, i+1)
    [] c = 44 -> Res(",", <<>>, <<>>, i+1)
    [] c = 40 -> Res("(", <<>>, <<>>, i+1)
    [] c = 41 -> Res(")", <<>>, <<>>, i+1)
    [] c = 91 -> Res("[", <<>>, <<>>, i+1)
    [] c = 93 -> Res("]", <<>>, <<>>, i+1)
    [] c = 123 -> Res("{", <<>>, <<>>, i+1)
    [] c = 125 -> Res("}", <<>>, <<>>, i+1)
    [] c = 47 /\ At(s, i+1) = 42 ->
         LET e == CommentEnd(s, i+2) IN
         IF e = -1 THEN Res("badeof", <<>>, <<>>, Len(s)+1) ELSE Res("comment", <<>>, <<>>, e)
    [] c = 43 \/ c = 46 -> IF StartsNumber(s, i) THEN LexNumeric(s, i) ELSE Delim(s, i)
    [] c = 45 ->
         IF StartsNumber(s, i) THEN LexNumeric(s, i)
         ELSE IF At(s, i+1) = 45 /\ At(s, i+2) = 62 THEN Res("cdc", <<>>, <<>>, i+3)
         ELSE IF StartsIdent(s, i) THEN LexIdentLike(s, i)
         ELSE Delim(s, i)
    [] c = 60 ->
         IF At(s, i+1) = 33 /\ At(s, i+2) = 45 /\ At(s, i+3) = 45
         THEN Res("cdo", <<>>, <<>>, i+4) ELSE Delim(s, i)
    [] c = 35 ->
         IF IsNameC(At(s, i+1)) \/ EscapeAt(s, i+1)
         THEN LET n == Name(s, i+1, <<>>) IN Res("hash", n.v, <<>>, n.e) ELSE Delim(s, i)
    [] c = 64 ->
         IF StartsIdent(s, i+1)
         THEN LET n == Name(s, i+1, <<>>) IN Res("at", n.v, <<>>, n.e) ELSE Delim(s, i)
    [] c = 92 -> IF EscapeAt(s, i) THEN LexIdentLike(s, i) ELSE Delim(s, i)
    [] OTHER -> Delim(s, i)

(* One transition of the lexer machine. Comments produce no token. *)
LexInit == [pos |-> 1, toks |-> <<>>]
LexStep(s, st) ==
  LET r == LexAt(s, st.pos) IN
  [pos |-> r.e, toks |-> IF r.k.t = "comment" THEN st.toks ELSE Append(st.toks, r.k)]
LexDone(s, st) == st.pos > Len(s)

RECURSIVE LexRun(_, _)
LexRun(s, st) == IF LexDone(s, st) THEN st.toks ELSE LexRun(s, LexStep(s, st))

(* Tokens of a text. *)
Tokens(text) == LET s == Preprocess(text) IN LexRun(s, LexInit)
=============================================================================
