---------------------------- MODULE Positions ----------------------------
(* Lines and columns of a text (code points). Lines end with LF, CRLF or CR. *)
EXTENDS Integers, Sequences, FiniteSets

EndsLine(s, i) == s[i] = 10 \/ (s[i] = 13 /\ ~(i < Len(s) /\ s[i+1] = 10))
(* Where lines begin, in order. *)
LineStarts(s) == <<1>> \o SelectSeq([i \in 1..Len(s) |-> IF EndsLine(s, i) THEN i + 1 ELSE 0], LAMBDA x : x > 0)

(* The line (1-based) that position p is on; p may be just after the end. *)
LineOf(starts, p) == CHOOSE k \in 1..Len(starts) : starts[k] <= p /\ (k = Len(starts) \/ p < starts[k+1])

RECURSIVE SumUnits(_, _, _, _)
SumUnits(s, i, j, wide) == \* the width of s[i..j] in UTF-16 code units, or bytes of UTF-8
  IF i > j THEN 0
  ELSE SumUnits(s, i + 1, j, wide) +
       (IF wide THEN IF s[i] >= 65536 THEN 2 ELSE 1
        ELSE IF s[i] < 128 THEN 1 ELSE IF s[i] < 2048 THEN 2 ELSE IF s[i] < 65536 THEN 3 ELSE 4)

(* 0-based line and column in UTF-16 code units: positions of source maps. *)
MapPos(s, starts, p) ==
  LET l == LineOf(starts, p) a == starts[l]
      big == Cardinality({j \in a..(p-1) : s[j] >= 65536})
  IN [l |-> l - 1, c |-> p - a + big]

(* 1-based line and column in bytes: positions of errors. *)
ErrPos(s, starts, p) == LET l == LineOf(starts, p) IN [l |-> l, c |-> 1 + SumUnits(s, starts[l], p - 1, FALSE)]

(* The text of a line, without what ends it. *)
LineText(s, starts, l) ==
  LET a == starts[l]
      e == IF l < Len(starts) THEN starts[l+1] - 1 ELSE Len(s)
      RECURSIVE cut(_)
      cut(k) == IF k >= a /\ s[k] \in {10, 13} THEN cut(k - 1) ELSE k
  IN IF l < Len(starts) THEN SubSeq(s, a, cut(e)) ELSE SubSeq(s, a, e)
=============================================================================
