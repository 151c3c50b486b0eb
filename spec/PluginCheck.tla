---------------------------- MODULE PluginCheck ----------------------------
(***************************************************************************)
(* What the plugin handed to esbuild, next to what Compile returned.       *)
(* A record: refs [has, out, errs] (errs: texts of the errors); loads      *)
(* [ref, odd, skipped, panic, has, contents, css, failed, messages];       *)
(* messages [text, located, file, line, column, lineText, length,       *)
(* lineSize]. Texts are code points, sizes bytes. A load is odd if its path *)
(* is not an absolute path without "." and "..": the plugin may fail it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, verdict
vars == <<n, verdict>>

Positions(s, x) == {i \in 1..Len(s) : s[i] = x}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
IsNumber(s) == s # <<>> /\ Len(s) < 10 /\ \A i \in 1..Len(s) : s[i] \in 48..57
Number(s) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, acc * 10 + s[i] - 48)
  IN go(1, 0)
Tabs(s) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, IF s[i] = 9 THEN acc \o <<32, 32>> ELSE Append(acc, s[i]))
  IN go(1, <<>>)

(* An error with a location is rendered as path:line:column, a newline, what is wrong, and  *)
(* the line and a line of marks, each after a tab.                                          *)
Where(text) ==
  LET nls == Positions(text, 10)
      none == [located |-> FALSE]
  IN IF Cardinality(nls) < 3 THEN none ELSE
  LET head == SubSeq(text, 1, Min(nls) - 1)
      colons == Positions(head, 58)
  IN IF Cardinality(colons) < 2 THEN none ELSE
  LET c2 == Max(colons)
      c1 == Max(colons \ {c2})
      col == SubSeq(head, c2 + 1, Len(head))
      line == SubSeq(head, c1 + 1, c2 - 1)
      m2 == Max(nls)
      m1 == Max(nls \ {m2})
  IN IF ~IsNumber(col) \/ ~IsNumber(line) \/ m2 - m1 < 2 \/ text[m1 + 1] # 9 THEN none
     ELSE [located |-> TRUE, file |-> SubSeq(head, 1, c1 - 1), line |-> Number(line), column |-> Number(col) - 1,
           lineText |-> SubSeq(text, m1 + 2, m2 - 1)]
Said(m) == [located |-> TRUE, file |-> m.file, line |-> m.line, column |-> m.column, lineText |-> Tabs(m.lineText)]

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])
Texts(ms) == [i \in 1..Len(ms) |-> ms[i].text]

Bad(c, l) ==
  LET r == c.refs[l.ref]
      fine == r.errs = <<>> /\ r.has
  IN IF l.skipped THEN "the plugin does not load the file"
     ELSE IF l.panic THEN "the plugin panics"
     ELSE IF l.odd /\ l.failed THEN ""
     ELSE IF fine /\ (~l.has \/ l.failed) THEN "a file that compiles fails to load"
     ELSE IF fine /\ l.contents # r.out THEN "the contents are not what the file compiles to"
     ELSE IF fine /\ ~l.css THEN "the contents are not loaded as css"
     ELSE IF fine /\ l.messages # <<>> THEN "messages about a file that compiles"
     ELSE IF ~fine /\ ~l.failed THEN "a file that does not compile is loaded"
     ELSE IF r.errs # <<>> /\ ~SameBag(Texts(l.messages), r.errs) THEN "the messages are not the errors, each once"
     ELSE IF \E i \in 1..Len(l.messages) : Where(l.messages[i].text).located /\ ~l.messages[i].located THEN "a message lost its location"
     ELSE IF \E i \in 1..Len(l.messages) : Where(l.messages[i].text).located /\ Said(l.messages[i]) # Where(l.messages[i].text)
          THEN "the location of a message is not that of the error"
     ELSE IF \E i \in 1..Len(l.messages) : l.messages[i].located /\ l.messages[i].length \notin 0..l.messages[i].lineSize
          THEN "the location of a message is longer than its line"
     ELSE ""

Init == n \in 1..Len(Cases) /\ verdict = "new"
Check ==
  /\ verdict = "new"
  /\ LET c == Cases[n]
     IN \E bad \in {SelectSeq([i \in 1..Len(c.loads) |-> <<i, Bad(c, c.loads[i])>>], LAMBDA x : x[2] # "")} :
        /\ verdict' = IF bad = <<>> THEN "ok" ELSE "bad"
        /\ IF bad = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", c.id, bad[1][1], bad[1][2]>>)
  /\ UNCHANGED n
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
