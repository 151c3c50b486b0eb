----------------------------- MODULE Location -----------------------------
(***************************************************************************)
(* Where errors are. A record: files (texts, code points); problems, each  *)
(* [must, at] where at is a sequence of the places [f, p] that an error    *)
(* about it may name; reports [f, l, c, text] as rendered by the errors of *)
(* the compilation: the number of the named file (0: none of them), line,  *)
(* column and line text (with two spaces for a tab); marks, parallel to    *)
(* reports, the marks under the line: [at, n], how far they are indented   *)
(* and how many there are (at < 0: they are not looked at).                *)
(***************************************************************************)
EXTENDS Positions, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, verdict
vars == <<n, verdict>>

Expand(s) ==
  LET RECURSIVE go(_, _)
      go(i, acc) == IF i > Len(s) THEN acc ELSE go(i + 1, IF s[i] = 9 THEN acc \o <<32, 32>> ELSE Append(acc, s[i]))
  IN go(1, <<>>)
Report(c, starts, a) ==
  LET w == ErrPos(c.files[a.f], starts[a.f], a.p)
  IN [f |-> a.f, l |-> w.l, c |-> w.c, text |-> Expand(LineText(c.files[a.f], starts[a.f], w.l))]
Range(s) == {s[i] : i \in 1..Len(s)}

(* Marks begin under the problem (counted in bytes or characters) and are not beyond the    *)
(* line. Two columns for a tab; the code counts those after the problem, too (which tests   *)
(* want).                                                                                   *)
Tabs(s) == Cardinality({i \in 1..Len(s) : s[i] = 9})
MarksFit(c, starts, a, m) ==
  LET line == LineText(c.files[a.f], starts[a.f], LineOf(starts[a.f], a.p))
      before == SubSeq(c.files[a.f], starts[a.f][LineOf(starts[a.f], a.p)], a.p - 1)
      bytes == SumUnits(before, 1, Len(before), FALSE)
      all == Tabs(line)
  IN /\ \E t \in {Tabs(before), all} : m.at \in {bytes + t, Len(before) + t}
     /\ m.at + m.n <= SumUnits(line, 1, Len(line), FALSE) + all

Bad(c) ==
  LET starts == [i \in 1..Len(c.files) |-> LineStarts(c.files[i])]
      wanted == [i \in 1..Len(c.problems) |-> {Report(c, starts, a) : a \in Range(c.problems[i].at)}]
      got == Range(c.reports)
      strange == got \ UNION Range(wanted)
      missing == {i \in 1..Len(wanted) : c.problems[i].must /\ wanted[i] \cap got = {}}
  IN IF strange # {} THEN <<"an error is reported where there is none", CHOOSE x \in strange : TRUE>>
     ELSE IF missing # {} THEN <<"nothing is reported at", CHOOSE x \in wanted[CHOOSE i \in missing : TRUE] : TRUE>>
     ELSE LET askew == {i \in 1..Len(c.marks) :
                           /\ c.marks[i].at >= 0
                           /\ \A k \in 1..Len(c.problems) : \A j \in 1..Len(c.problems[k].at) :
                                 LET a == c.problems[k].at[j]
                                 IN c.reports[i] = Report(c, starts, a) => ~MarksFit(c, starts, a, c.marks[i])}
          IN IF askew # {} THEN <<"the marks are not under the problem", c.reports[CHOOSE i \in askew : TRUE]>> ELSE <<>>

Init == n \in 1..Len(Cases) /\ verdict = "new"
Check ==
  /\ verdict = "new"
  /\ \E bad \in {Bad(Cases[n])} :
        /\ verdict' = IF bad = <<>> THEN "ok" ELSE "bad"
        /\ IF bad = <<>> THEN TRUE ELSE PrintT(<<"MISMATCH", Cases[n].id, bad>>)
  /\ UNCHANGED n
Next == Check
Spec == Init /\ [][Next]_vars
=============================================================================
