----------------------------- MODULE Defaults -----------------------------
(***************************************************************************)
(* Options that are left out mean their documented defaults. A record is   *)
(* about two compilations of a project, one with the defaults spelled out  *)
(* (files, errs: the texts its reporter got) and one without (files,       *)
(* reported: whether it had a reporter, errs, stderr, stdout). The default *)
(* reporter is a machine that prints what is left to report, one error at  *)
(* a time and each on a line of its own. Texts are code points; files is a *)
(* set of [name, text]. Also at least as many errors as the record says.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n,       \* the case
          at,      \* how much of stderr has been accounted for
          todo,    \* errors that have not been printed
          verdict
vars == <<n, at, todo, verdict>>

C == Cases[n]
Range(s) == {s[i] : i \in 1..Len(s)}
IsAt(s, p, x) == p + Len(x) <= Len(s) /\ SubSeq(s, p + 1, p + Len(x)) = x
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Line(e) == Append(e, 10)
(* Of errors that fit, the longest: one may begin like another. *)
Fits == {i \in 1..Len(todo) : IsAt(C.left.stderr, at, Line(todo[i]))}
Longest == CHOOSE i \in Fits : \A j \in Fits : Len(todo[j]) <= Len(todo[i])

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Count(a, a[i]) = Count(b, a[i])

Init == /\ n \in 1..Len(Cases)
        /\ at = 0
        /\ todo = IF Cases[n].left.reported THEN <<>> ELSE Cases[n].spelled.errs
        /\ verdict = "printing"
PrintOne ==
  /\ verdict = "printing" /\ Fits # {}
  /\ \E i \in {Longest} : at' = at + Len(Line(todo[i])) /\ todo' = Without(todo, i)
  /\ UNCHANGED <<n, verdict>>
Bad == IF C.left.panic \/ C.spelled.panic THEN "a compilation panics"
       ELSE IF Range(C.left.files) # Range(C.spelled.files) THEN "the outputs differ"
       ELSE IF C.left.stdout # <<>> \/ C.spelled.stdout # <<>> THEN "something is printed to standard output"
       ELSE IF C.spelled.stderr # <<>> THEN "something is printed to standard error although there is a reporter"
       ELSE IF C.left.reported /\ ~SameBag(C.left.errs, C.spelled.errs) THEN "the errors differ"
       ELSE IF Len(C.spelled.errs) < C.least THEN "an entry is not reported"
       ELSE IF todo # <<>> THEN "an error is not printed"
       ELSE IF at < Len(C.left.stderr) THEN "something else is printed"
       ELSE "ok"
End == /\ verdict = "printing" /\ Fits = {}
       /\ \E b \in {Bad} :
            /\ verdict' = b
            /\ b # "ok" => PrintT(<<"MISMATCH", C.id, b>>)
       /\ UNCHANGED <<n, at, todo>>
Next == PrintOne \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Ends == <>(verdict # "printing")
=============================================================================
