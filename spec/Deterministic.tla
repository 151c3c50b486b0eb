--------------------------- MODULE Deterministic ---------------------------
(***************************************************************************)
(* A compilation is a function of its sources and options: of one key, all *)
(* observations are the same.  Records: [id, prints: [key, print]].        *)
(* The function is learned from the first observation of each key.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, at, known, wrong
vars == <<n, at, known, wrong>>
Init == n \in 1..Len(Cases) /\ at = 0 /\ known = [k \in {} |-> ""] /\ wrong = FALSE
Next ==
  /\ at < Len(Cases[n].prints)
  /\ at' = at + 1
  /\ LET x == Cases[n].prints[at + 1] IN
     IF x.key \in DOMAIN known
       THEN /\ UNCHANGED known
            /\ wrong' = (wrong \/ known[x.key] # x.print)
            /\ IF wrong' /\ ~wrong THEN PrintT(<<"MISMATCH", Cases[n].id, x.key>>) ELSE TRUE
       ELSE known' = (x.key :> x.print) @@ known /\ UNCHANGED wrong
  /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
=============================================================================
