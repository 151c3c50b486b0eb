------------------------------ MODULE Outcome ------------------------------
(***************************************************************************)
(* A compilation of a file, seen from outside: it runs, and then it has    *)
(* ended.  Whatever the content, the end is one of: an output and no or    *)
(* some errors; no output and at least one error.  Rendering errors works. *)
(* Records: [id, status, outs, errs, badrender, must, left] of one run of one *)
(* file; must: it cannot be compiled completely, so there is an error;      *)
(* left: the output still has what should have been transformed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, phase
vars == <<n, phase>>
Init == n \in 1..Len(Cases) /\ phase = "running"
Produced(c) == c.status = "ok" /\ c.outs = 1
Reported(c) == c.status = "ok" /\ c.outs = 0 /\ c.errs > 0
Ended(c) == (Produced(c) \/ Reported(c)) /\ c.badrender = 0 /\ (c.must \/ c.left => c.errs > 0)
Next ==
  /\ phase = "running"
  /\ phase' = IF Ended(Cases[n]) THEN "ended" ELSE "wrong"
  /\ IF phase' = "wrong" THEN PrintT(<<"MISMATCH", Cases[n].id>>) ELSE TRUE
  /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
=============================================================================
