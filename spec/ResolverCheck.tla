-------------------------- MODULE ResolverCheck --------------------------
(* Judges recorded answers of the real resolver in arbitrary trees.          *)
EXTENDS Resolver, Json, IOUtils, SequencesExt, TLC

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES n, verdict
vars == <<n, verdict>>

Tree(list) == [p \in {list[i].p : i \in 1..Len(list)} |-> list[CHOOSE i \in 1..Len(list) : list[i].p = p].n]

Wrong(c) ==
  LET fs == Tree(c.fs)
      want == Resolved(fs, c.spec, c.from, c.base)
      got == [ok |-> c.ok, p |-> c.p]
  IN IF ~WellFormed(fs) THEN "GENERATOR"
     ELSE IF ~Sound(fs, got) THEN "not a file"
     ELSE IF ~c.ok /\ c.missing = "no" /\ NotFound(fs, c.spec, c.from, c.base) THEN "another error"
     ELSE IF c.exact /\ got # want THEN "another result"
     ELSE ""

Init == n \in 1..Len(Cases) /\ verdict = "new"
Next == /\ verdict = "new"
        /\ verdict' = Wrong(Cases[n])
        /\ IF verdict' = "" THEN TRUE
           ELSE PrintT(<<"MISMATCH", Cases[n].id, verdict', Resolved(Tree(Cases[n].fs), Cases[n].spec, Cases[n].from, Cases[n].base)>>)
        /\ UNCHANGED n
Spec == Init /\ [][Next]_vars
=============================================================================
