------------------------------- MODULE Plugin -------------------------------
(***************************************************************************)
(* esbuild loads several files through the plugin at the same time. Each   *)
(* load compiles one file, whose imports are resolved one by one and may   *)
(* fail, and each failure is reported. When a compilation has returned,    *)
(* the load hands esbuild either its output or what was reported.          *)
(*                                                                         *)
(* loads[l] = [imports |-> how many, fails |-> which fail]                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES loads, id, pc, pending, reports, result, hist
vars == <<loads, id, pc, pending, reports, result, hist>>

None == [what |-> "none", errors |-> {}]
Given == IF "LOADS" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.LOADS) ELSE <<>>
Range(s) == {s[i] : i \in 1..Len(s)}

Start ==
  /\ pc = [l \in 1..Len(loads) |-> "idle"]
  /\ pending = [l \in 1..Len(loads) |-> 1..loads[l].imports]
  /\ reports = [l \in 1..Len(loads) |-> <<>>]
  /\ result = [l \in 1..Len(loads) |-> None]
  /\ hist = <<>>
(* All small configurations, for the model checker. *)
Small == {[imports |-> k, fails |-> s] : k \in 0..2, s \in {<<>>, <<1>>, <<1, 2>>}}
Init ==
  /\ id = 0
  /\ loads \in [1..3 -> {x \in Small : \A i \in Range(x.fails) : i <= x.imports}]
  /\ Start
(* Given ones, for schedules. *)
SInit == /\ \E n \in 1..Len(Given) : loads = Given[n].loads /\ id = Given[n].id
         /\ Start

Begin(l) ==
  /\ pc[l] = "idle"
  /\ pc' = [pc EXCEPT ![l] = "running"]
  /\ UNCHANGED <<pending, reports, result>>
Resolve(l, j) ==
  /\ pc[l] = "running" /\ j \in pending[l]
  /\ pending' = [pending EXCEPT ![l] = @ \ {j}]
  /\ reports' = IF j \in Range(loads[l].fails) THEN [reports EXCEPT ![l] = Append(@, j)] ELSE reports
  /\ UNCHANGED <<pc, result>>
Finish(l) ==
  /\ pc[l] = "running" /\ pending[l] = {}
  /\ pc' = [pc EXCEPT ![l] = "done"]
  /\ result' = [result EXCEPT ![l] = IF reports[l] = <<>> THEN [what |-> "output", errors |-> {}]
                                                        ELSE [what |-> "errors", errors |-> Range(reports[l])]]
  /\ UNCHANGED <<pending, reports>>
Move ==
  \E l \in 1..Len(loads) :
     \/ Begin(l) /\ hist' = Append(hist, <<l, 0>>)
     \/ Finish(l) /\ hist' = Append(hist, <<l, -1>>)
     \/ \E j \in pending[l] : Resolve(l, j) /\ hist' = Append(hist, <<l, j>>)
Next == Move /\ UNCHANGED <<loads, id>>
(* For the model checker, what happened before does not matter. *)
MNext == (\E l \in 1..Len(loads) : Begin(l) \/ Finish(l) \/ \E j \in pending[l] : Resolve(l, j)) /\ UNCHANGED <<loads, id, hist>>
Spec == Init /\ [][MNext]_vars
SNext == /\ Next
         /\ IF \A l \in 1..Len(loads) : pc'[l] = "done" THEN PrintT("H`" \o ToString(id) \o "`" \o ToJson(hist')) ELSE TRUE
SSpec == SInit /\ [][SNext]_vars

(* Each load gets what it would get if it were alone. *)
Alone(x) == IF x.fails = <<>> THEN [what |-> "output", errors |-> {}] ELSE [what |-> "errors", errors |-> Range(x.fails)]
Independent == \A l \in 1..Len(loads) : pc[l] = "done" => result[l] = Alone(loads[l])
Once == \A l \in 1..Len(loads) : Cardinality(Range(reports[l])) = Len(reports[l])
=============================================================================
