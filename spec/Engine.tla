------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The design of cssc's engine (api.go), one action per critical section.  *)
(*   - a file is claimed by whoever first asks for its absolute path; the  *)
(*     claim starts a goroutine that reads and parses it (at most Slots at *)
(*     a time), then resolves each import in a goroutine of its own, and   *)
(*     claims what it resolved to;                                         *)
(*   - a counter says how many files are being loaded; the main goroutine  *)
(*     waits for it to be zero, then compiles the outputs in parallel;     *)
(*   - all errors go through one lock around the Reporter.                 *)
(* Checked: every behaviour is one of Compile (refinement), it ends in     *)
(* exactly the outcome Compile declares, under every interleaving.         *)
(***************************************************************************)
EXTENDS Compile, TLC

CONSTANTS Slots, Size

VARIABLES claimed,   \* files map, with hasOutput
          output,    \* hasOutput of each file
          loading,   \* the WaitGroup
          fpc,       \* goroutine of each file
          ipc,       \* goroutine of each import
          opc,       \* goroutine that compiles each output
          nextEntry, \* main goroutine: next entry to claim
          mainPc,
          holder,    \* who holds the lock around the Reporter
          warned     \* warnings each output still has to report
evars == <<claimed, output, loading, fpc, ipc, opc, nextEntry, mainPc, holder, warned>>
vars == <<cvars, evars>>

------------------------------------------------------------------------------
(* Projects: all of up to two files with up to two imports each, and a
   family of three files with one import each or a fan.                    *)
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Kinds == {"ok", "warn", "missing", "broken"}
Modes == {"pass", "follow", "inline"}
Two == { [kind |-> k, imp |-> i, entries |-> e, mode |-> m] :
           k \in [1..2 -> Kinds], i \in [1..2 -> SeqsUpTo(0..2, 2)], e \in {<<1>>, <<1, 2>>, <<1, 1>>}, m \in Modes }
Three == { [kind |-> k, imp |-> i, entries |-> e, mode |-> m] :
           k \in [1..3 -> {"ok", "missing", "broken"}], i \in [1..3 -> SeqsUpTo(0..3, 1)] \cup {<< <<2, 3>>, <<3>>, <<1>> >>, << <<2, 3>>, <<3>>, <<2>> >>, << <<2, 2>>, <<3>>, <<>> >>},
           e \in {<<1>>, <<3, 1>>}, m \in Modes }
(* What cannot be reached or parsed has no imports: no two projects that are the same. *)
Normal(c) == /\ \A f \in FilesOf(c) : (~Usable(c, f) \/ f \notin Loaded(c)) => c.imp[f] = <<>>
             /\ \A f \in FilesOf(c) : f \notin Loaded(c) => c.kind[f] = "ok"
Fewer == {c \in Two : Len(c.imp[2]) <= 1 /\ c.kind[1] # "broken" /\ c.entries # <<1, 1>>}
Projects == {c \in (CASE Size = 3 -> Two \cup Three [] Size = 2 -> Two [] OTHER -> Fewer) : Normal(c)}

Init ==
  /\ \E c \in Projects : CInitFor(c)
  /\ claimed = {} /\ output = {} /\ loading = 0
  /\ fpc = [f \in FilesOf(cfg) |-> "none"]
  /\ ipc = [f \in FilesOf(cfg) |-> [i \in 1..Len(cfg.imp[f]) |-> "none"]]
  /\ opc = [f \in FilesOf(cfg) |-> "none"]
  /\ nextEntry = 1 /\ mainPc = "claim" /\ holder = <<>>
  /\ warned = [f \in FilesOf(cfg) |-> {}]

------------------------------------------------------------------------------
(* addFile, under filesMu: one step. *)
AddFile(f, hasOutput) ==
  /\ output' = IF hasOutput THEN output \cup {f} ELSE output
  /\ IF f \in claimed THEN UNCHANGED <<claimed, loading>>
     ELSE claimed' = claimed \cup {f} /\ loading' = loading + 1
AddedPc(f) == IF f \in claimed THEN fpc ELSE [fpc EXCEPT ![f] = "new"]

MainClaim ==
  /\ mainPc = "claim" /\ nextEntry <= Len(cfg.entries)
  /\ AddFile(cfg.entries[nextEntry], TRUE)
  /\ fpc' = AddedPc(cfg.entries[nextEntry])
  /\ nextEntry' = nextEntry + 1
  /\ UNCHANGED <<cvars, ipc, opc, mainPc, holder, warned>>
MainWaited ==
  /\ mainPc = "claim" /\ nextEntry > Len(cfg.entries) /\ loading = 0
  /\ mainPc' = "compile"
  /\ opc' = [f \in FilesOf(cfg) |-> IF f \in output /\ fpc[f] = "done" THEN "start" ELSE "none"]
  /\ UNCHANGED <<cvars, claimed, output, loading, fpc, ipc, nextEntry, holder, warned>>
MainReturn ==
  /\ mainPc = "compile" /\ \A f \in FilesOf(cfg) : opc[f] \in {"none", "done"}
  /\ mainPc' = "done"
  /\ DoReturn({[f |-> o, items |-> Items(cfg, o)] : o \in {g \in FilesOf(cfg) : opc[g] = "done"}})
  /\ UNCHANGED <<claimed, output, loading, fpc, ipc, opc, nextEntry, holder, warned>>

Reading == Cardinality({f \in FilesOf(cfg) : fpc[f] \in {"slot", "reading"}})
FileSlot(f) ==
  /\ fpc[f] = "new" /\ Reading < Slots
  /\ fpc' = [fpc EXCEPT ![f] = "slot"]
  /\ UNCHANGED <<cvars, claimed, output, loading, ipc, opc, nextEntry, mainPc, holder, warned>>
FileOpen(f) ==
  /\ fpc[f] = "slot"
  /\ IF cfg.kind[f] = "missing" THEN fpc' = [fpc EXCEPT ![f] = "failed"] /\ UNCHANGED cvars
     ELSE fpc' = [fpc EXCEPT ![f] = "reading"] /\ DoRead(f)
  /\ UNCHANGED <<claimed, output, loading, ipc, opc, nextEntry, mainPc, holder, warned>>
FileContent(f) ==
  /\ fpc[f] = "reading" /\ DoDeliver(f)
  /\ IF cfg.kind[f] = "broken" THEN fpc' = [fpc EXCEPT ![f] = "failed"] /\ UNCHANGED ipc
     ELSE /\ fpc' = [fpc EXCEPT ![f] = "imports"]
          /\ ipc' = [ipc EXCEPT ![f] = [i \in 1..Len(cfg.imp[f]) |-> "new"]]
  /\ UNCHANGED <<claimed, output, loading, opc, nextEntry, mainPc, holder, warned>>
FailKey(f) == Key(IF cfg.kind[f] = "missing" THEN "unreadable" ELSE "broken", f, 0)
FileLock(f) ==
  /\ fpc[f] = "failed" /\ holder = <<>>
  /\ holder' = <<"f", f>> /\ fpc' = [fpc EXCEPT ![f] = "report"] /\ DoEnter(FailKey(f))
  /\ UNCHANGED <<claimed, output, loading, ipc, opc, nextEntry, mainPc, warned>>
FileUnlock(f) ==
  /\ fpc[f] = "report" /\ holder' = <<>> /\ fpc' = [fpc EXCEPT ![f] = "reported"] /\ DoExit
  /\ UNCHANGED <<claimed, output, loading, ipc, opc, nextEntry, mainPc, warned>>
FileDone(f) ==
  /\ \/ fpc[f] = "reported" /\ fpc' = [fpc EXCEPT ![f] = "failure"]
     \/ /\ fpc[f] = "imports" /\ \A i \in 1..Len(cfg.imp[f]) : ipc[f][i] = "done"
        /\ fpc' = [fpc EXCEPT ![f] = "done"]
  /\ loading' = loading - 1
  /\ UNCHANGED <<cvars, claimed, output, ipc, opc, nextEntry, mainPc, holder, warned>>

SetI(f, i, s) == ipc' = [ipc EXCEPT ![f][i] = s]
ImportStart(f, i) ==
  /\ ipc[f][i] = "new" /\ SetI(f, i, "resolving") /\ DoStart(f, i)
  /\ UNCHANGED <<claimed, output, loading, fpc, opc, nextEntry, mainPc, holder, warned>>
ImportEnd(f, i) ==
  /\ ipc[f][i] = "resolving" /\ DoEnd(f, i)
  /\ SetI(f, i, IF cfg.imp[f][i] = 0 THEN "failed" ELSE "resolved")
  /\ UNCHANGED <<claimed, output, loading, fpc, opc, nextEntry, mainPc, holder, warned>>
ImportAdd(f, i) ==
  /\ ipc[f][i] = "resolved" /\ SetI(f, i, "done")
  /\ AddFile(cfg.imp[f][i], cfg.mode = "follow") /\ fpc' = AddedPc(cfg.imp[f][i])
  /\ UNCHANGED <<cvars, opc, nextEntry, mainPc, holder, warned>>
ImportLock(f, i) ==
  /\ ipc[f][i] = "failed" /\ holder = <<>> /\ holder' = <<"i", f, i>>
  /\ SetI(f, i, "report") /\ DoEnter(Key("unresolved", f, i))
  /\ UNCHANGED <<claimed, output, loading, fpc, opc, nextEntry, mainPc, warned>>
ImportUnlock(f, i) ==
  /\ ipc[f][i] = "report" /\ holder' = <<>> /\ SetI(f, i, "done") /\ DoExit
  /\ UNCHANGED <<claimed, output, loading, fpc, opc, nextEntry, mainPc, warned>>

OutputStart(o) ==
  /\ opc[o] = "start" /\ opc' = [opc EXCEPT ![o] = "compile"]
  /\ warned' = [warned EXCEPT ![o] = {f \in WarnFiles(cfg) : Copies(cfg, o, f) > 0}]
  /\ UNCHANGED <<cvars, claimed, output, loading, fpc, ipc, nextEntry, mainPc, holder>>
OutputWarn(o) ==
  /\ opc[o] = "compile" /\ warned[o] # {} /\ holder = <<>> /\ holder' = <<"o", o>>
  /\ LET f == CHOOSE f \in warned[o] : TRUE IN
     warned' = [warned EXCEPT ![o] = @ \ {f}] /\ DoEnter(Key("warning", f, 0))
  /\ UNCHANGED <<claimed, output, loading, fpc, ipc, opc, nextEntry, mainPc>>
OutputWarned(o) ==
  /\ holder = <<"o", o>> /\ holder' = <<>> /\ DoExit
  /\ UNCHANGED <<claimed, output, loading, fpc, ipc, opc, nextEntry, mainPc, warned>>
OutputDone(o) ==
  /\ opc[o] = "compile" /\ warned[o] = {} /\ holder # <<"o", o>>
  /\ opc' = [opc EXCEPT ![o] = "done"]
  /\ UNCHANGED <<cvars, claimed, output, loading, fpc, ipc, nextEntry, mainPc, holder, warned>>

Done == mainPc = "done" /\ UNCHANGED vars
Step ==
  \/ MainClaim \/ MainWaited \/ MainReturn
  \/ \E f \in FilesOf(cfg) :
       \/ FileSlot(f) \/ FileOpen(f) \/ FileContent(f) \/ FileLock(f) \/ FileUnlock(f) \/ FileDone(f)
       \/ OutputStart(f) \/ OutputWarn(f) \/ OutputWarned(f) \/ OutputDone(f)
       \/ \E i \in 1..Len(cfg.imp[f]) :
            ImportStart(f, i) \/ ImportEnd(f, i) \/ ImportAdd(f, i) \/ ImportLock(f, i) \/ ImportUnlock(f, i)
Next == Step \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

------------------------------------------------------------------------------
(* The properties. *)
Refines == [][CNext]_cvars                          \* C02 C04 C05 C06: every step is one of Compile
Returns == <>(mainPc = "done")                      \* C01
ReadOnce == \A f \in FilesOf(cfg) : readBy[f] <= 1  \* C06
OneReporter == busy <=> holder # <<>>               \* C05
CounterSafe == loading = Cardinality({f \in FilesOf(cfg) : fpc[f] \notin {"none", "done", "failure"}})
Outcome == returned =>                              \* C02 C03 C04 C07 C09: one outcome for all schedules
  /\ {x.f : x \in result} = Outputs(cfg)
  /\ \A k \in Failures(cfg) : Times(k) = 1
  /\ \A j \in 1..Len(reported) : reported[j] \in Keys(cfg)
  /\ ~busy
(* C09: an output is what it would have been with its own files alone. *)
Alone(c, o) == [c EXCEPT !.entries = <<o>>]
Undisturbed == returned => \A x \in result : x.items = Items(Alone(cfg, x.f), x.f)
=============================================================================
