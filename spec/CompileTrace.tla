---------------------------- MODULE CompileTrace ----------------------------
(***************************************************************************)
(* Checks recorded compilations against Compile.tla.  Every trace is        *)
(* replayed event by event; an event that is no step of the machine is      *)
(* noted with the rule it breaks, and the machine moves on, so one trace    *)
(* can show several things.                                                 *)
(*                                                                          *)
(* A case is [id, projects, traces]; a trace is [p: its project, fifo: are  *)
(* reads observed, events: [e, k, f, i], outs: [f, items], print: a digest  *)
(* of outputs and errors].                                                  *)
(***************************************************************************)
EXTENDS Compile, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)

VARIABLES case, trace, pos, wrong
tvars == <<cvars, case, trace, pos, wrong>>

Tr == Cases[case].traces[trace]
Range(s) == {s[j] : j \in 1..Len(s)}

TInit ==
  /\ case \in 1..Len(Cases)
  /\ trace \in 1..Len(Cases[case].traces)
  /\ pos = 0 /\ wrong = {}
  /\ LET c == Cases[case].projects[Tr.p] IN
     /\ cfg = c /\ readBy = [f \in FilesOf(c) |-> 0]
     /\ delivered = IF Tr.fifo THEN {} ELSE EntrySet(c)
     /\ started = {} /\ ended = {} /\ busy = FALSE /\ reported = <<>>
     /\ returned = FALSE /\ result = {}

Known(f) == f \in FilesOf(cfg)
(* Reads are not observed without fifos: what is claimed may be read at once. *)
Imported(e) == IF Tr.fifo THEN {} ELSE {cfg.imp[e.f][e.i]} \ {0}

Move ==
  /\ pos < Len(Tr.events)
  /\ pos' = pos + 1
  /\ LET e == Tr.events[pos + 1] IN
     CASE e.e = "read" -> wrong' = wrong \cup WrongRead(e.f) /\ DoRead(e.f)
       [] e.e = "content" -> wrong' = wrong /\ DoDeliver(e.f)
       [] e.e = "rstart" ->
            IF ~Known(e.f) THEN wrong' = wrong \cup {"resolve"} /\ UNCHANGED cvars
            ELSE /\ wrong' = wrong \cup WrongStart(e.f, e.i) \cup If(<<e.f, e.i>> \in started, "resolved-again")
                 /\ DoStart(e.f, e.i)
       [] e.e = "rend" ->
            /\ wrong' = wrong
            /\ ended' = ended \cup {<<e.f, e.i>>}
            /\ delivered' = delivered \cup Imported(e)
            /\ UNCHANGED <<cfg, readBy, started, busy, reported, returned, result>>
       [] e.e = "enter" -> wrong' = wrong \cup WrongEnter(Key(e.k, e.f, e.i)) /\ DoEnter(Key(e.k, e.f, e.i))
       [] e.e = "exit" -> wrong' = wrong /\ DoExit
       [] e.e = "return" -> wrong' = wrong \cup WrongReturn(Range(Tr.outs)) /\ DoReturn(Range(Tr.outs))
  /\ UNCHANGED <<case, trace>>

(* C03: all traces of a project end alike. *)
Differs == \E t \in 1..Len(Cases[case].traces) :
             Cases[case].traces[t].p = Tr.p /\ Cases[case].traces[t].print # Tr.print
End_ ==
  /\ pos = Len(Tr.events)
  /\ pos' = pos + 1
  /\ wrong' = wrong \cup If(~returned, "noreturn") \cup If(Differs, "differ")
  /\ IF wrong' # {} THEN PrintT(<<"MISMATCH", Cases[case].id, trace, wrong'>>) ELSE TRUE
  /\ UNCHANGED <<cvars, case, trace>>

TNext == Move \/ End_
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
