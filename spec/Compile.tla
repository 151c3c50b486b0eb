------------------------------ MODULE Compile ------------------------------
(***************************************************************************)
(* What a compilation of a project has to do, in terms of what its         *)
(* environment sees: reads of files, calls of the Resolver, calls of the   *)
(* Reporter, and the Result.  Any engine whose behaviours are behaviours   *)
(* of this machine is correct: Engine.tla is the design of cssc's (checked *)
(* to refine this), CompileTrace.tla checks recorded runs of the real one. *)
(*                                                                         *)
(* A project is a record                                                   *)
(*   kind     kind[f]: "ok", "warn" (gives a warning when it is compiled), *)
(*            "missing" (cannot be read) or "broken" (does not parse)      *)
(*   imp      imp[f][i]: the file the i-th import of f resolves to, 0: none*)
(*   entries  the requested files, possibly more than once                 *)
(*   mode     "pass", "follow" or "inline"                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,       \* the project
          readBy,    \* how often each file has been opened
          delivered, \* files whose content has been handed out
          started,   \* imports <<f, i>> whose resolution has started
          ended,     \* ... and ended
          busy,      \* is the Reporter being called?
          reported,  \* sequence of what was reported
          returned,  \* has Compile returned?
          result     \* its outputs: [f, items]
cvars == <<cfg, readBy, delivered, started, ended, busy, reported, returned, result>>

------------------------------------------------------------------------------
(* The declarative part: what the outcome of a project is. *)
FilesOf(c) == 1..Len(c.kind)
Usable(c, f) == c.kind[f] \in {"ok", "warn"}
ImportsOf(c, f) == IF Usable(c, f) THEN {<<f, i>> : i \in 1..Len(c.imp[f])} ELSE {}
EntrySet(c) == {c.entries[i] : i \in 1..Len(c.entries)}
(* The least set with the entries that is closed under imports. *)
Loaded(c) ==
  LET RECURSIVE go(_)
      go(S) == LET T == S \cup {c.imp[p[1]][p[2]] : p \in {q \in UNION {ImportsOf(c, f) : f \in S} : c.imp[q[1]][q[2]] # 0}}
               IN IF T = S THEN S ELSE go(T)
  IN go(EntrySet(c))
Outputs(c) == {f \in (IF c.mode = "follow" THEN Loaded(c) ELSE EntrySet(c)) : Usable(c, f)}

(* What has to be reported, exactly once each. *)
Key(k, f, i) == <<k, f, i>>
Failures(c) ==
  LET L == Loaded(c) IN
  {Key("unreadable", f, 0) : f \in {g \in L : c.kind[g] = "missing"}}
  \cup {Key("broken", f, 0) : f \in {g \in L : c.kind[g] = "broken"}}
  \cup {Key("unresolved", p[1], p[2]) : p \in {q \in UNION {ImportsOf(c, f) : f \in L} : c.imp[q[1]][q[2]] = 0}}

(* The items of a file: rules with imports between them. *)
R(f, k) == <<"rule", f, k>>
I(f, i) == <<"import", f, i>>
Body(c, f) == <<R(f, 0)>> \o
  [j \in 1..2 * Len(c.imp[f]) |-> IF j % 2 = 1 THEN I(f, (j + 1) \div 2) ELSE R(f, j \div 2)]
Items(c, o) ==
  LET RECURSIVE ex(_, _, _), item(_, _)
      item(x, stack) ==
        IF x[1] = "rule" THEN <<x>>
        ELSE LET t == c.imp[x[2]][x[3]] IN
             IF t = 0 THEN <<x>>
             ELSE IF ~Usable(c, t) THEN <<x>>
             ELSE IF t \in stack THEN <<>>
             ELSE ex(Body(c, t), 1, stack \cup {t})
      ex(body, j, stack) == IF j > Len(body) THEN <<>> ELSE item(body[j], stack) \o ex(body, j + 1, stack)
  IN IF c.mode = "inline" THEN ex(Body(c, o), 1, {o}) ELSE Body(c, o)

(* Warnings of compiled outputs: at least one per output that contains the
   file, at most one per copy of it. *)
Copies(c, o, f) == LET s == Items(c, o) IN Cardinality({j \in 1..Len(s) : s[j] = R(f, 0)})
WarnFiles(c) == {f \in Loaded(c) : c.kind[f] = "warn"}
WarnLeast(c, f) == Cardinality({o \in Outputs(c) : Copies(c, o, f) > 0})
WarnMost(c, f) ==
  LET RECURSIVE sum(_)
      sum(S) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN Copies(c, o, f) + sum(S \ {o})
  IN sum(Outputs(c))

------------------------------------------------------------------------------
(* The machine. *)
CInitFor(c) ==
  /\ cfg = c
  /\ readBy = [f \in FilesOf(c) |-> 0]
  /\ delivered = {} /\ started = {} /\ ended = {}
  /\ busy = FALSE /\ reported = <<>> /\ returned = FALSE /\ result = {}

(* Files that somebody asked for so far. *)
Claimed == EntrySet(cfg) \cup {cfg.imp[p[1]][p[2]] : p \in {q \in ended : cfg.imp[q[1]][q[2]] # 0}}
Times(k) == Cardinality({j \in 1..Len(reported) : reported[j] = k})
(* Has what k is about happened? *)
Occurred(k) ==
  CASE k[1] = "unreadable" -> k[2] \in Claimed /\ cfg.kind[k[2]] = "missing"
    [] k[1] = "broken"     -> k[2] \in delivered /\ cfg.kind[k[2]] = "broken"
    [] k[1] = "unresolved" -> <<k[2], k[3]>> \in ended /\ cfg.imp[k[2]][k[3]] = 0
    [] k[1] = "warning"    -> k[2] \in delivered /\ cfg.kind[k[2]] = "warn"
    [] OTHER -> FALSE
MostTimes(k) == IF k[1] = "warning" THEN WarnMost(cfg, k[2]) ELSE 1

(* What is wrong with an event in the current state: names of the broken
   rules.  A step of the machine has nothing wrong with it. *)
If(b, s) == IF b THEN {s} ELSE {}
WrongRead(f) == If(f \notin Claimed, "unclaimed") \cup If(readBy[f] > 0, "reread") \cup If(returned, "late")
WrongStart(f, i) == If(f \notin delivered \/ <<f, i>> \notin ImportsOf(cfg, f), "resolve") \cup If(returned, "late")
WrongEnter(k) ==
  If(busy, "overlap") \cup If(returned, "late") \cup
  (IF ~Occurred(k) THEN {"spurious"} ELSE If(Times(k) >= MostTimes(k), "twice"))
WrongReturn(outs) ==
  If(busy, "late")
  \cup If(\E k \in Failures(cfg) : Times(k) = 0, "dropped")
  \cup If(\E f \in WarnFiles(cfg) : Times(Key("warning", f, 0)) < WarnLeast(cfg, f), "dropped")
  \cup If({x.f : x \in outs} # Outputs(cfg), "outputs")
  \cup If(\E x \in outs : x.f \in Outputs(cfg) /\ x.items # Items(cfg, x.f), "content")

DoRead(f) == readBy' = [readBy EXCEPT ![f] = @ + 1] /\ UNCHANGED <<cfg, delivered, started, ended, busy, reported, returned, result>>
DoDeliver(f) == delivered' = delivered \cup {f} /\ UNCHANGED <<cfg, readBy, started, ended, busy, reported, returned, result>>
DoStart(f, i) == started' = started \cup {<<f, i>>} /\ UNCHANGED <<cfg, readBy, delivered, ended, busy, reported, returned, result>>
DoEnd(f, i) == ended' = ended \cup {<<f, i>>} /\ UNCHANGED <<cfg, readBy, delivered, started, busy, reported, returned, result>>
DoEnter(k) == busy' = TRUE /\ reported' = Append(reported, k) /\ UNCHANGED <<cfg, readBy, delivered, started, ended, returned, result>>
DoExit == busy' = FALSE /\ UNCHANGED <<cfg, readBy, delivered, started, ended, reported, returned, result>>
DoReturn(outs) == returned' = TRUE /\ result' = outs /\ UNCHANGED <<cfg, readBy, delivered, started, ended, busy, reported>>

Read(f) == WrongRead(f) = {} /\ DoRead(f)
Start(f, i) == WrongStart(f, i) = {} /\ DoStart(f, i)
End(f, i) == <<f, i>> \in started \ ended /\ DoEnd(f, i)
Enter(k) == WrongEnter(k) = {} /\ DoEnter(k)
Exit == busy /\ DoExit
Return(outs) == ~returned /\ WrongReturn(outs) = {} /\ DoReturn(outs)

Keys(c) == Failures(c) \cup {Key("warning", f, 0) : f \in WarnFiles(c)}
CNext ==
  \/ \E f \in FilesOf(cfg) : Read(f) \/ (readBy[f] > 0 /\ cfg.kind[f] # "missing" /\ f \notin delivered /\ DoDeliver(f))
  \/ \E f \in FilesOf(cfg) : \E p \in ImportsOf(cfg, f) : Start(p[1], p[2]) \/ End(p[1], p[2])
  \/ \E k \in Keys(cfg) : Enter(k)
  \/ Exit
  \/ Return({[f |-> o, items |-> Items(cfg, o)] : o \in Outputs(cfg)})
=============================================================================
