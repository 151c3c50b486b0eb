----------------------------- MODULE EngineSim ------------------------------
(***************************************************************************)
(* Schedules for the real engine: the orders in which its environment can  *)
(* hand out contents, finish resolving and leave the Reporter, as Engine   *)
(* permits them.  The environment acts when nothing else can, so each      *)
(* behaviour is told by the sequence of what the environment does.         *)
(* Projects come from a file, or are the ones of Engine.                   *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils

VARIABLES hist, id
svars == <<vars, hist, id>>

Given == IF "PROJECTS" \in DOMAIN IOEnv THEN ndJsonDeserialize(IOEnv.PROJECTS) ELSE <<>>

SInit ==
  /\ \E n \in 1..Len(Given) : CInitFor(Given[n].cfg) /\ id = Given[n].id
  /\ claimed = {} /\ output = {} /\ loading = 0
  /\ fpc = [f \in FilesOf(cfg) |-> "none"]
  /\ ipc = [f \in FilesOf(cfg) |-> [i \in 1..Len(cfg.imp[f]) |-> "none"]]
  /\ opc = [f \in FilesOf(cfg) |-> "none"]
  /\ nextEntry = 1 /\ mainPc = "claim" /\ holder = <<>>
  /\ warned = [f \in FilesOf(cfg) |-> {}]
  /\ hist = <<>>

Internal ==
  \/ MainClaim \/ MainWaited \/ MainReturn
  \/ \E f \in FilesOf(cfg) :
       \/ FileSlot(f) \/ FileOpen(f) \/ FileLock(f) \/ FileDone(f)
       \/ OutputStart(f) \/ OutputWarn(f) \/ OutputDone(f)
       \/ \E i \in 1..Len(cfg.imp[f]) : ImportStart(f, i) \/ ImportAdd(f, i) \/ ImportLock(f, i)
Saw(e, f, i) == hist' = Append(hist, <<e, f, i>>)
Environment ==
  \E f \in FilesOf(cfg) :
     \/ FileContent(f) /\ Saw("content", f, 0)
     \/ FileUnlock(f) /\ Saw("exit", 0, 0)
     \/ OutputWarned(f) /\ Saw("exit", 0, 0)
     \/ \E i \in 1..Len(cfg.imp[f]) :
          \/ ImportEnd(f, i) /\ Saw("rend", f, i)
          \/ ImportUnlock(f, i) /\ Saw("exit", 0, 0)

SNext ==
  /\ id' = id
  /\ \/ Internal /\ UNCHANGED hist
     \/ ~ENABLED Internal /\ Environment
  /\ IF mainPc' = "done" THEN PrintT("H`" \o ToString(id) \o "`" \o ToJson(hist')) ELSE TRUE
SSpec == SInit /\ [][SNext]_svars
=============================================================================
