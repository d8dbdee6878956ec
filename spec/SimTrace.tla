------------------------------ MODULE SimTrace ------------------------------
(* Checks a recorded run of the system (ndjson, environment variable TRACE)  *)
(* against SimSystem, for the property named in the environment variable     *)
(* PROP.  The first line of the trace is the configuration.                  *)
EXTENDS Naturals, Sequences, TLC, IOUtils, Json, FiniteSets
VARIABLES loc, links, phase, step, snap, ext, disk, seedUp, drawn, i
Log == ndJsonDeserialize(IOEnv.TRACE)
S == INSTANCE SimSystem WITH Cfg <- Log[1], Checked <- {IOEnv.PROP}

Do(e) ==
  CASE e.op = "init" -> S!Initialize(e)
    [] e.op = "prepare" -> S!Prepare(e)
    [] e.op = "setF" -> S!SetForce(e)
    [] e.op = "setV" -> S!SetVel(e)
    [] e.op = "run" -> S!Run(e)
    [] e.op = "add" -> S!AddParticles(e)
    [] e.op = "link" -> S!AddLinks(e)
    [] e.op = "links" -> S!LinksSeen(e)
    [] e.op = "bbox" -> S!BBox(e)
    [] e.op = "order" -> S!Order(e)
    [] e.op = "volume" -> S!Volume(e)
    [] e.op = "stress" -> S!Stress(e)
    [] e.op = "restart" -> S!Restart(e)
    [] e.op = "draw" -> S!Draw(e)
    [] e.op = "disk" -> S!DiskSnap(e)
    [] e.op = "diskall" -> S!DiskAll(e)
    [] e.op = "end" -> S!Stop(e)
Init == S!Start /\ i = 2
Next ==
  \/ i <= Len(Log) /\ Do(Log[i]) /\ i' = i + 1
  \/ i > Len(Log) /\ UNCHANGED <<loc, links, phase, step, snap, ext, disk, seedUp, drawn, i>>
\* the trace is accepted when its end is reached; a deadlock before that is a rejection
Spec == Init /\ [][Next]_<<loc, links, phase, step, snap, ext, disk, seedUp, drawn, i>>
=============================================================================
