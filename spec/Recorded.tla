----------------------------- MODULE Recorded -----------------------------
(* A recorded execution: a sequence of events (ndjson, environment variable *)
(* TRACE) that is consumed one event per step.  A module that extends this  *)
(* gives its own actions; the trace is accepted when its end is reached, a  *)
(* deadlock before that is a rejection.  PROP names the property decided:   *)
(* Chk is a clause of it, reported when it is not satisfied.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json
VARIABLE i
Log == ndJsonDeserialize(IOEnv.TRACE)
Chk(n, c) == IF c THEN TRUE ELSE PrintT(<<"REJECT", IOEnv.PROP, n>>) /\ FALSE
More == i <= Len(Log) /\ i' = i + 1
Over == i > Len(Log) /\ i' = i
=============================================================================
