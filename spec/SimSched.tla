------------------------------ MODULE SimSched ------------------------------
(* Schedules for the real system: a configuration (chosen feature by feature) *)
(* and a sequence of calls of the interface in an order that SimSystem        *)
(* allows.  TLC walks this specification at random (-simulate) and prints     *)
(* each complete schedule; lib/scen.py turns it into input files and a script *)
(* for drivers/drv_sys.cpp.  The guards are those of SimSystem's actions.     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES feat, hist, phase, steps, taken
vars == <<feat, hist, phase, steps, taken>>

Ask == ndJsonDeserialize(IOEnv.ASK)[1]     \* feature -> sequence of allowed values, in the order to choose
Order == Ask.order
Opts(k) == LET s == Ask.opts[Order[k]] IN {s[i] : i \in DOMAIN s}
MaxSteps == Ask.steps
Ops == {Ask.ops[i] : i \in DOMAIN Ask.ops}

Init == feat = <<>> /\ hist = <<>> /\ phase = "config" /\ steps = 0 /\ taken = 0
Configure ==
  /\ phase = "config"
  /\ IF Len(feat) < Len(Order)
     THEN \E v \in Opts(Len(feat) + 1) : feat' = Append(feat, v) /\ phase' = phase
     ELSE phase' = "ready" /\ feat' = feat
  /\ UNCHANGED <<hist, steps, taken>>
Emit(op) == hist' = Append(hist, op)
\* one full step: prepare, optional inputs, run
Step ==
  /\ phase = "ready" /\ steps < MaxSteps
  /\ \E f \in {0, 1}, v \in {0, 1} : Emit([op |-> "step", f |-> f, v |-> v, a |-> 0, b |-> 0])
  /\ steps' = steps + 1 /\ UNCHANGED <<feat, phase, taken>>
\* a preparation whose inputs are dropped by preparing again
Twice ==
  /\ phase = "ready" /\ steps < MaxSteps /\ "twice" \in Ops
  /\ Emit([op |-> "twice", f |-> 1, v |-> 1, a |-> 0, b |-> 0])
  /\ steps' = steps + 1 /\ UNCHANGED <<feat, phase, taken>>
\* particles from some ranks: a particles in all, b: which ranks contribute
Add ==
  /\ phase = "ready" /\ "add" \in Ops /\ steps < MaxSteps
  /\ \E a \in {0, 1, 2, 5}, b \in {0, 1, 2} : Emit([op |-> "add", f |-> 0, v |-> 0, a |-> a, b |-> b])
  /\ steps' = steps /\ taken' = taken + 1 /\ taken < 4 /\ UNCHANGED <<feat, phase>>
\* links: a of them, b: 0 new, 1 some already present, 2 to an id that does not exist, 3 several from one particle
Link ==
  /\ phase = "ready" /\ "link" \in Ops /\ steps < MaxSteps
  /\ \E a \in {0, 1, 3}, b \in {0, 1, 2, 3} : Emit([op |-> "link", f |-> 0, v |-> 0, a |-> a, b |-> b])
  /\ steps' = steps /\ taken' = taken + 1 /\ taken < 4 /\ UNCHANGED <<feat, phase>>
Restart ==
  /\ phase = "ready" /\ "restart" \in Ops /\ steps > 1 /\ steps < MaxSteps /\ taken < 4
  /\ hist[Len(hist)].op = "step"
  /\ Emit([op |-> "restart", f |-> 0, v |-> 0, a |-> 0, b |-> 0])
  /\ taken' = taken + 2 /\ UNCHANGED <<feat, phase, steps>>
Finish ==
  /\ phase = "ready" /\ steps = MaxSteps
  /\ phase' = "done"
  /\ PrintT(<<"SCHEDULE", ToJson([feat |-> feat, ops |-> hist])>>)
  /\ UNCHANGED <<feat, hist, steps, taken>>
Done == phase = "done" /\ UNCHANGED vars
Next == Configure \/ Step \/ Twice \/ Add \/ Link \/ Restart \/ Finish \/ Done
TypeOK == phase \in {"config", "ready", "done"} /\ steps \in 0..MaxSteps
=============================================================================
