------------------------------ MODULE DssTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Dss? *)
EXTENDS Dss, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == DssInit(h)
StepOp(st, ev) == DssStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
