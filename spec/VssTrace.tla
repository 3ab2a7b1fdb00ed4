------------------------------ MODULE VssTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Vss? *)
EXTENDS Vss, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == VssInit(h)
StepOp(st, ev) == VssStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
