------------------------------ MODULE KeysTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Keys? *)
EXTENDS Keys, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == KeysInit(h)
StepOp(st, ev) == KeysStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
