------------------------------ MODULE RandTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Rand? *)
EXTENDS Rand, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == RandInit(h)
StepOp(st, ev) == RandStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
