------------------------------ MODULE XofTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Xof? *)
EXTENDS Xof, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == XInit(h)
StepOp(st, ev) == XofStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
