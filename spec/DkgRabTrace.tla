------------------------------ MODULE DkgRabTrace ------------------------------
(* Is every recorded execution of the code a behaviour of DkgRab? *)
EXTENDS DkgRab, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == RabInit(h)
StepOp(st, ev) == DkgRabStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
