------------------------------ MODULE DkgPedTrace ------------------------------
(* Is every recorded execution of the code a behaviour of DkgPed? *)
EXTENDS DkgPed, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == DkgInit(h)
StepOp(st, ev) == DkgStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
