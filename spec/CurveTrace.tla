------------------------------ MODULE CurveTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Curve? *)
EXTENDS Curve, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == CurveInit(h)
StepOp(st, ev) == CurveStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
