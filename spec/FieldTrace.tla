------------------------------ MODULE FieldTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Field? *)
EXTENDS Field, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == FieldInit(h)
StepOp(st, ev) == FieldStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
