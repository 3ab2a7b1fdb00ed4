------------------------------ MODULE SigTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Sig? *)
EXTENDS Sig, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == SigInit(h)
StepOp(st, ev) == SigStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
