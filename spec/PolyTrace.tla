------------------------------ MODULE PolyTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Poly? *)
EXTENDS Poly, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == PolyInit(h)
StepOp(st, ev) == PolyStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
