------------------------------ MODULE ChannelTrace ------------------------------
(* Is every recorded execution of the code a behaviour of Channel? *)
EXTENDS Channel, Json, IOUtils
Traces == JsonDeserialize(IOEnv.KV_TRACES).traces
InitOp(h) == ChanInit(h)
StepOp(st, ev) == ChanStep(st, ev)
VARIABLES tid, l, st
INSTANCE Conform
=============================================================================
