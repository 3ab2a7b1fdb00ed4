------------------------------- MODULE Conform -------------------------------
(***************************************************************************)
(* Trace validation.  A trace file holds many recorded executions; each is *)
(* a header followed by events.  TLC starts one behaviour per trace and    *)
(* consumes one event per step: StepOp gives the specification's successor *)
(* state and the names of those observations of the event that the         *)
(* specification does not allow.  Every disagreement is printed; the whole *)
(* file has been judged when the number of distinct states equals the      *)
(* number of recorded events (checked by the caller).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Traces, InitOp(_), StepOp(_, _)
VARIABLES tid, l, st

CInit == /\ tid \in 1..Len(Traces)
         /\ l = 1
         /\ st = InitOp(Traces[tid][1])
CNext == /\ l < Len(Traces[tid])
         /\ LET ev == Traces[tid][l + 1]
                r == StepOp(st, ev)
            IN /\ st' = r.st
               /\ \A b \in r.bad : PrintT(<<"KVBAD", tid, l + 1, ev.op, b>>)
         /\ l' = l + 1
         /\ UNCHANGED tid
CSpec == CInit /\ [][CNext]_<<tid, l, st>>
=============================================================================
