-------------------------------- MODULE XofGen --------------------------------
(***************************************************************************)
(* Every sequence of operations on two XOFs up to a length, over inputs    *)
(* and lengths that meet the blocks (64) and chunks (1024) of the hash.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT Depth
VARIABLES hist
Step(s) == hist' = Append(hist, s) /\ (Len(hist') = Depth => PrintT(<<"KVGEN", ToJson(hist')>>))
GInit == hist = <<>>
GNext == /\ Len(hist) < Depth
         /\ \/ \E n \in {0, 1, 63, 128} : Step([op |-> "write", x |-> 1, n |-> n])
            \/ \E n \in {1, 65} : Step([op |-> "read", x |-> 1, n |-> n])
            \/ \E n \in {5, 200} : Step([op |-> "xor", x |-> 1, n |-> n])
            \/ Step([op |-> "reseed", x |-> 1, n |-> 0])
            \/ Step([op |-> "flush", x |-> 1, n |-> 0])
            \/ Step([op |-> "clone", x |-> 2, n |-> 1])
            \/ Step([op |-> "clone", x |-> 1, n |-> 2])
            \/ Step([op |-> "new", x |-> 1, n |-> 40])
GSpec == GInit /\ [][GNext]_hist
=============================================================================
