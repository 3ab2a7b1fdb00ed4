-------------------------------- MODULE DssGen --------------------------------
(***************************************************************************)
(* Everything participant 0 of four (t = 3) can do and be shown, one       *)
(* transition of the book-keeping at a time, by a shortest path.           *)
(***************************************************************************)
EXTENDS DssBook, TLC, Json
VARIABLES b, hist
vars == <<b, hist>>
Step(c, s) == b' = c /\ hist' = Append(hist, s) /\ PrintT(<<"KVGEN", ToJson(hist')>>)
GInit == b = BookNew(0, 4, 3) /\ hist = <<>>
GOwn == Step(BookOwn(b, 1), [op |-> "partial", from |-> 0, w |-> "good"])
GProcess == \E i \in 0..4, w \in {"good", "value", "session", "signer", "unsigned"} :
  Step(BookProcess(b, i, 1, w = "good"), [op |-> "process", from |-> i, w |-> w])
GSign == Step(b, [op |-> "signature", from |-> 0, w |-> "good"])
GNext == GOwn \/ GProcess \/ GSign
GSpec == GInit /\ [][GNext]_vars
View == b
\* one partial signature per participant; enough means t different participants
OnePerIndex == Cardinality(b.ps) = Cardinality(Had(b)) /\ Had(b) \subseteq 0..3
EnoughIsT == BookEnough(b) <=> Cardinality(Had(b)) >= 3
=============================================================================
