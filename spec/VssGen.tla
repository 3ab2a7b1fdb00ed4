-------------------------------- MODULE VssGen --------------------------------
(***************************************************************************)
(* Everything one verifier of three can be shown, message by message: the  *)
(* model checker walks every transition of the book-keeping once, by a     *)
(* shortest path, and prints the path.  The harness replays the paths      *)
(* against the code (driver "vssped"/"vssrab") and VssTrace judges them.   *)
(***************************************************************************)
EXTENDS VssAgg, TLC, Json
CONSTANT Kind
VARIABLES a, hist
vars == <<a, hist>>

Rec(op) == [op |-> op]
Deal(what) == [rec |-> what, sid |-> IF what = "alt" THEN "B" ELSE "A", t |-> 2]
Do(r, step) == /\ a' = r
               /\ hist' = Append(hist, step)
               /\ PrintT(<<"KVGEN", ToJson(hist')>>)
GInit == a = VerifierNew(Kind, 3) /\ hist = <<>>
GThreshold == Kind = "ped" /\ a.t = 0 /\ \E t \in 2..3 : Do(AggThreshold(a, t), [op |-> "threshold", t |-> t])
GDeal == \E w \in {"good", "bad", "alt"} :
  Do(AggDeal(a, 0, Deal(w), w # "bad" /\ a.t \in {0, 2}).a, [op |-> "deal", d |-> w])
GResp == \E k \in 0..2, w \in {"good", "alt"}, ok \in BOOLEAN, signed \in BOOLEAN :
  /\ (w = "alt" => signed)
  /\ Do(AggResponse(a, IF w = "alt" THEN "B" ELSE "A", k, signed, ok).a,
        [op |-> "resp", from |-> k, d |-> w, ok |-> ok, signed |-> signed])
GJust == \E k \in 0..2, w \in {"good", "bad", "alt", "wrongidx"} :
  LET good == a.has /\ w \in {"good", "alt"} /\ (IF w = "alt" THEN "B" ELSE "A") = a.sid /\ a.t = 2 IN
  Do(AggJustify(a, 0, k, w, good).a, [op |-> "just", idx |-> k, d |-> w])
GTimeout == Do(AggTimeout(a), Rec("timeout"))
GNext == GThreshold \/ GDeal \/ GResp \/ GJust \/ GTimeout
GSpec == GInit /\ [][GNext]_vars
View == a
\* what the book-keeping is for
Sound == Certified(a) /\ a.has => Count(a, "ok") >= 2 /\ ~a.bad
=============================================================================
