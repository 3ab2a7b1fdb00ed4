------------------------------ MODULE DkgPedGen ------------------------------
(***************************************************************************)
(* Everything one node of Pedersen's DKG (or of a resharing) can be shown  *)
(* about one dealer, message by message: the model checker walks every     *)
(* transition of the node's book-keeping once, by a shortest path, and     *)
(* prints the path.  The harness replays the paths against the code        *)
(* (drivers "dkgped", "dkgre") and DkgPedTrace judges them.                *)
(*                                                                         *)
(* The node is number 0 of three dealers; thresholds are 2.                *)
(*   fresh    a fresh key                   reshare  to the same group     *)
(*   leaving  the node is not in the new group (1, 2, 3)                   *)
(* A deal is good (session A), bad (does not verify), alt (another good    *)
(* sharing B), or contra (a sharing C contradicting the key reshared).     *)
(***************************************************************************)
EXTENDS DkgPedBook, TLC, Json
CONSTANT Roles
VARIABLES nd, d, hist
vars == <<nd, d, hist>>
Sid(w) == CASE w = "alt" -> "B" [] w = "contra" -> "C" [] OTHER -> "A"
Deal(w) == [rec |-> w, sid |-> Sid(w), t |-> 2]
Valid(w) == w # "bad"
Fit(a, w) == a.has /\ Valid(w) /\ Sid(w) = a.sid
Kinds == {"good", "bad", "alt"} \cup (IF nd.re THEN {"contra"} ELSE {})

Role(role, own, dl) ==
  LET book == AggThreshold(VerifierNew("ped", 3), 2)
      leaves == role = "leaving"
  IN /\ nd = [n |-> 3, self |-> IF leaves THEN <<-1, 0, 1>> ELSE <<0, 1, 2>>, oidx |-> 0, nidx |-> 0,
              re |-> role # "fresh", issue |-> TRUE, newp |-> ~leaves, t |-> 2, oldt |-> 2,
              vers |-> IF leaves THEN <<>> ELSE <<book, book, book>>,
              olds |-> [k \in 1..3 |-> [VerifierNew("ped", 3) EXCEPT !.sid = IF leaves /\ k = 1 THEN "A" ELSE ""]],
              dl |-> dl, dagg |-> DealerNew("ped", 3, 2, "A"), done |-> FALSE]
     /\ d = IF own THEN 0 ELSE 1
     /\ hist = <<[op |-> "role", role |-> role, own |-> own, dl |-> dl]>>
GInit == \E role \in Roles, own \in BOOLEAN, dl \in {<<"good", "good", "good">>, <<"good", "bad", "good">>, <<"bad", "good", "good">>} :
  /\ ~own => dl = <<"good", "good", "good">>
  /\ role = "leaving" => dl[1] = "good"
  /\ Role(role, own, dl)
Do(r, step) == /\ nd' = r
               /\ UNCHANGED d
               /\ hist' = Append(hist, [eff |-> r # nd] @@ step)
               /\ PrintT(<<"KVGEN", ToJson(hist')>>)
\* a deal reaches the node
Taken(w) == LET r == NTake(nd, d, Deal(w), Valid(w), w = "contra")
            IN IF w = "contra" THEN r ELSE NSettle(nd, d, r, [k \in 1..3 |-> Fit(r.a, nd.dl[k])])
\* the node hands out its deals, and takes its own
GDeals ==
  /\ d = 0
  /\ IF nd.re \/ nd.done THEN Do(nd, [op |-> "deals"])
     ELSE Do([SetV(nd, 0, Taken(nd.dl[1]).a) EXCEPT !.done = TRUE], [op |-> "deals"])
GDeal == /\ nd.newp
         /\ \E w \in Kinds :
              Do(SetV(nd, d, Taken(w).a), [op |-> "deal", d |-> w])
GResp == \E k \in 0..2, w \in {"good", "alt"}, ok \in BOOLEAN, signed \in BOOLEAN :
  /\ (w = "alt" => signed)
  /\ Do(NResp(nd, d, Sid(w), k, signed, ok, Fit(nd.vers[d + 1], nd.dl[k + 1])).nd,
        [op |-> "resp", from |-> k, d |-> w, ok |-> ok, signed |-> signed])
GJust == \E k \in 0..2, w \in Kinds \cup {"wrongidx"} :
  Do(NJust(nd, d, k, w, w # "wrongidx" /\ Fit(nd.vers[d + 1], w), w = "contra").nd, [op |-> "just", idx |-> k, d |-> w])
GTimeout == Do(NTimeout(nd), [op |-> "timeout"])
GNext == GDeals \/ GDeal \/ GResp \/ GJust \/ GTimeout
GSpec == GInit /\ [][GNext]_vars
View == <<nd, d>>
\* one representative of the states that differ only in which of the others said what (quick tier)
Said(a) == [w \in {"ok", "no"} |-> Count(a, w)]
Coarse == <<d, nd.re, nd.newp, nd.dl, nd.done, Said(nd.dagg),
            IF nd.newp THEN LET a == nd.vers[d + 1] IN <<a.has, a.deal, a.sid, a.bad, a.to, a.resp[1], Said(a), a.resp[2] = a.resp[3]>>
            ELSE nd.olds[d + 1]>>
\* what the book-keeping is for (responses in the name of the node itself come from nobody else, see DkgPedModel)
Sound == \A k \in DOMAIN nd.vers :
  LET a == nd.vers[k] IN a.has /\ Certified(a) => Count(a, "ok") >= 2 /\ ~a.bad /\ Count(a, "no") = 0
=============================================================================
