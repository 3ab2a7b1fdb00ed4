------------------------------ MODULE DkgRabGen ------------------------------
(***************************************************************************)
(* Everything one node of Rabin's DKG can be shown about one dealer,       *)
(* message by message, from the deal to the reconstruction: the model      *)
(* checker walks every transition of the node's book-keeping once, by a    *)
(* shortest path, and prints the path.  The harness replays the paths      *)
(* against the code (driver "dkgrab") and DkgRabTrace judges them.         *)
(*                                                                         *)
(* The node is number 0 of three, the threshold is 2, and the other two    *)
(* dealers are qualified.  A deal is good (session A), bad (does not       *)
(* verify), alt (another sharing B), or t3 (of another threshold).         *)
(* Commitments are good, half (they fit this node's share only), bad, alt, *)
(* short, or unsigned.                                                     *)
(***************************************************************************)
EXTENDS DkgRabBook, TLC, Json
CONSTANT Roles
VARIABLES nd, d, hist
vars == <<nd, d, hist>>
Sid(w) == CASE w = "alt" -> "B" [] w = "t3" -> "D" [] OTHER -> "A"
Deal(w) == [rec |-> w, sid |-> Sid(w), t |-> IF w = "t3" THEN 3 ELSE 2]
Valid(w) == w # "bad"
Fit(a, w) == a.ex /\ Valid(w) /\ Sid(w) = a.sid
Kinds == {"good", "bad", "alt"}
\* the commitments c: of which sharing, and for which nodes they fit
Com(c) == CASE c = "half" -> <<"A", {0}>> [] c = "alt" -> <<"B", 0..2>> [] c = "bad" -> <<"A", {}>> [] OTHER -> <<"A", 0..2>>
Fits(com, w, i) == Valid(w) /\ Sid(w) = com[1] /\ i \in com[2]

Role(own, dl) ==
  /\ d = IF own THEN 0 ELSE 1
  /\ nd = [n |-> 3, idx |-> 0, t |-> 2, dl |-> dl, dagg |-> DealerNew("rab", 3, 2, "A"),
           vers |-> [k \in 1..3 |-> IF k = d + 1 THEN VerifierNew("rab", 3)
                                    ELSE [VerifierNew("rab", 3) EXCEPT !.ex = TRUE, !.has = TRUE, !.t = 2, !.sid = "A", !.resp = <<"ok", "ok", "ok">>]],
           com |-> <<<<>>, <<>>, <<>>>>, pend |-> <<<<>>, <<>>, <<>>>>, rec |-> {}]
  /\ hist = <<[op |-> "role", own |-> own, dl |-> dl]>>
GInit == \E own \in Roles, dl \in {<<"good", "good", "good">>, <<"good", "bad", "good">>} :
  /\ ~own => dl = <<"good", "good", "good">>
  /\ Role(own, dl)
Do(r, step) == /\ nd' = r
               /\ UNCHANGED d
               /\ hist' = Append(hist, [eff |-> r # nd] @@ step)
               /\ PrintT(<<"KVGEN", ToJson(hist')>>)
A == nd.vers[d + 1]
GDeals == d = 0 /\ Do(RHandOut(nd, Deal(nd.dl[1]), TRUE, Valid(nd.dl[1])), [op |-> "deals"])
GDeal == \E w \in Kinds \cup {"t3"} : Do(SetV(nd, d, RTake(nd, d, Deal(w), TRUE, Valid(w)).a), [op |-> "deal", d |-> w])
GResp == \E k \in 0..2, w \in {"good", "alt"}, ok \in BOOLEAN, signed \in BOOLEAN :
  /\ (w = "alt" => signed)
  /\ Do(RResp(nd, d, Sid(w), k, signed, ok, Fit(A, nd.dl[k + 1])).nd, [op |-> "resp", from |-> k, d |-> w, ok |-> ok, signed |-> signed])
GJust == \E k \in 0..2, w \in Kinds \cup {"wrongidx"} :
  Do(RJust(nd, d, k, w, w # "wrongidx" /\ Fit(A, w)).nd, [op |-> "just", idx |-> k, d |-> w])
GTimeout == Do(RTimeout(nd), [op |-> "timeout"])
GReveal == d = 0 /\ Do(RReveal(nd, Com("good")).nd, [op |-> "reveal"])
GRevealed == \E c \in {"good", "half", "bad", "alt", "short", "unsigned"} :
  Do(RRevealed(nd, d, Com(c)[1], c \notin {"short", "unsigned"}, A.ex /\ Fits(Com(c), A.deal, 0), Com(c)).nd, [op |-> "preveal", d |-> c])
Mine == [sid |-> A.sid, index |-> 0, i |-> 0, v |-> A.deal]
\* the line through two points fits everybody if both are right
Two(q) == Cardinality({q[j].i : j \in DOMAIN q}) >= 2
Line(q) == LET right == {q[j].i : j \in {j \in DOMAIN q : Valid(q[j].v) /\ Sid(q[j].v) = q[j].sid}}
           IN <<q[Len(q)].sid, IF Cardinality(right) >= 2 THEN 0..2 ELSE right>>
GComplaint == \E k \in 1..2, w \in Kinds, signed \in BOOLEAN :
  /\ (w # "good" => signed)
  /\ LET com == nd.com[d + 1]  q == Append(nd.pend[d + 1], Mine) IN
     Do(RComplaint(nd, k, d, signed, Fit(A, w), com # <<>> /\ Fits(com, w, k), Mine, Two(q), Line(q)).nd,
        [op |-> "pcomplaint", from |-> k, d |-> w, signed |-> signed])
\* a share of node k, or (same) this node's under another name
GShare == \E k \in 1..2, w \in Kinds \cup {"same", "unsigned"} :
  LET r == [sid |-> Sid(w), index |-> k, i |-> IF w = "same" THEN 0 ELSE k, v |-> IF w \in {"same", "unsigned"} THEN "good" ELSE w]
      q == Append(nd.pend[d + 1], r)
  IN Do(RShare(nd, d, w # "unsigned", r, Two(q), Line(q)).nd, [op |-> "pshare", from |-> k, d |-> w])
GNext == GDeals \/ GDeal \/ GResp \/ GJust \/ GTimeout \/ GReveal \/ GRevealed \/ GComplaint \/ GShare
GSpec == GInit /\ [][GNext]_vars
\* one representative of the states that differ only in which of the others said what
Said(a) == [w \in {"ok", "no"} |-> Count(a, w)]
Coarse == <<d, nd.dl, Said(nd.dagg), A.ex, A.deal, A.sid, A.bad, A.resp[1], Said(A), A.resp[2] = A.resp[3],
            nd.com[d + 1], nd.pend[d + 1], nd.rec>>
\* the dealer's commitments are held only if it is qualified, or were reconstructed from t shares
Sane == /\ nd.com[d + 1] # <<>> => d \in nd.rec \/ (IF d = 0 THEN Certified(nd.dagg) \/ Certified(A) ELSE Certified(A)) \/ A.bad
        /\ Len(nd.pend[d + 1]) <= 3
=============================================================================
