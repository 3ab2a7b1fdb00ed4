------------------------------ MODULE DkgPedBook ------------------------------
(***************************************************************************)
(* The book-keeping of one node of Pedersen's DKG or of a resharing: one   *)
(* VSS book-keeping (VssAgg) per dealer, the node's own dealing, and what  *)
(* follows from them.  As in VssAgg, cryptographic judgements come in as   *)
(* booleans: DkgPed uses these operators on executions of the code,        *)
(* DkgPedModel and DkgPedGen on abstract deals.                            *)
(*                                                                         *)
(* A node nd has                                                           *)
(*   n        the number of verifiers (the new nodes)                      *)
(*   self     per dealer its number among the verifiers, or -1             *)
(*   oidx     its number among the dealers     nidx  among the verifiers   *)
(*   re       it is a resharing                issue it deals              *)
(*   newp     it is a verifier                 t, oldt  the thresholds     *)
(*   vers     per dealer, the VSS book-keeping as a verifier               *)
(*   olds     per dealer, the responses seen by a node leaving the group   *)
(*   dl       its own deals                    dagg  responses to them     *)
(*   done     it has taken its own deal                                    *)
(***************************************************************************)
EXTENDS VssAgg
Leaving(nd) == nd.re /\ nd.issue /\ ~nd.newp
SetV(nd, d, a) == [nd EXCEPT !.vers[d + 1] = a]

\* a complaint prevails over an approval; an approval never replaces anything
SetResp(a, k, ok) == [a EXCEPT !.resp[k + 1] = IF ~ok THEN "no" ELSE IF @ = "none" THEN "ok" ELSE @]
\* the threshold a deal of dealer d has to have
Expected(nd, d, t) == LET a == nd.vers[d + 1] IN IF a.has \/ a.t # 0 THEN a.t ELSE t
(* A deal of dealer d the node can read.  The dealer is taken to approve    *)
(* its own deal; one that contradicts the key being reshared counts as      *)
(* complained about by the node, and by the dealer itself.                  *)
NTake(nd, d, x, valid, contradicts) ==
  LET r == AggDeal(nd.vers[d + 1], nd.nidx, x, valid)  k == nd.self[d + 1] IN
  IF r.out = "err" THEN r
  ELSE IF contradicts
  THEN Res(SetResp(IF k >= 0 THEN SetResp(r.a, k, FALSE) ELSE r.a, nd.nidx, FALSE), "no")
  ELSE IF k >= 0 /\ ~nd.re THEN Res(SetResp(r.a, k, TRUE), r.out)
  ELSE r

(* Complaints about the node's own deals that came before its own copy are  *)
(* settled when that arrives; good[k + 1]: its deal for verifier k is good. *)
RECURSIVE SettleFrom(_, _, _, _)
SettleFrom(nd, a, good, k) ==
  IF k = nd.n THEN a
  ELSE SettleFrom(nd, IF k # nd.nidx /\ a.resp[k + 1] = "no" THEN AggJustify(a, nd.nidx, k, nd.dl[k + 1], good[k + 1]).a ELSE a,
                  good, k + 1)
NSettle(nd, d, r, good) ==
  IF nd.issue /\ d = nd.oidx /\ r.out # "err" THEN Res(SettleFrom(nd, r.a, good, 0), r.out) ELSE r

NRes(nd, out, just) == [nd |-> nd, out |-> out, just |-> just]
(* A response to the deal of dealer d.  A complaint about the node's own    *)
(* deal is answered by a justification, which the node applies to itself;   *)
(* mine: its own deal for that verifier is good in its own eyes.            *)
NResp(nd, d, sid, idx, signed, ok, mine) ==
  IF Leaving(nd) THEN
    LET r == AggResponse(nd.olds[d + 1], sid, idx, signed, ok) IN
    NRes([nd EXCEPT !.olds[d + 1] = r.a], r.out, r.out = "ok" /\ d = nd.oidx /\ ~ok)
  ELSE IF d >= Len(nd.vers) THEN NRes(nd, "err", FALSE)
  ELSE
  LET r == AggResponse(nd.vers[d + 1], sid, idx, signed, ok)
      nd1 == SetV(nd, d, r.a)
  IN IF r.out = "err" \/ ~nd.issue \/ d # nd.oidx THEN NRes(nd1, r.out, FALSE)
     ELSE
     LET rd == AggResponse(nd.dagg, sid, idx, signed, ok)
         nd2 == [nd1 EXCEPT !.dagg = rd.a]
     IN IF rd.out = "err" \/ ok THEN NRes(nd2, rd.out, FALSE)
        ELSE IF ~r.a.has THEN NRes(nd2, "ok", TRUE)
        ELSE LET rj == AggJustify(r.a, nd.nidx, idx, nd.dl[idx + 1], mine)
             IN NRes(SetV(nd2, d, rj.a), rj.out, rj.out = "ok")
\* a justification cannot redeem a deal that contradicts the key
NJust(nd, d, idx, rec, good, contradicts) ==
  IF d >= Len(nd.vers) THEN NRes(nd, "err", FALSE)
  ELSE LET r == AggJustify(nd.vers[d + 1], nd.nidx, idx, rec, good) IN
       IF r.out = "ok" /\ contradicts THEN NRes(SetV(nd, d, [r.a EXCEPT !.bad = TRUE]), "err", FALSE)
       ELSE NRes(SetV(nd, d, r.a), r.out, FALSE)
NTimeout(nd) == [nd EXCEPT !.vers = [k \in DOMAIN @ |-> AggTimeout(@[k])]]

(* ------------------------------- conclusions --------------------------- *)
Books(nd) == IF Leaving(nd) THEN nd.olds ELSE nd.vers
Qual(nd) == {k - 1 : k \in {k \in DOMAIN Books(nd) : Certified(Books(nd)[k])}}
ThresholdCertified(nd) == Cardinality(Qual(nd)) >= (IF nd.re THEN nd.oldt ELSE nd.t)
AllCertified(nd) == Cardinality({d \in Qual(nd) : Missing(Books(nd)[d + 1]) = {}}) >= Len(nd.self)
\* holders of which every dealer not known to be bad has heard
GoodBooks(nd) == {k \in DOMAIN nd.vers : Count(nd.vers[k], "no") = 0 /\ Count(nd.vers[k], "none") < nd.n}
QualShares(nd) == {h \in 0..(nd.n - 1) : \A k \in GoodBooks(nd) : nd.vers[k].resp[h + 1] # "none"}
\* enough to have a key: old is the threshold of the key being reshared
HasKey(nd, old) == /\ ThresholdCertified(nd) /\ nd.newp
                   /\ \A d \in Qual(nd) : nd.vers[d + 1].has
                   /\ nd.re => Cardinality(Qual(nd)) >= old
\* two nodes that qualify the same sharings
SameSharings(a, b) == /\ Qual(a) = Qual(b)
                      /\ \A d \in Qual(a) : a.vers[d + 1].sid = b.vers[d + 1].sid
=============================================================================
