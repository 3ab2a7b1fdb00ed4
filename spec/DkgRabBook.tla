------------------------------ MODULE DkgRabBook ------------------------------
(***************************************************************************)
(* The book-keeping of one node of Rabin's DKG: one VSS book-keeping       *)
(* (VssAgg) per dealer, the commitments revealed, the shares published for *)
(* a reconstruction, and what follows from them.  Cryptographic judgements *)
(* come in as booleans: DkgRab uses these operators on executions of the   *)
(* code, DkgRabModel and DkgRabGen on abstract messages.                   *)
(*                                                                         *)
(* A node nd has                                                           *)
(*   n, idx   the number of nodes, and its own    t     the threshold      *)
(*   vers     per dealer, the VSS book-keeping (from the deal on)          *)
(*   dl       its own deals                       dagg  responses to them  *)
(*   com      per dealer, the commitments revealed (<<>>: none)            *)
(*   pend     per dealer, the shares published                             *)
(*   rec      the dealers reconstructed                                    *)
(***************************************************************************)
EXTENDS VssAgg
Knows(nd, d) == d < nd.n /\ nd.vers[d + 1].ex
SetV(nd, d, a) == [nd EXCEPT !.vers[d + 1] = a]
\* an approval that never replaces anything
Approve(a, k) == [a EXCEPT !.resp[k + 1] = IF @ = "none" THEN "ok" ELSE @]
NRes(nd, out, says) == [nd |-> nd, out |-> out, says |-> says]

\* a deal of dealer d that could be read; mine: it is meant for this node
RTake(nd, d, x, mine, valid) ==
  IF ~mine \/ Knows(nd, d) THEN Res(nd.vers[d + 1], "err")
  ELSE LET r == AggDeal(nd.vers[d + 1], nd.idx, x, valid)
       IN IF r.out = "err" \/ x.t # nd.t THEN Res(nd.vers[d + 1], "err")
          ELSE Res(Approve(r.a, d), r.out)
\* the node hands out its deals: the first time it takes its own
RHandOut(nd, x, mine, valid) ==
  IF Knows(nd, nd.idx) THEN nd
  ELSE [SetV(nd, nd.idx, RTake(nd, nd.idx, x, mine, valid).a) EXCEPT !.dagg = Approve(@, nd.idx)]
(* says: the complaint is answered by a justification, which the node      *)
(* applies to itself; good: its deal for that verifier is good.            *)
RResp(nd, d, sid, idx, signed, ok, good) ==
  IF ~Knows(nd, d) THEN NRes(nd, "unknown", FALSE)
  ELSE
  LET r == AggResponse(nd.vers[d + 1], sid, idx, signed, ok)
      nd1 == SetV(nd, d, r.a)
  IN IF r.out = "err" \/ d # nd.idx THEN NRes(nd1, r.out, FALSE)
     ELSE
     LET rd == AggResponse(nd.dagg, sid, idx, signed, ok)
         nd2 == [nd1 EXCEPT !.dagg = rd.a]
     IN IF rd.out = "err" \/ ok THEN NRes(nd2, rd.out, FALSE)
        ELSE LET rj == AggJustify(r.a, nd.idx, idx, nd.dl[idx + 1], good)
             IN NRes(SetV(nd2, d, rj.a), rj.out, rj.out = "ok")
RJust(nd, d, idx, rec, good) ==
  IF ~Knows(nd, d) THEN NRes(nd, "unknown", FALSE)
  ELSE LET r == AggJustify(nd.vers[d + 1], nd.idx, idx, rec, good) IN NRes(SetV(nd, d, r.a), r.out, FALSE)
RTimeout(nd) == [nd EXCEPT !.vers = [k \in DOMAIN @ |-> AggTimeout(@[k])], !.dagg = AggTimeout(@)]

RQual(nd) == {k - 1 : k \in {k \in DOMAIN nd.vers : nd.vers[k].ex /\ Certified(nd.vers[k])}}
RCertified(nd) == Cardinality(RQual(nd)) >= nd.t
RFinished(nd) == RCertified(nd) /\ \A d \in RQual(nd) : nd.com[d + 1] # <<>>

\* the node reveals its own commitments c
RReveal(nd, c) == IF Certified(nd.dagg) THEN NRes([nd EXCEPT !.com[nd.idx + 1] = c], "ok", TRUE) ELSE NRes(nd, "err", FALSE)
(* Commitments c revealed by dealer d; well: of the threshold's length and  *)
(* signed; fit: they fit the share held.  Otherwise the node complains.     *)
(* Once the node has published its own share, or the polynomial has been    *)
(* reconstructed, the dealer has no further say.                            *)
RRevealed(nd, d, sid, well, fit, c) ==
  IF d \notin RQual(nd) THEN NRes(nd, "unqualified", FALSE)
  ELSE IF \/ sid # nd.vers[d + 1].sid \/ ~well \/ d \in nd.rec
          \/ \E k \in DOMAIN nd.pend[d + 1] : nd.pend[d + 1][k].index = nd.idx THEN NRes(nd, "err", FALSE)
  ELSE IF fit THEN NRes([nd EXCEPT !.com[d + 1] = c], "ok", FALSE)
  ELSE NRes(nd, "ok", TRUE)
(* A complaint by node i about the commitments of dealer d; good: the deal  *)
(* it shows is a good one of the dealer's; fit: it fits the commitments     *)
(* held.  If it is right, the node publishes its own share r; the shares it  *)
(* has then may be enough for the commitments c.                            *)
RComplaint(nd, i, d, signed, good, fit, r, enough, c) ==
  IF \/ i \notin RQual(nd) \/ ~signed \/ ~Knows(nd, d) \/ ~good
     \/ nd.com[d + 1] = <<>> \/ fit \/ d \notin RQual(nd)
  THEN NRes(nd, "err", FALSE)
  ELSE LET q == Append(nd.pend[d + 1], r)
       IN IF Len(q) >= nd.t /\ enough
          THEN NRes([nd EXCEPT !.com[d + 1] = c, !.rec = @ \cup {d}, !.pend[d + 1] = <<>>], "ok", TRUE)
          ELSE NRes([nd EXCEPT !.com[d + 1] = <<>>, !.pend[d + 1] = q], "ok", TRUE)
(* The own share r, published for the reconstruction of dealer d's poly-   *)
(* nomial in the session of the deal, where the node knows it; t, if they   *)
(* determine it (enough), give the commitments c.                           *)
RShare(nd, d, signed, r, enough, c) ==
  IF d \in nd.rec THEN NRes(nd, "ok", FALSE)
  ELSE IF \/ d >= nd.n \/ nd.com[d + 1] # <<>> \/ ~signed \/ r.i # r.index
          \/ nd.vers[d + 1].sid # "" /\ nd.vers[d + 1].sid # r.sid THEN NRes(nd, "err", FALSE)
  ELSE
  LET p == nd.pend[d + 1]
      stops == {k \in DOMAIN p : p[k].index = r.index \/ p[k].sid # r.sid}
      first == CHOOSE k \in stops : \A j \in stops : k <= j
      q == Append(p, r)
  IN IF stops # {} THEN NRes(nd, IF p[first].index = r.index THEN "ok" ELSE "err", FALSE)
     ELSE IF Len(q) < nd.t THEN NRes([nd EXCEPT !.pend[d + 1] = q], "ok", TRUE)
     ELSE IF ~enough THEN NRes([nd EXCEPT !.pend[d + 1] = q], "err", TRUE)
     ELSE NRes([nd EXCEPT !.com[d + 1] = c, !.rec = @ \cup {d}, !.pend[d + 1] = <<>>], "ok", TRUE)
=============================================================================
