-------------------------------- MODULE DkgRab --------------------------------
(***************************************************************************)
(* Rabin's distributed key generation (src/share/dkg/rabin): the nodes deal*)
(* with a hiding (blinded) VSS, agree on the qualified dealers, and then    *)
(* reveal the commitments of their secret polynomials.  Wrong commitments  *)
(* are complained about; the polynomial of such a dealer is reconstructed  *)
(* in public.                                                              *)
(*                                                                         *)
(* A node keeps per dealer: the VSS book-keeping (from the moment it has a *)
(* deal), the commitments revealed, the shares published for a             *)
(* reconstruction, and whether it was reconstructed.                       *)
(***************************************************************************)
EXTENDS Vss, DkgRabBook

RabInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], h |-> h.h, P |-> h.parts, nodes |-> <<>>]

\* the VSS instance of dealer d (0-based)
RInst(st, d) == [g |-> st.g, kind |-> "rab", h |-> st.h, D |-> st.P[d + 1], V |-> st.P]
NP(st) == Len(st.P)
SetNode(st, m, nd) == [st EXCEPT !.nodes[m] = nd]
ShareAt(g, c, sh) == GMul(g, sh.v, GBase(g)) = EvalPubAt(g, c, X(sh.i))

RNode(st, ev) ==
  LET g == st.g  pub == GMul(g, ev.x, GBase(g))  n == Len(ev.parts)
  IN IF ~(pub \in Range(ev.parts)) \/ ~ValidT(ev.t, n) THEN R(st, Chk("out", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st, {"out"})
     ELSE
     LET idx == FirstIdx(ev.parts, pub)
         me == [RInst(st, idx) EXCEPT !.V = ev.parts]
         sid == SessionId(g, pub, ev.parts, ev.c, ev.t)
         nd == [x |-> ev.x, n |-> n, idx |-> idx, t |-> ev.t, dl |-> ev.deals, orig |-> ev.deals, sid |-> sid,
                dagg |-> DealerNew("rab", n, ev.t, sid),
                vers |-> [k \in 1..n |-> VerifierNew("rab", n)],
                com |-> [k \in 1..n |-> <<>>], pend |-> [k \in 1..n |-> <<>>],
                rec |-> {}, doubt |-> {}]
     IN R([st EXCEPT !.nodes = Append(@, nd)],
          Chk("index", ev.idx = idx) \cup
          Chk("dealt", Len(ev.deals) = n /\ \A k \in Idx(ev.deals) :
              ev.deals[k].i = k - 1 /\ ev.deals[k].c = ev.c /\ GoodDeal(me, ev.deals[k], ev.t, sid)))
RMutate(st, ev) == R([st EXCEPT !.nodes[ev.m].dl[ev.i + 1] = ev.deal], {})
\* the polynomial this node has dealt
Poly0(st, nd) == InterpPri(st.g, SharesOf(nd.orig), nd.t)

(* --------------------------------- deals ------------------------------- *)
\* a deal x of dealer d that node nd can read
AsDeal(x) == [rec |-> x, sid |-> x.sid, t |-> x.t]
Sound(st, d, x) == GoodDeal(RInst(st, d), x, x.t, x.sid)
REnvelope(st, in, rec, x) ==
  /\ SchnorrOk(st.g, GEnc(st.g, in.D), GEnc(st.g, rec.dh), rec.sig)
  /\ rec.ct = Seal(st.g, GMul(st.g, x, rec.dh), Context(in), rec.nonce, Context(in), rec.pt)
RDeals(st, ev) ==
  LET nd == st.nodes[ev.m]  in == RInst(st, nd.idx)  x == nd.dl[nd.idx + 1]
      st1 == SetNode(st, ev.m, RHandOut(nd, AsDeal(x), x.i = nd.idx, Sound(st, nd.idx, x)))
  IN IF ev.out # "ok" THEN R(st1, {"out"})
     ELSE R(st1,
       Chk("to", {ev.sent[k].to : k \in Idx(ev.sent)} = {k - 1 : k \in Idx(st.P)} \ {nd.idx} /\ Len(ev.sent) = NP(st) - 1) \cup
       UNION {LET s == ev.sent[k] IN
          Chk("index", s.index = nd.idx) \cup
          Chk("cipher", REnvelope(st, in, s, s.vk) /\ s.deal = nd.dl[s.to + 1]) : k \in Idx(ev.sent)})
RProcDeal(st, ev) ==
  LET nd == st.nodes[ev.m]  d == ev.index IN
  IF d >= NP(st) THEN R(st, Chk("unlisted", ev.out = "err"))
  ELSE IF Knows(nd, d) THEN R(st, Chk("again", ev.out = "err"))
  ELSE
  LET in == RInst(st, d) IN
  IF ~Opens(in, [x |-> nd.x], ev) THEN R(st, Chk("opened", ev.out = "err"))
  ELSE LET r == RTake(nd, d, AsDeal(ev.deal), ev.deal.i = nd.idx, Sound(st, d, ev.deal)) IN
       IF r.out = "err" THEN R(st, Chk("misdirected", ev.out = "err"))
       ELSE IF ev.out # "ok" THEN R(st, {"out"})
       \* a deal of the node's own that it did not hand out: somebody else has its key
       ELSE R(SetNode(st, ev.m, [SetV(nd, d, r.a) EXCEPT !.doubt = IF d = nd.idx THEN @ \cup {d} ELSE @]),
              Chk("about", ev.resp.index = d) \cup RespGood(in, [idx |-> nd.idx], ev.resp, ev.deal, r.out = "ok"))

(* ------------------------------- responses ----------------------------- *)
RSigned(st, ev) == /\ ev.idx \in 0..(NP(st) - 1)
                   /\ SchnorrOk(st.g, GEnc(st.g, st.P[ev.idx + 1]), RespMsg(ev.sid, ev.idx, ev.ok), ev.sig)
RSilent(ev) == Chk("justifies", ~ev.hasj)
\* the deal x of dealer d, shown for verifier idx, is good in the eyes of nd
GoodFor(st, nd, d, idx, x) == LET a == nd.vers[d + 1] IN x.i = idx /\ GoodDeal(RInst(st, d), x, a.t, a.sid)
RProcResp(st, ev) ==
  LET nd == st.nodes[ev.m]
      r == RResp(nd, ev.index, ev.sid, ev.idx, RSigned(st, ev), ev.ok,
                 ev.index = nd.idx /\ ev.idx < NP(st) /\ GoodFor(st, nd, nd.idx, ev.idx, nd.dl[ev.idx + 1]))
  IN R(SetNode(st, ev.m, r.nd),
       IF r.out = "unknown" THEN Chk("unknown", ev.out = "err")
       ELSE IF r.out = "err" THEN Chk("accept", ev.out = "err")
       ELSE IF ev.out # "ok" THEN {"accept"}
       ELSE Chk("justifies", ev.hasj = r.says) \cup
            (IF ~ev.hasj THEN {} ELSE Chk("justification", ev.j.index = nd.idx /\ ev.j.idx = ev.idx
                                          /\ ev.j.sid = nd.dagg.sid /\ ev.j.deal = nd.dl[ev.idx + 1])))
RProcJust(st, ev) ==
  LET nd == st.nodes[ev.m]  d == ev.index
      r == RJust(nd, d, ev.idx, ev.deal, Knows(nd, d) /\ GoodFor(st, nd, d, ev.idx, ev.deal))
  IN R(SetNode(st, ev.m, r.nd), IF r.out = "unknown" THEN Chk("unknown", ev.out = "err") ELSE Chk("accept", ev.out = r.out))
RTimedOut(st, ev) == R(SetNode(st, ev.m, RTimeout(st.nodes[ev.m])), Chk("out", ev.out = "ok"))

(* ------------------------------- observers ----------------------------- *)
RObserve(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
    Chk("qual", Range(ev.qual) = RQual(nd) /\ Len(ev.qual) = Cardinality(RQual(nd))) \cup
    Chk("certified", ev.cert = RCertified(nd)) \cup
    Chk("inqual", Range(ev.inqual) = RQual(nd)) \cup
    Chk("finished", ev.fin = RFinished(nd)) \cup
    Chk("responses", ev.resp = [k \in Idx(nd.vers) |-> IF nd.vers[k].ex THEN nd.vers[k].resp ELSE <<>>]))

(* -------------------- revealing the public polynomials ----------------- *)
ScMsg(st, sid, i, c) == Sha256(Str2Hex("secretcommits") \o sid \o LE32(i) \o EncPts(st.g, c))
CcMsg(i, d, db) == Sha256(Str2Hex("commitcomplaint") \o LE32(i) \o LE32(d) \o db)
RcMsg(st, sid, i, d, sh) == Sha256(Str2Hex("reconstructcommits") \o sid \o LE32(i) \o LE32(d)
                              \o Sha256(SEnc(st.g, sh.v) \o LE32(sh.i)))
By(st, i, msg, sig) == i < NP(st) /\ SchnorrOk(st.g, GEnc(st.g, st.P[i + 1]), msg, sig)

Reveal(st, ev) ==
  LET nd == st.nodes[ev.m]
      c == CommitTo(st.g, Poly0(st, nd), GBase(st.g))
      r == RReveal(nd, c)
  IN IF r.out = "err" THEN R(st, Chk("out", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st, {"out"})
     ELSE R(SetNode(st, ev.m, r.nd),
         Chk("commits", ev.commits = c) \cup Chk("index", ev.index = nd.idx) \cup Chk("sid", ev.sid = nd.sid) \cup
         Chk("sig", By(st, ev.index, ScMsg(st, ev.sid, ev.index, ev.commits), ev.sig)))
\* the commitments a dealer of the qualified set reveals must fit the share held
ProcReveal(st, ev) ==
  LET nd == st.nodes[ev.m]  d == ev.index
      x == nd.vers[d + 1].deal
      well == Len(ev.commits) = nd.t /\ By(st, d, ScMsg(st, ev.sid, d, ev.commits), ev.sig)
      r == RRevealed(nd, d, ev.sid, well, well /\ d \in RQual(nd) /\ ShareAt(st.g, ev.commits, x), ev.commits)
  IN IF r.out = "unqualified" THEN R(st, Chk("unqualified", ev.out = "err"))
     ELSE IF r.out = "err" THEN R(st, Chk("accept", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st, {"accept"})
     ELSE R(SetNode(st, ev.m, r.nd),
            IF ~r.says THEN Chk("complains", ~ev.has) ELSE IF ~ev.has THEN {"complains"} ELSE
            Chk("complaint", ev.cc.index = nd.idx /\ ev.cc.dealer = d /\ ev.cc.deal = x
                             /\ (st.g.grp = "toy" => ev.cc.db = DealBytes(RInst(st, d), x))) \cup
            Chk("ccsig", By(st, nd.idx, CcMsg(nd.idx, d, ev.cc.db), ev.cc.sig)))
\* the shares q determine a polynomial
Shares(q) == Strict([k \in Idx(q) |-> [i |-> q[k].i, v |-> q[k].v]])
Determined(nd, q) == Len(q) >= nd.t /\ Enough(Shares(q), nd.t)
Recovered(st, nd, q) == CommitTo(st.g, InterpPri(st.g, Shares(q), nd.t), GBase(st.g))
\* a complaint shows a genuine deal that contradicts the commitments
ProcComplaint(st, ev) ==
  LET nd == st.nodes[ev.m]  i == ev.index  d == ev.dealer
      a == nd.vers[d + 1]
      good == Knows(nd, d) /\ GoodDeal(RInst(st, d), ev.deal, a.t, a.sid)
      mine == IF good THEN [sid |-> ev.deal.sid, index |-> nd.idx, i |-> a.deal.i, v |-> a.deal.v] ELSE <<>>
      q == IF good THEN Append(nd.pend[d + 1], mine) ELSE <<>>
      enough == Determined(nd, q)
      r == RComplaint(nd, i, d, By(st, i, CcMsg(i, d, ev.db), ev.sig), good,
                      good /\ nd.com[d + 1] # <<>> /\ ShareAt(st.g, nd.com[d + 1], ev.deal), mine,
                      enough, IF enough THEN Recovered(st, nd, q) ELSE <<>>)
  IN IF r.out = "err" THEN R(st, Chk("accept", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st, {"accept"})
     ELSE R(SetNode(st, ev.m, r.nd),
         Chk("reveals", ev.rc.index = nd.idx /\ ev.rc.dealer = d /\ ev.rc.sid = mine.sid /\ ev.rc.i = mine.i /\ ev.rc.v = mine.v) \cup
         Chk("rcsig", By(st, nd.idx, RcMsg(st, ev.rc.sid, nd.idx, d, [i |-> ev.rc.i, v |-> ev.rc.v]), ev.rc.sig)))
\* published shares; t of them give the polynomial
Genuine(st, d, r) == \E k \in Idx(st.nodes) : /\ st.nodes[k].idx = d
                                              /\ st.nodes[k].sid = r.sid
                                              /\ r.i < NP(st) /\ st.nodes[k].orig[r.i + 1].v = r.v
ProcShare(st, ev) ==
  LET nd == st.nodes[ev.m]  d == ev.dealer
      \* far: the index is not that of any verifier, only its low half is i
      r == [sid |-> ev.sid, index |-> ev.index, i |-> IF ev.far THEN -1 ELSE ev.i, v |-> ev.v]
      q == IF d < NP(st) THEN Append(nd.pend[d + 1], r) ELSE <<>>
      enough == Determined(nd, q)
      o == RShare(nd, d, By(st, ev.index, RcMsg(st, ev.sid, ev.index, d, [i |-> ev.i, v |-> ev.v]), ev.sig), r, enough,
                  IF enough THEN Recovered(st, nd, q) ELSE <<>>)
      nd1 == IF o.says /\ ~Genuine(st, d, r) THEN [o.nd EXCEPT !.doubt = @ \cup {d}] ELSE o.nd
  IN IF d >= NP(st) THEN R(st, {})      \* about no dealer: of no consequence
     ELSE R(SetNode(st, ev.m, nd1), IF d \in nd.rec THEN Chk("late", ev.out = "ok") ELSE Chk("accept", ev.out = o.out))

(* ------------------------------ the result ----------------------------- *)
RECURSIVE RSum(_, _)
RSum(g, xs) == IF xs = <<>> THEN "0" ELSE SAdd(g, Head(xs), RSum(g, Tail(xs)))
RKeyOf(st, nd) ==
  LET g == st.g  Q == SetToSeqAsc(RQual(nd)) IN
    [commits |-> SumPub(g, Strict([k \in Idx(Q) |-> nd.com[Q[k] + 1]]), Len(Q)),
     v |-> RSum(g, Strict([k \in Idx(Q) |-> nd.vers[Q[k] + 1].deal.v]))]
RKey(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  IF ~RFinished(nd) THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE LET k == RKeyOf(st, nd) IN
       R(st, Chk("commits", ev.commits = k.commits) \cup Chk("share", ev.v = k.v) \cup Chk("index", ev.i = nd.idx)
             \cup Chk("public", ev.public = k.commits[1]))

(* Every share lies on its public polynomial (unless that was reconstructed *)
(* from shares that are not the dealer's); shares of one public polynomial  *)
(* recover its secret; and if only the commitments of some dealers were     *)
(* wrong, all honest nodes end with the key of the dealt polynomials.       *)
RAgree(st, ev) ==
  LET g == st.g  ks == ev.keys
      nd(k) == st.nodes[ks[k].m]
      sure(k) == nd(k).doubt = {}
      truth(k) == LET Q == SetToSeqAsc(RQual(nd(k)))
                      p(d) == Poly0(st, st.nodes[CHOOSE j \in Idx(st.nodes) : st.nodes[j].idx = d])
                  IN CommitTo(g, Strict([j \in 1..nd(k).t |-> RSum(g, Strict([z \in Idx(Q) |-> p(Q[z])[j]]))]), GBase(g))
  IN R(st,
    Chk("valid", \A k \in Idx(ks) : sure(k) => ShareAt(g, ks[k].commits, ks[k])) \cup
    Chk("degree", \A k \in Idx(ks) : Len(ks[k].commits) = nd(k).t) \cup
    Chk("recovers", \A k \in Idx(ks) :
        LET sh == SelectSeq([j \in Idx(ks) |-> [i |-> ks[j].i, v |-> ks[j].v, c |-> ks[j].commits, s |-> sure(j)]],
                            LAMBDA z : z.s /\ z.c = ks[k].commits)
            list == Strict([j \in Idx(sh) |-> [i |-> sh[j].i, v |-> sh[j].v]])
        IN Enough(list, nd(k).t) => GMul(g, InterpPri(g, list, nd(k).t)[1], GBase(g)) = ks[k].commits[1]) \cup
    Chk("everybody", ev.honest => Len(ks) = ev.expect /\ \A k \in Idx(ks) : ks[k].commits = truth(k)))

DkgRabStep(st, ev) ==
  CASE ev.op = "node" -> RNode(st, ev)
    [] ev.op = "mutate" -> RMutate(st, ev)
    [] ev.op = "deals" -> RDeals(st, ev)
    [] ev.op = "pdeal" -> RProcDeal(st, ev)
    [] ev.op = "presp" -> RProcResp(st, ev)
    [] ev.op = "pjust" -> RProcJust(st, ev)
    [] ev.op = "timeout" -> RTimedOut(st, ev)
    [] ev.op = "observe" -> RObserve(st, ev)
    [] ev.op = "reveal" -> Reveal(st, ev)
    [] ev.op = "preveal" -> ProcReveal(st, ev)
    [] ev.op = "pcomplaint" -> ProcComplaint(st, ev)
    [] ev.op = "pshare" -> ProcShare(st, ev)
    [] ev.op = "key" -> RKey(st, ev)
    [] ev.op = "agree" -> RAgree(st, ev)
    [] ev.op \in StoreOps -> StoreStep(st, ev)
=============================================================================
