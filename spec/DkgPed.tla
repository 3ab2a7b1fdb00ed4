-------------------------------- MODULE DkgPed --------------------------------
(***************************************************************************)
(* Pedersen's distributed key generation and the resharing of a key        *)
(* (src/share/dkg/pedersen): any number of nodes, each with its own        *)
(* configuration, and whatever messages reach them.                        *)
(*                                                                         *)
(* A node keeps one VSS book-keeping (VssAgg) per dealer; its own deals if *)
(* it may issue any; and, when it leaves the group, one book-keeping per   *)
(* dealer that never learns a deal.  Dealers are the old nodes (resharing) *)
(* or all nodes (fresh); verifiers are the new nodes.                      *)
(***************************************************************************)
EXTENDS Vss, DkgPedBook

DkgInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], nodes |-> <<>>, drawn |-> {}]

\* the VSS instance of dealer d (0-based) as node nd sees it
Inst(st, nd, d) == [g |-> st.g, kind |-> "ped", h |-> "0", D |-> nd.dealers[d + 1], V |-> nd.newn]
HasDup(s) == \E i, j \in Idx(s) : i < j /\ s[i] = s[j]
IdxOf(s, p) == IF p \in Range(s) THEN FirstIdx(s, p) ELSE 0
(* ------------------------------ configuration -------------------------- *)
\* what a source of entropy gives a node that picks its secret from this source alone: a number
\* below the order from every 32 bytes in turn, until one is in range ("" when it runs dry)
RECURSIVE Picked(_, _)
Picked(rd, q) ==
  IF HLen(rd) < 32 THEN ""
  ELSE LET ks == Blake3Xof("", Sha256(HSub(rd, 0, 32)), 0, 32)
           v == BBe(HexByte(HByte(ks, 0) % 32) \o HSub(ks, 1, 32))
       IN IF v # "0" /\ BCmp(v, q) < 0 THEN v ELSE Picked(HSub(rd, 32, HLen(rd)), q)
\* a source the user gave: alone, it determines the secret; otherwise the secret is fresh even
\* when the source repeats itself
Entropy(st, ev) ==
  IF ev.rd = "none" THEN {}
  ELSE IF ev.only THEN Chk("determined", IF st.g.grp = "ed" THEN ev.coef[1] = Picked(ev.rd, st.g.q)
                                         ELSE \A d \in st.drawn : d.only /\ d.rd = ev.rd => d.v = ev.coef[1])
  ELSE Chk("fresh", (HLen(ev.rd) > 0 => ev.asked) /\ (st.g.grp = "ed" => \A d \in st.drawn : d.v # ev.coef[1]))
(* ----------------------------- nodes ----------------------------------- *)
NewNode(st, ev) ==
  LET g == st.g  pub == GMul(g, ev.x, GBase(g))
      re == ev.share # "none" \/ ev.pub # <<>>
      newp == pub \in Range(ev.newn)
      issue == ev.share # "none" \/ (~re /\ newp)
      dealers == IF ~re /\ newp THEN ev.newn ELSE ev.oldn
      t == IF ev.t # 0 THEN ev.t ELSE MinimumT(Len(ev.newn))
      bad == \/ ev.newn = <<>> /\ ev.oldn = <<>>
             \/ re /\ (ev.oldn = <<>> \/ ev.oldt = 0)
             \/ ~(newp \/ pub \in Range(ev.oldn))
             \/ issue /\ ~ValidT(t, Len(ev.newn))
             \/ newp /\ HasDup(dealers)
      base == [x |-> ev.x, n |-> Len(ev.newn), self |-> [k \in Idx(dealers) |-> IF dealers[k] \in Range(ev.newn) THEN FirstIdx(ev.newn, dealers[k]) ELSE -1], re |-> re, newn |-> ev.newn, dealers |-> dealers, t |-> t, oldt |-> ev.oldt,
               newp |-> newp, oldp |-> pub \in Range(dealers), issue |-> issue,
               oidx |-> IdxOf(dealers, pub), nidx |-> IdxOf(ev.newn, pub), dpub |-> ev.pub,
               vers |-> IF newp THEN [k \in Idx(dealers) |-> AggThreshold(VerifierNew("ped", Len(ev.newn)), t)] ELSE <<>>,
               olds |-> [k \in Idx(dealers) |-> VerifierNew("ped", Len(ev.newn))],
               imp |-> FALSE, dl |-> <<>>, dagg |-> AggNew("ped", 0, 0, FALSE, ""), pp |-> <<>>, done |-> FALSE]
      own == issue /\ ev.share = "none" /\ ev.rd # "none"        \* the user's source is asked
  IN IF bad /\ ~own THEN R(st, Chk("out", ev.out = "err"))
     ELSE IF bad THEN R(st, Chk("out", ev.out # "ok"))
     ELSE IF own /\ ev.only /\ g.grp = "ed" /\ Picked(ev.rd, g.q) = "" THEN R(st, Chk("dry", ev.out # "ok"))
     ELSE IF ev.out # "ok" THEN R(st, {"out"})
     ELSE
     LET me == [g |-> g, kind |-> "ped", h |-> "0", D |-> pub, V |-> ev.newn]
         sid == IF issue THEN SessionId(g, pub, ev.newn, ev.c, t) ELSE ""
         mine == IF issue THEN [base EXCEPT !.dl = ev.deals, !.dagg = DealerNew("ped", Len(ev.newn), t, sid), !.pp = ev.coef] ELSE base
         \* a node that leaves knows its own session, if no other
         nd == IF Leaving(base) THEN [mine EXCEPT !.olds[base.oidx + 1].sid = sid] ELSE mine
     IN R([st EXCEPT !.nodes = Append(@, nd),
                     !.drawn = IF issue /\ ev.share = "none" THEN @ \cup {[rd |-> ev.rd, only |-> ev.only, v |-> ev.coef[1]]} ELSE @],
          (IF own THEN Entropy(st, ev) ELSE {}) \cup Chk("role", ev.issue = issue /\ ev.receive = newp /\ ev.re = re) \cup
          Chk("expected", ev.expected = (IF newp THEN Len(dealers) - (IF nd.oldp THEN 1 ELSE 0) ELSE 0)) \cup
          (IF ~issue THEN {} ELSE
           Chk("dealt", Len(ev.deals) = Len(ev.newn) /\ \A k \in Idx(ev.deals) :
               ev.deals[k].i = k - 1 /\ ev.deals[k].c = ev.c /\ GoodDeal(me, ev.deals[k], t, sid)) \cup
           Chk("secret", ev.share # "none" => ev.c[1] = GMul(g, ev.share, GBase(g))) \cup
           Chk("poly", ev.c = CommitTo(g, ev.coef, GBase(g)))))
Mutate2(st, ev) == R([st EXCEPT !.nodes[ev.m].dl[ev.i + 1] = ev.deal], {})

(* --------------------------------- deals ------------------------------- *)
Contradicts(st, nd, d, c) == nd.re /\ (c = <<>> \/ c[1] # EvalPubAt(st.g, nd.dpub, X(d)))
\* a deal of dealer d that node nd can read, with content x
Take(st, nd, d, x) ==
  LET in == Inst(st, nd, d)
      r == NTake(nd, d, [rec |-> x, sid |-> x.sid, t |-> x.t], GoodDeal(in, x, Expected(nd, d, x.t), x.sid), Contradicts(st, nd, d, x.c))
  IN IF nd.issue /\ d = nd.oidx /\ Count(r.a, "no") > 0 /\ ~Contradicts(st, nd, d, x.c)
     THEN NSettle(nd, d, r, Strict([k \in 1..nd.n |-> nd.dl[k].i = k - 1 /\ GoodDeal(in, nd.dl[k], r.a.t, r.a.sid)]))
     ELSE r
SetNode(st, m, nd) == [st EXCEPT !.nodes[m] = nd]
Envelope(st, in, rec, x) ==
  /\ SchnorrOk(st.g, GEnc(st.g, in.D), GEnc(st.g, rec.dh), rec.sig)
  /\ rec.ct = Seal(st.g, GMul(st.g, x, rec.dh), Context(in), rec.nonce, Context(in), rec.pt)
\* what the signature on a distributed deal covers, in the toy group
DealMsg(st, d, e) == LE32(d) \o GEnc(st.g, e.dh) \o L64(HLen(e.sig)) \o e.sig \o L64(HLen(e.nonce)) \o e.nonce
                     \o L64(HLen(e.ct)) \o e.ct \o L64(0)
Deals(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  IF ~nd.issue THEN R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("none", ev.sent = <<>>))
  ELSE
  LET own == ~nd.re /\ ~nd.done
      mine == nd.dl[nd.nidx + 1]
      r == IF mine.i # nd.nidx THEN Res(nd.vers[nd.oidx + 1], "err") ELSE Take(st, nd, nd.oidx, mine)
      st1 == IF own THEN SetNode(st, ev.m, [SetV(nd, nd.oidx, r.a) EXCEPT !.done = TRUE]) ELSE st
      in == [g |-> st.g, kind |-> "ped", h |-> "0", D |-> GMul(st.g, nd.x, GBase(st.g)), V |-> nd.newn]
      to == {k - 1 : k \in Idx(nd.newn)} \ (IF nd.re THEN {} ELSE {nd.nidx})
  IN IF own /\ r.out # "ok" THEN R(st1, Chk("out", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st1, {"out"})
     ELSE R(st1,
       Chk("to", {ev.sent[k].to : k \in Idx(ev.sent)} = to /\ Len(ev.sent) = Cardinality(to)) \cup
       UNION {LET s == ev.sent[k] IN
          Chk("index", s.index = nd.oidx) \cup
          Chk("cipher", Envelope(st, in, s, s.vk) /\ s.deal = nd.dl[s.to + 1]) \cup
          Chk("dsig", SchnorrOk(st.g, GEnc(st.g, in.D), s.msg, s.dsig)
                      /\ (st.g.grp = "toy" => s.msg = DealMsg(st, s.index, s))) : k \in Idx(ev.sent)})

ProcDeal(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  IF ~nd.newp \/ ev.index >= Len(nd.dealers) THEN R(st, Chk("unlisted", ev.out = "err"))
  ELSE
  LET in == Inst(st, nd, ev.index) IN
  IF ~SchnorrOk(st.g, GEnc(st.g, in.D), ev.msg, ev.dsig) THEN R(st, Chk("dsig", ev.out = "err"))
  ELSE IF ~Opens(in, [x |-> nd.x], ev) THEN R(st, Chk("opened", ev.out = "err"))
  ELSE IF ev.deal.i # nd.nidx THEN R(st, Chk("misdirected", ev.out = "err"))
  ELSE LET r == Take(st, nd, ev.index, ev.deal) IN
       R(SetNode(st, ev.m, SetV(nd, ev.index, r.a)),
         IF r.out = "err" THEN Chk("again", ev.out = "err")
         ELSE IF ev.out # "ok" THEN {"out"}
         ELSE Chk("about", ev.resp.index = ev.index) \cup
              RespGood(in, [idx |-> nd.nidx], ev.resp, ev.deal, r.out = "ok"))

(* ------------------------------- responses ----------------------------- *)
SignedBy(st, V, ev) == /\ ev.idx \in 0..(Len(V) - 1)
                       /\ SchnorrOk(st.g, GEnc(st.g, V[ev.idx + 1]), RespMsg(ev.sid, ev.idx, ev.ok), ev.sig)
\* the node's own deal was complained about: the justification it has to publish
Justifies(st, nd, ev) ==
  Chk("justifies", ev.hasj) \cup
  (IF ~ev.hasj THEN {} ELSE Chk("justification", ev.j.index = nd.oidx /\ ev.j.idx = ev.idx /\ ev.j.sid = nd.dagg.sid
                                                 /\ ev.j.deal = nd.dl[ev.idx + 1]))
Silent(ev) == Chk("justifies", ~ev.hasj)
\* the deal x of dealer d, shown for verifier idx, is good in the eyes of nd
GoodFor(st, nd, d, idx, x) == LET a == nd.vers[d + 1] IN a.has /\ x.i = idx /\ GoodDeal(Inst(st, nd, d), x, a.t, a.sid)
ProcResp(st, ev) ==
  LET nd == st.nodes[ev.m]
      r == NResp(nd, ev.index, ev.sid, ev.idx, SignedBy(st, nd.newn, ev), ev.ok, GoodFor(st, nd, ev.index, ev.idx, nd.dl[ev.idx + 1]))
  IN R(SetNode(st, ev.m, [r.nd EXCEPT !.imp = @ \/ (r.out = "ok" /\ nd.newp /\ ev.idx = nd.nidx)]),
       IF r.out = "err" THEN Chk("accept", ev.out = "err")
       ELSE IF ev.out # "ok" THEN {"accept"}
       ELSE IF r.just THEN Justifies(st, nd, ev) ELSE Silent(ev))
ProcJust(st, ev) ==
  LET nd == st.nodes[ev.m]  d == ev.index
      r == NJust(nd, d, ev.idx, ev.deal, GoodFor(st, nd, d, ev.idx, ev.deal), Contradicts(st, nd, d, ev.deal.c))
  IN R(SetNode(st, ev.m, r.nd), Chk("accept", ev.out = r.out))
Timeout2(st, ev) == R(SetNode(st, ev.m, NTimeout(st.nodes[ev.m])), Chk("out", ev.out = "ok"))

(* ------------------------------- observers ----------------------------- *)
Observe2(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
    Chk("qual", Range(ev.qual) = Qual(nd)) \cup
    Chk("certified", ev.cert = AllCertified(nd)) \cup
    Chk("threshold", ev.tcert = ThresholdCertified(nd)) \cup
    Chk("holders", Range(ev.holders) = QualShares(nd)) \cup
    Chk("inqual", Range(ev.inqual) = IF Leaving(nd) THEN {} ELSE Qual(nd)) \cup
    Chk("responses", ev.resp = [k \in Idx(nd.vers) |-> nd.vers[k].resp]))

(* ------------------------------ the result ----------------------------- *)
RECURSIVE SumSh(_, _)
SumSh(g, xs) == IF xs = <<>> THEN "0" ELSE SAdd(g, Head(xs), SumSh(g, Tail(xs)))
QualSeq(nd) == SetToSeqAsc(Qual(nd))
DealOf(nd, d) == nd.vers[d + 1].deal
\* Q: the dealers that count, ascending; deal(d): what dealer d gave; t: threshold of the result;
\* told: the number of dealers needed in a resharing
KeyFrom(g, re, Q, deal(_), t, told) ==
  IF ~re THEN
    [commits |-> SumPub(g, Strict([k \in Idx(Q) |-> deal(Q[k]).c]), Len(Q)),
     v |-> SumSh(g, Strict([k \in Idx(Q) |-> deal(Q[k]).v]))]
  ELSE
    LET sh == Strict([k \in Idx(Q) |-> [i |-> Q[k], v |-> deal(Q[k]).v]])
        co(j) == Strict([k \in Idx(Q) |-> [i |-> Q[k], v |-> deal(Q[k]).c[j]]])
    IN [commits |-> Strict([j \in 1..t |-> InterpPub(g, co(j), told)[1]]),
        v |-> InterpPri(g, sh, told)[1]]
KeyOf(st, nd) == LET deal(d) == DealOf(nd, d) IN KeyFrom(st.g, nd.re, QualSeq(nd), deal, nd.t, Len(nd.dpub))
Key(st, ev) ==
  LET nd == st.nodes[ev.m] IN
  IF ~HasKey(nd, Len(nd.dpub)) THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE LET k == KeyOf(st, nd) IN
       R(st, Chk("commits", ev.commits = k.commits) \cup Chk("share", ev.v = k.v) \cup Chk("index", ev.i = nd.nidx)
             \cup Chk("public", ev.public = k.commits[1])
             \cup Chk("poly", nd.re \/ ev.pp = nd.pp))

(* All keys that came out of one run.  Nodes that qualified the same        *)
(* sharings have the same public polynomial; every share lies on it; any t  *)
(* of them give the secret key; and a resharing keeps the public key.       *)
(* Nothing is said of a node in whose name others have signed (imp).        *)
Agree(st, ev) ==
  LET g == st.g  ks == SelectSeq(ev.keys, LAMBDA z : ~st.nodes[z.m].imp)
      nd(k) == st.nodes[ks[k].m]
  IN R(st,
    Chk("same", \A i, j \in Idx(ks) : SameSharings(nd(i), nd(j)) => ks[i].commits = ks[j].commits) \cup
    Chk("valid", \A k \in Idx(ks) : GMul(g, ks[k].v, GBase(g)) = EvalPubAt(g, ks[k].commits, X(ks[k].i))) \cup
    Chk("degree", \A k \in Idx(ks) : Len(ks[k].commits) = nd(k).t) \cup
    Chk("kept", \A k \in Idx(ks) : nd(k).re => ks[k].commits[1] = nd(k).dpub[1]) \cup
    Chk("recovers", \A k \in Idx(ks) :
        LET sh == SelectSeq(ks, LAMBDA z : z.commits = ks[k].commits)
            list == Strict([j \in Idx(sh) |-> [i |-> sh[j].i, v |-> sh[j].v]])
        IN Enough(list, nd(k).t) => GMul(g, InterpPri(g, list, nd(k).t)[1], GBase(g)) = ks[k].commits[1]) \cup
    Chk("everybody", ev.honest => Len(ks) = ev.expect /\ \A i, j \in Idx(ks) : ks[i].commits = ks[j].commits))

(* ------------------------------- renewal ------------------------------- *)
\* a share and a share of zero
Renew(st, ev) ==
  LET g == st.g IN
  IF Len(ev.dc) # Len(ev.gc) \/ ev.gc[1] # GNull(g) \/ ev.di # ev.gi THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ob(st, ev, Chk("commits", ev.commits = PubAdd(g, ev.dc, ev.gc)) \cup
                  Chk("share", ev.v = SAdd(g, ev.dv, ev.gv) /\ ev.i = ev.di) \cup
                  Chk("public", ev.public = ev.dc[1]))

DkgStep(st, ev) ==
  CASE ev.op = "node" -> NewNode(st, ev)
    [] ev.op = "mutate" -> Mutate2(st, ev)
    [] ev.op = "deals" -> Deals(st, ev)
    [] ev.op = "pdeal" -> ProcDeal(st, ev)
    [] ev.op = "presp" -> ProcResp(st, ev)
    [] ev.op = "pjust" -> ProcJust(st, ev)
    [] ev.op = "timeout" -> Timeout2(st, ev)
    [] ev.op = "observe" -> Observe2(st, ev)
    [] ev.op = "key" -> Key(st, ev)
    [] ev.op = "agree" -> Agree(st, ev)
    [] ev.op = "renew" -> Renew(st, ev)
    [] ev.op \in StoreOps -> StoreStep(st, ev)
=============================================================================
