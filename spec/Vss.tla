---------------------------------- MODULE Vss ----------------------------------
(***************************************************************************)
(* Executions of the verifiable secret sharing modules: a dealer, its      *)
(* verifiers, and whatever messages reach them, in any order, genuine or   *)
(* forged.  Deals are records                                              *)
(*   [sid, i, v, ri, rv, t, c]: session, share (i, v), blinding share      *)
(*   (ri, rv) (Rabin), threshold, commitments.                             *)
(***************************************************************************)
EXTENDS Poly, Crypto, VssAgg

MinimumT(n) == (n + 1) \div 2
ValidT(t, n) == t >= 2 /\ t <= n
Idx(s) == 1..Len(s)
FirstIdx(s, x) == (CHOOSE k \in Idx(s) : s[k] = x /\ \A j \in 1..(k - 1) : s[j] # x) - 1

SharesOf(ds) == Strict([k \in Idx(ds) |-> [i |-> ds[k].i, v |-> ds[k].v]])
VssInit(h) ==
  LET g == [grp |-> h.grp, q |-> h.q] IN
  [g |-> g, kind |-> h.kind, h |-> h.h,
   D |-> GMul(g, h.dk, GBase(g)),
   V |-> Strict([k \in Idx(h.vk) |-> GMul(g, h.vk[k], GBase(g))]),
   dealt |-> FALSE, dl |-> <<>>, c |-> <<>>, f |-> <<>>, agg |-> AggNew(h.kind, 0, 0, FALSE, ""), t |-> 0,
   ver |-> <<>>]
N(st) == Len(st.V)
Context(st) == IF st.kind = "ped" THEN CtxPedersen(st.g, st.D, st.V) ELSE CtxRabin(st.g, st.D, st.V)

(* --------------------------- when is a deal good? ---------------------- *)
\* t: the threshold the verifier goes by
ShareVerifies(st, d) ==
  LET g == st.g  fig == GMul(g, d.v, GBase(g))
      lhs == IF st.kind = "ped" THEN fig ELSE GAdd(g, fig, GMul(g, d.rv, st.h))
  IN lhs = EvalPubAt(g, d.c, X(d.i))
GoodDeal(st, d, t, sid) ==
  /\ ValidT(d.t, N(st)) /\ d.t = t /\ Len(d.c) = d.t
  /\ sid = d.sid
  /\ d.sid = SessionId(st.g, st.D, st.V, d.c, d.t)
  /\ d.i < N(st)
  /\ st.kind = "rab" => d.i = d.ri
  /\ ShareVerifies(st, d)

(* --------------------------------- dealer ------------------------------ *)
Dealer(st, ev) ==
  IF ~ValidT(ev.t, N(st)) THEN R(st, Chk("out", ev.out = "err"))
  ELSE
  LET g == st.g  sid == SessionId(g, st.D, st.V, ev.c, ev.t) IN
  Ok(st, [st EXCEPT !.dealt = TRUE, !.dl = ev.deals, !.c = ev.c, !.f = InterpPri(g, SharesOf(ev.deals), ev.t), !.t = ev.t, !.agg = DealerNew(st.kind, N(st), ev.t, sid)], ev,
     Chk("sid", ev.sid = sid) \cup Chk("pub", ev.pub = st.D) \cup
     Chk("deals", Len(ev.deals) = N(st) /\ \A k \in Idx(ev.deals) : ev.deals[k].i = k - 1 /\ ev.deals[k].c = ev.c) \cup
     Chk("good", \A k \in Idx(ev.deals) : GoodDeal(st, ev.deals[k], ev.t, sid)) \cup
     Chk("secret", EvalAt(g, InterpPri(g, SharesOf(ev.deals), ev.t), "0") = ev.secret) \cup
     Chk("poly", ev.coef = <<>> \/ (ev.coef[1] = ev.secret /\ Len(ev.coef) = ev.t /\ ev.c = CommitTo(g, ev.coef, GBase(g)))))
Mutate(st, ev) == R([st EXCEPT !.dl[ev.i + 1] = ev.deal], {})

\* the wire form of a deal, in the toy group
L64(k) == HLe(BNat(k), 8)
DealBytes(st, d) ==
  L64(HLen(d.sid)) \o d.sid \o L64(d.i) \o SEnc(st.g, d.v) \o
  (IF st.kind = "rab" THEN L64(d.ri) \o SEnc(st.g, d.rv) ELSE "") \o
  L64(d.t) \o L64(Len(d.c)) \o EncPts(st.g, d.c)
\* the encryption of deal i: signed by the dealer, readable for verifier i and only bound to this run
Encrypt(st, ev) ==
  IF ev.i >= N(st) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ob(st, ev,
     Chk("sig", SchnorrOk(st.g, GEnc(st.g, st.D), GEnc(st.g, ev.dh), ev.sig)) \cup
     Chk("cipher", ev.ct = Seal(st.g, GMul(st.g, ev.vk, ev.dh), Context(st), ev.nonce, Context(st), ev.pt)) \cup
     Chk("plain", ev.deal = st.dl[ev.i + 1] /\ (st.g.grp = "toy" => ev.pt = DealBytes(st, ev.deal))) \cup
     Chk("fresh", ev.fresh))

EncryptAll(st, ev) == Ob(st, ev, Chk("count", ev.count = N(st)))

(* -------------------------------- verifier ----------------------------- *)
NewVerifier(st, ev) ==
  LET p == GMul(st.g, ev.x, GBase(st.g)) IN
  IF ~(p \in Range(st.V)) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ok(st, [st EXCEPT !.ver = Append(@, [x |-> ev.x, idx |-> FirstIdx(st.V, p), a |-> VerifierNew(st.kind, N(st))])], ev,
          Chk("index", ev.idx = FirstIdx(st.V, p)))
Threshold(st, ev) == R([st EXCEPT !.ver[ev.m].a = AggThreshold(@, ev.t)], Chk("out", ev.out = "ok"))

Opens(st, w, ev) ==
  /\ SchnorrOk(st.g, GEnc(st.g, st.D), GEnc(st.g, ev.dh), ev.sig)
  /\ HLen(ev.nonce) = 12
  /\ ev.pt # ""
  /\ ev.ct = Seal(st.g, GMul(st.g, w.x, ev.dh), Context(st), ev.nonce, Context(st), ev.pt)
\* resp is what the verifier answered
RespGood(st, w, resp, d, status) ==
  LET sid == SessionId(st.g, st.D, st.V, d.c, d.t) IN
  Chk("rsid", resp.sid = sid) \cup Chk("rindex", resp.idx = w.idx) \cup Chk("status", resp.ok = status) \cup
  Chk("rsig", SchnorrOk(st.g, GEnc(st.g, st.V[w.idx + 1]), RespMsg(resp.sid, resp.idx, resp.ok), resp.sig))
Recv(st, ev) ==
  LET w == st.ver[ev.m] IN
  IF ~Opens(st, w, ev) THEN R(st, Chk("opened", ev.out = "err"))
  ELSE IF ~ev.decodes THEN R(st, Chk("garbage", ev.out = "err"))
  ELSE LET d == ev.deal IN
  IF d.i # w.idx THEN R(st, Chk("misdirected", ev.out = "err"))
  ELSE LET t == IF w.a.has \/ (st.kind = "ped" /\ w.a.t # 0) THEN w.a.t ELSE d.t
           good == GoodDeal(st, d, t, d.sid)
           r == AggDeal(w.a, w.idx, [rec |-> d, sid |-> d.sid, t |-> d.t], good)
       IN R([st EXCEPT !.ver[ev.m].a = r.a],
            IF r.out = "err" THEN Chk("again", ev.out = "err")
            ELSE IF ev.out # "ok" THEN {"out"} ELSE RespGood(st, w, ev.resp, d, r.out = "ok"))

\* a response, brought to a verifier or (m = 0) to the dealer
Signed(st, ev) == /\ ev.idx \in 0..(N(st) - 1)
                  /\ SchnorrOk(st.g, GEnc(st.g, st.V[ev.idx + 1]), RespMsg(ev.sid, ev.idx, ev.ok), ev.sig)
Response(st, ev) ==
  IF ev.m = 0 THEN
    LET r == AggResponse(st.agg, ev.sid, ev.idx, Signed(st, ev), ev.ok) IN
    R([st EXCEPT !.agg = r.a],
      Chk("accept", ev.out = r.out) \cup
      (IF ev.out # "ok" \/ r.out # "ok" THEN {} ELSE
       Chk("justifies", ev.hasj = ~ev.ok) \cup
       (IF ~ev.hasj \/ ev.ok THEN {} ELSE
        Chk("justification", ev.j.sid = st.agg.sid /\ ev.j.idx = ev.idx /\ ev.j.deal = st.dl[ev.idx + 1]) \cup
        Chk("jsig", SchnorrOk(st.g, GEnc(st.g, st.D), JustMsg(ev.j.sid, ev.j.idx, ev.j.db), ev.j.sig)))))
  ELSE
    LET r == AggResponse(st.ver[ev.m].a, ev.sid, ev.idx, Signed(st, ev), ev.ok) IN
    R([st EXCEPT !.ver[ev.m].a = r.a], Chk("accept", ev.out = r.out))

Justify(st, ev) ==
  LET w == st.ver[ev.m]
      good == w.a.has /\ ev.deal.i = ev.idx /\ GoodDeal(st, ev.deal, w.a.t, w.a.sid)
      r == AggJustify(w.a, w.idx, ev.idx, ev.deal, good)
  IN R([st EXCEPT !.ver[ev.m].a = r.a], Chk("accept", ev.out = r.out))
\* a justification with a signature that is not the dealer's must change nothing
ForgedJustify(st, ev) == R(st, Chk("accept", ev.out = "err" /\ ev.unchanged))

Timeout(st, ev) ==
  R(IF ev.m = 0 THEN [st EXCEPT !.agg = AggTimeout(@)] ELSE [st EXCEPT !.ver[ev.m].a = AggTimeout(@)], Chk("out", ev.out = "ok"))

Vouch(st, ev) == R([st EXCEPT !.ver[ev.m].a = AggVouch(@, ev.idx, ev.ok)], Chk("out", ev.out = "ok"))

(* ------------------------------- observers ----------------------------- *)
\* certification, responses, missing responses and the deal handed out
Observe(st, ev) ==
  LET a == IF ev.m = 0 THEN st.agg ELSE st.ver[ev.m].a
      cert == Certified(a)
  IN R(st, IF ev.out # "ok" THEN {"out"} ELSE
     (IF ~a.ex THEN {} ELSE
        Chk("cert", ev.cert = cert) \cup
        Chk("sid", ev.sid = a.sid) \cup
        Chk("responses", ev.resp = a.resp) \cup
        Chk("missing", st.kind = "ped" => Range(ev.missing) = Missing(a))) \cup
     (IF ev.m = 0 THEN
        Chk("release", ev.commit = IF cert THEN GMul(st.g, ev.secret, GBase(st.g)) ELSE "none") \cup
        \* Rabin's commitments hide the sharing polynomial; the plain ones are only told once certified
        Chk("commits", ev.commits = IF st.kind = "ped" THEN st.c
                                    ELSE IF cert THEN CommitTo(st.g, st.f, GBase(st.g)) ELSE <<"none">>) \cup
        Chk("key", ev.key[2] = st.D /\ GMul(st.g, ev.key[1], GBase(st.g)) = st.D)
      ELSE
        Chk("commits", st.kind = "ped" => ev.commits = IF a.has THEN a.deal.c ELSE <<"none">>) \cup
        Chk("key", ev.key = <<st.ver[ev.m].x, st.V[st.ver[ev.m].idx + 1]>> /\ ev.index = st.ver[ev.m].idx) \cup
        Chk("handout", ev.has = (a.ex /\ a.has /\ cert)) \cup
        (IF ev.has /\ a.has THEN Chk("deal", ev.deal = a.deal) ELSE {})))

\* the secret from the deals of several verifiers
Recover(st, ev) ==
  LET sh == SharesOf(ev.deals)
      same == \A k \in Idx(ev.deals) : ev.deals[k].sid = ev.deals[1].sid
  IN IF ~same \/ ~Enough(sh, ev.t) THEN R(st, Chk("out", ev.out = "err"))
     ELSE Ob(st, ev, Chk("v", ev.v = InterpPri(st.g, sh, ev.t)[1]))
MinT(st, ev) == Ob(st, ev, Chk("t", ev.t = MinimumT(ev.n)))

VssStep(st, ev) ==
  CASE ev.op = "dealer" -> Dealer(st, ev)
    [] ev.op = "mutate" -> Mutate(st, ev)
    [] ev.op = "encrypt" -> Encrypt(st, ev)
    [] ev.op = "verifier" -> NewVerifier(st, ev)
    [] ev.op = "threshold" -> Threshold(st, ev)
    [] ev.op = "recv" -> Recv(st, ev)
    [] ev.op = "response" -> Response(st, ev)
    [] ev.op = "justify" -> Justify(st, ev)
    [] ev.op = "forged" -> ForgedJustify(st, ev)
    [] ev.op = "timeout" -> Timeout(st, ev)
    [] ev.op = "encryptall" -> EncryptAll(st, ev)
    [] ev.op = "vouch" -> Vouch(st, ev)
    [] ev.op = "observe" -> Observe(st, ev)
    [] ev.op = "recover" -> Recover(st, ev)
    [] ev.op = "mint" -> MinT(st, ev)
    [] ev.op \in StoreOps -> StoreStep(st, ev)
=============================================================================
