--------------------------------- MODULE Dss ---------------------------------
(***************************************************************************)
(* Distributed Schnorr signatures (src/sign/dss): participants who hold    *)
(* shares of a long-term key and of a one-time key issue signed partial    *)
(* signatures, collect those of the others, and combine any t of them into *)
(* one signature under the long-term public key.                           *)
(***************************************************************************)
EXTENDS Poly, Crypto, DssBook

DssInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], ns |-> <<>>]
PutNode(st, m, nd) == [st EXCEPT !.ns[m] = nd]

DssSid(g, long, rand) == Sha256(EncPts(g, long) \o EncPts(g, rand))
HashSig(g, nd) == Challenge(g, GEnc(g, nd.rand.c[1]), GEnc(g, nd.long.c[1]), nd.msg)
PartialVal(g, nd) == SAdd(g, SMul(g, HashSig(g, nd), nd.long.v), nd.rand.v)
PsMsg(g, i, v, sid) == Sha256(Sha256(SEnc(g, v) \o LE32(i)) \o sid)
\* v is the value at i of hash * long + random
OnPoly(g, nd, i, v) ==
  GMul(g, v, GBase(g)) = GAdd(g, GMul(g, HashSig(g, nd), EvalPubAt(g, nd.long.c, X(i))),
                                 EvalPubAt(g, nd.rand.c, X(i)))
GoodPs(g, nd, p) ==
  /\ p.i < Len(nd.parts)
  /\ p.sid = nd.sid
  /\ SchnorrOk(g, GEnc(g, nd.parts[p.i + 1]), PsMsg(g, p.i, p.v, p.sid), p.sig)
  /\ OnPoly(g, nd, p.i, p.v)

Seen(ev, b) == Chk("enough", ev.st.enough = BookEnough(b))
               \cup Chk("held", Len(ev.st.ps) = Cardinality(b.ps) /\ { [i |-> p.i, v |-> p.v] : p \in Range(ev.st.ps) } = b.ps)

New(st, ev) ==
  LET g == st.g
      pk == GMul(g, ev.x, GBase(g))
      at == { k \in 1..Len(ev.parts) : ev.parts[k] = pk }
      idx == (CHOOSE k \in at : \A j \in at : k <= j) - 1
      nd == [x |-> ev.x, pk |-> pk, parts |-> ev.parts, long |-> ev.long, rand |-> ev.rand, msg |-> ev.msg,
             sid |-> DssSid(g, ev.long.c, ev.rand.c), b |-> BookNew(idx, Len(ev.parts), ev.t)]
  IN IF at = {} THEN R(st, Chk("out", ev.out = "err"))
     ELSE IF ev.out # "ok" THEN R(st, {"out"})
     ELSE R([st EXCEPT !.ns = Append(@, nd)],
            Chk("index", ev.idx = idx) \cup Chk("public", ev.pub = pk) \cup Chk("sid", ev.sid = nd.sid) \cup Seen(ev, nd.b))

Partial(st, ev) ==
  LET g == st.g  nd == st.ns[ev.m]  v == PartialVal(g, nd)  b == BookOwn(nd.b, v) IN
  IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R(PutNode(st, ev.m, [nd EXCEPT !.b = b]),
         Chk("value", ev.v = v) \cup Chk("index", ev.i = nd.b.idx) \cup Chk("sid", ev.sid = nd.sid)
         \cup Chk("sig", SchnorrOk(g, GEnc(g, nd.pk), PsMsg(g, ev.i, ev.v, ev.sid), ev.sig)) \cup Seen(ev, b))

Process(st, ev) ==
  LET g == st.g  nd == st.ns[ev.m]
      good == GoodPs(g, nd, ev)
      b == BookProcess(nd.b, ev.i, ev.v, good)
  IN R(PutNode(st, ev.m, [nd EXCEPT !.b = b]),
       Chk("out", ev.out = (IF BookTakes(nd.b, ev.i, good) THEN "ok" ELSE "err")) \cup Seen(ev, b))

SetSeq(S) == LET I == SetToSeqAsc({ p.i : p \in S })
             IN Strict([k \in 1..Len(I) |-> CHOOSE p \in S : p.i = I[k]])
\* degree below t, and everything held lies on the polynomial: the result has to verify
Sound(g, nd) == /\ Len(nd.long.c) <= nd.b.t /\ Len(nd.rand.c) <= nd.b.t
                /\ \A p \in nd.b.ps : OnPoly(g, nd, p.i, p.v)
Signature(st, ev) ==
  LET g == st.g  nd == st.ns[ev.m] IN
  IF ~BookEnough(nd.b) THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R(st, Chk("value", ev.sig = GEnc(g, nd.rand.c[1]) \o SEnc(g, InterpPri(g, SetSeq(nd.b.ps), nd.b.t)[1]))
             \cup Chk("valid", Sound(g, nd) => SchnorrOk(g, GEnc(g, nd.long.c[1]), nd.msg, ev.sig)))
\* the verification offered by the module is that of EdDSA
Verify(st, ev) == R(st, Chk("out", ev.out = (IF SchnorrOk(st.g, ev.pk, ev.msg, ev.sig) THEN "ok" ELSE "err")))

DssStep(st, ev) ==
  CASE ev.op = "new" -> New(st, ev)
    [] ev.op = "partial" -> Partial(st, ev)
    [] ev.op = "process" -> Process(st, ev)
    [] ev.op = "signature" -> Signature(st, ev)
    [] ev.op = "verify" -> Verify(st, ev)
    [] ev.op \in StoreOps -> StoreStep(st, ev)
=============================================================================
