--------------------------------- MODULE Sig ---------------------------------
(***************************************************************************)
(* Signatures: EdDSA (src/sign/eddsa, RFC 8032 with strict verification)   *)
(* and Schnorr (src/sign/schnorr).  The state holds the EdDSA keys made so *)
(* far, and the one-time elements R of all Schnorr signatures.             *)
(***************************************************************************)
EXTENDS Crypto

SigInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], ks |-> <<>>, rs |-> {}]
R(st, bad) == [st |-> st, bad |-> bad]
EdG == [grp |-> "ed", q |-> L]

(* RFC 8032 5.1.5: the secret scalar and the prefix of a seed              *)
Clamp(d) == HexByte((HByte(d, 0) \div 8) * 8) \o HSub(d, 1, 31) \o HexByte((HByte(d, 31) % 64) + 64)
OfSeed(seed) == LET d == Sha512(seed)  sec == BLe(Clamp(HSub(d, 0, 32)))
                IN [seed |-> seed, prefix |-> HSub(d, 32, 64), sec |-> sec, pub |-> EdMul(sec, EdBase)]
Matches(ev, k) == Chk("seed", ev.k.seed = k.seed) \cup Chk("prefix", ev.k.prefix = k.prefix)
                  \cup Chk("secret", BMod(BLe(ev.k.sec), L) = BMod(k.sec, L)) \cup Chk("public", ev.k.pub = k.pub)
AddKey(st, k) == [st EXCEPT !.ks = Append(@, k)]
\* a key from 32 bytes of the given random stream
New(st, ev) == IF ev.out # "ok" THEN R(st, {"out"})
               ELSE LET k == OfSeed(ev.seed) IN R(AddKey(st, k), Matches(ev, k))
\* seed and public key; only the seed counts
Unmarshal(st, ev) ==
  IF HLen(ev.data) # 64 THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE LET k == OfSeed(HSub(ev.data, 0, 32)) IN R(AddKey(st, k), Matches(ev, k))
\* a key of a key pair has no seed; its prefix has to be its own secret
FromPair(st, ev) ==
  IF ev.out # "ok" THEN R(st, {"out"})
  ELSE LET k == [seed |-> "", prefix |-> ev.k.prefix, sec |-> ev.x, pub |-> EdMul(ev.x, EdBase)]
       IN R(AddKey(st, k), Matches(ev, k) \cup Chk("hidden", HLen(k.prefix) >= 32 /\ \A j \in 1..Len(st.ks) :
            st.ks[j].prefix = k.prefix => BMod(st.ks[j].sec, L) = BMod(k.sec, L)))
Marshal(st, ev) ==
  LET k == st.ks[ev.m] IN
  IF k.seed = "" THEN R(st, Chk("out", ev.out = "err"))
  ELSE R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("data", ev.data = k.seed \o k.pub))
\* keys are equal when all there is to them is
Equal(st, ev) ==
  LET a == st.ks[ev.a]  b == st.ks[ev.b] IN
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("eq", ev.eq = (a.seed = b.seed /\ a.prefix = b.prefix /\ a.pub = b.pub /\ BMod(a.sec, L) = BMod(b.sec, L))))
(* RFC 8032 5.1.6                                                           *)
EdSign(k, msg) ==
  LET r == BMod(BLe(Sha512(k.prefix \o msg)), L)
      rp == EdMul(r, EdBase)
      h == Challenge(EdG, rp, k.pub, msg)
  IN rp \o HLe(BAdd(r, BMul(h, k.sec, L), L), 32)
Sign(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("sig", ev.sig = EdSign(st.ks[ev.m], ev.msg)) \cup Chk("verifies", SchnorrOk(EdG, st.ks[ev.m].pub, ev.msg, ev.sig)))
(* RFC 8032 5.1.7 without cofactor; small orders and non-canonical          *)
(* encodings are refused                                                    *)
Verify(st, ev) == R(st, Chk("out", ev.out = (IF SchnorrOk(EdG, ev.pk, ev.msg, ev.sig) THEN "ok" ELSE "err")))

SSign(st, ev) ==
  LET pk == GMul(st.g, ev.x, GBase(st.g))  r == HSub(ev.sig, 0, PtLen(st.g)) IN
  IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R([st EXCEPT !.rs = @ \cup {r}],
         Chk("verifies", SchnorrOk(st.g, GEnc(st.g, pk), ev.msg, ev.sig)) \cup Chk("nonce", r \notin st.rs))
SVerify(st, ev) ==
  R(st, Chk("out", ev.out = (IF SchnorrOk(st.g, GEnc(st.g, ev.pk), ev.msg, ev.sig) THEN "ok" ELSE "err")))

SigStep(st, ev) ==
  CASE ev.op = "new" -> New(st, ev)
    [] ev.op = "unmarshal" -> Unmarshal(st, ev)
    [] ev.op = "frompair" -> FromPair(st, ev)
    [] ev.op = "marshal" -> Marshal(st, ev)
    [] ev.op = "equal" -> Equal(st, ev)
    [] ev.op = "sign" -> Sign(st, ev)
    [] ev.op = "verify" -> Verify(st, ev)
    [] ev.op = "ssign" -> SSign(st, ev)
    [] ev.op = "sverify" -> SVerify(st, ev)
    [] ev.op = "stored" -> R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("same", ev.same))
    [] ev.op = "cut" -> R(st, Chk("out", ev.out = "err"))
    [] ev.op = "garbled" -> R(st, Chk("out", ev.out # "panic"))
    [] ev.op = "show" -> R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("leaks", ~ev.leaks))
=============================================================================
