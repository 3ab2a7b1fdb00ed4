------------------------------- MODULE Channel -------------------------------
(***************************************************************************)
(* Encryption: HKDF, AES-256-GCM and the channels made of them (src/dh),   *)
(* and the integrated encryption scheme ECIES (src/encrypt/ecies).         *)
(*                                                                         *)
(* The state is what has been handed out: the ephemeral keys seen so far,  *)
(* none of which may occur again.                                          *)
(*   R = r*G, K = r*Pub, (k, nonce) = HKDF(K), key = HKDF(R, info (k,      *)
(*   nonce)), ciphertext = R || AES-256-GCM(key, nonce, message)           *)
(***************************************************************************)
EXTENDS Crypto, TLC

R(st, bad) == [st |-> st, bad |-> bad]
ChanInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], hash |-> h.hash, seen |-> {}]

HLenOf(st) == IF st.hash = "sha512" THEN 64 ELSE 32
Mac(st, k, m) == IF st.hash = "sha512" THEN HmacSha512(k, m) ELSE HmacSha256(k, m)
RECURSIVE Blocks(_, _, _, _, _, _)
Blocks(st, prk, info, prev, k, need) ==
  IF need <= 0 THEN "" ELSE
  LET t == Mac(st, prk, prev \o info \o HexByte(k)) IN t \o Blocks(st, prk, info, t, k + 1, need - HLenOf(st))
Kdf(st, ikm, info, n) == HSub(Blocks(st, Mac(st, HRep("00", HLenOf(st)), ikm), info, "", 1, n), 0, n)

Tag == 16
Broken == "broken"
\* GCM is a stream cipher under a tag: the message is found by encrypting, and checked by encrypting again
GcmOpen(key, nonce, aad, c) ==
  LET n == HLen(c) - Tag IN
  IF n < 0 THEN Broken ELSE
  LET ks == HSub(AesGcmSeal(key, nonce, "", HRep("00", n)), 0, n)
      pt == HXor(ks, HSub(c, 0, n))
  IN IF AesGcmSeal(key, nonce, aad, pt) = c THEN pt ELSE Broken

(* --------------------------------- ECIES ------------------------------- *)
Decodes(g, h) == IF g.grp = "toy" THEN HLen(h) = 8 /\ BCmp(BLe(h), g.q) < 0 ELSE EdDecodes(h)
Norm(g, h) == IF g.grp = "toy" THEN BLe(h) ELSE EdNorm(h)
EciesOpen(st, priv, ctx) ==
  LET n == PtLen(st.g) IN
  IF HLen(ctx) < n THEN Broken ELSE
  IF ~Decodes(st.g, HSub(ctx, 0, n)) THEN Broken ELSE
  LET r == Norm(st.g, HSub(ctx, 0, n))
      buf == Kdf(st, GEnc(st.g, GMul(st.g, priv, r)), "", 44)
      key == Kdf(st, GEnc(st.g, r), buf, 32)
  IN GcmOpen(key, HSub(buf, 32, 44), "", HSub(ctx, n, HLen(ctx)))

Encrypt(st, ev) ==
  IF ev.out # "ok" THEN R(st, {"out"}) ELSE
  LET n == PtLen(st.g)  r == HSub(ev.ctx, 0, n) IN
  R([st EXCEPT !.seen = @ \cup {r}],
    Chk("length", HLen(ev.ctx) = n + HLen(ev.msg) + Tag)
    \cup Chk("opens", EciesOpen(st, ev.priv, ev.ctx) = ev.msg)
    \cup Chk("fresh", r \notin st.seen /\ r # GEnc(st.g, GNull(st.g)) /\ r # GEnc(st.g, GBase(st.g))))
Opened(st, ev, m) == R(st, IF m = Broken THEN Chk("refused", ev.out = "err")
                           ELSE IF ev.out # "ok" THEN {"out"} ELSE Chk("message", ev.msg = m))
Decrypt(st, ev) == Opened(st, ev, EciesOpen(st, ev.priv, ev.ctx))

(* ------------------------------- channels ------------------------------ *)
\* dst: length of the destination, -1 for none
ToDst(ev, v) == IF ev.dst >= 0 /\ ev.dst # HLen(v) THEN Chk("refused", ev.out = "err")
                ELSE IF ev.out # "ok" THEN {"out"}
                ELSE Chk("value", ev.v = v) \cup Chk("dst", ev.dst >= 0 => ev.d = v)
SealAead(st, ev) == R(st, ToDst(ev, AesGcmSeal(Kdf(st, GEnc(st.g, ev.pre), ev.ctx, 32), ev.nonce, ev.aad, ev.msg)))
OpenAead(st, ev) ==
  LET m == GcmOpen(Kdf(st, GEnc(st.g, ev.pre), ev.ctx, 32), ev.nonce, ev.aad, ev.ct)
  IN R(st, IF m = Broken THEN Chk("refused", ev.out = "err") ELSE ToDst(ev, m))
Value(st, ev, v) == R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("value", ev.v = v))
DhEncrypt(st, ev) == Value(st, ev, AesGcmSeal(Kdf(st, GEnc(st.g, ev.pre), ev.info, 32), ev.nonce, ev.info, ev.msg))
DhDecrypt(st, ev) == Opened(st, ev, GcmOpen(Kdf(st, GEnc(st.g, ev.pre), ev.info, 32), ev.nonce, ev.info, ev.ct))
HkdfOp(st, ev) ==
  LET n == IF ev.n < 0 THEN 32 ELSE ev.n IN
  IF n > 255 * HLenOf(st) THEN R(st, Chk("refused", ev.out = "err")) ELSE Value(st, ev, Kdf(st, ev.ikm, ev.info, n))
AesEncrypt(st, ev) == IF HLen(ev.key) # 32 THEN R(st, Chk("refused", ev.out = "err"))
                      ELSE Value(st, ev, AesGcmSeal(ev.key, ev.nonce, ev.aad, ev.msg))
AesDecrypt(st, ev) == IF HLen(ev.key) # 32 THEN R(st, Chk("refused", ev.out = "err"))
                      ELSE Opened(st, ev, GcmOpen(ev.key, ev.nonce, ev.aad, ev.ct))
\* both sides of an exchange arrive at the same element
Exchange(st, ev) ==
  LET g == st.g  s == GMul(g, BMod(BMul(ev.a, ev.b, g.q), g.q), GBase(g))
  IN R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("shared", ev.one = s /\ ev.two = s))

ChanStep(st, ev) ==
  CASE ev.op = "encrypt" -> Encrypt(st, ev)
    [] ev.op = "decrypt" -> Decrypt(st, ev)
    [] ev.op = "seal" -> SealAead(st, ev)
    [] ev.op = "open" -> OpenAead(st, ev)
    [] ev.op = "dhenc" -> DhEncrypt(st, ev)
    [] ev.op = "dhdec" -> DhDecrypt(st, ev)
    [] ev.op = "hkdf" -> HkdfOp(st, ev)
    [] ev.op = "aesenc" -> AesEncrypt(st, ev)
    [] ev.op = "aesdec" -> AesDecrypt(st, ev)
    [] ev.op = "exchange" -> Exchange(st, ev)
=============================================================================
