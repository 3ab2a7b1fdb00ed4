-------------------------------- MODULE Crypto --------------------------------
(***************************************************************************)
(* The keyed constructions of the library, over the groups of Grp:         *)
(* HKDF (RFC 5869, SHA-256, empty salt), the AES-256-GCM channel derived   *)
(* from a Diffie-Hellman element (src/dh), the Schnorr signature           *)
(* (src/sign/schnorr) and the session/context strings of the VSS.          *)
(***************************************************************************)
EXTENDS Grp

Str2Hex(s) == CASE s = "response" -> "726573706f6e7365"
                [] s = "justification" -> "6a757374696669636174696f6e"
                [] s = "vss-dealer" -> "7673732d6465616c6572"
                [] s = "vss-verifiers" -> "7673732d766572696669657273"
                [] s = "secretcommits" -> "736563726574636f6d6d697473"
                [] s = "commitcomplaint" -> "636f6d6d6974636f6d706c61696e74"
                [] s = "reconstructcommits" -> "7265636f6e737472756374636f6d6d697473"

LE32(i) == HLe(BNat(i), 4)

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
EncPts(g, ps) == Cat(Strict([k \in 1..Len(ps) |-> GEnc(g, ps[k])]))

(* ---------------------------------- HKDF ------------------------------- *)
HkdfPrk(ikm) == HmacSha256(HRep("00", 32), ikm)
RECURSIVE HkdfBlocks(_, _, _, _, _)
HkdfBlocks(prk, info, prev, k, need) ==
  IF need <= 0 THEN "" ELSE
  LET t == HmacSha256(prk, prev \o info \o HexByte(k)) IN t \o HkdfBlocks(prk, info, t, k + 1, need - 32)
Hkdf(ikm, info, n) == HSub(HkdfBlocks(HkdfPrk(ikm), info, "", 1, n), 0, n)

(* the channel: key from the shared element, context as HKDF info          *)
ChanKey(g, pre, ctx) == Hkdf(GEnc(g, pre), ctx, 32)
Seal(g, pre, ctx, nonce, aad, pt) == AesGcmSeal(ChanKey(g, pre, ctx), nonce, aad, pt)

(* -------------------------------- Schnorr ------------------------------ *)
PtLen(g) == IF g.grp = "toy" THEN 8 ELSE 32
ScLen(g) == IF g.grp = "toy" THEN 8 ELSE 32
\* a point encoding that may stand in a signature: decodable, canonical, not of small order
GoodPtEnc(g, h) ==
  IF g.grp = "toy" THEN HLen(h) = 8 /\ BCmp(BLe(h), g.q) < 0 /\ BLe(h) # "0"
  ELSE HLen(h) = 32 /\ EdDecodes(h) /\ EdCanonical(h) /\ ~EdSmallOrder(h)
GoodScEnc(g, h) == HLen(h) = ScLen(g) /\ BCmp(BLe(h), g.q) < 0
PtOf(g, h) == IF g.grp = "toy" THEN BLe(h) ELSE h
Challenge(g, r, a, msg) == BMod(BLe(Sha512(r \o a \o msg)), g.q)
\* group equality for elements written in canonical form
SchnorrOk(g, pkenc, msg, sig) ==
  /\ HLen(sig) = PtLen(g) + ScLen(g)
  /\ LET r == HSub(sig, 0, PtLen(g))  s == HSub(sig, PtLen(g), PtLen(g) + ScLen(g)) IN
     /\ GoodPtEnc(g, r) /\ GoodPtEnc(g, pkenc) /\ GoodScEnc(g, s)
     /\ GMul(g, BLe(s), GBase(g))
        = GAdd(g, PtOf(g, r), GMul(g, Challenge(g, r, pkenc, msg), PtOf(g, pkenc)))

(* ------------------------ VSS session and messages --------------------- *)
SessionId(g, dealer, verifs, commits, t) ==
  Sha256(GEnc(g, dealer) \o EncPts(g, verifs) \o EncPts(g, commits) \o LE32(t))
CtxPedersen(g, dealer, verifs) ==
  Sha256(Str2Hex("vss-dealer") \o GEnc(g, dealer) \o Str2Hex("vss-verifiers") \o EncPts(g, verifs))
CtxRabin(g, dealer, verifs) ==
  Blake3Xof("", Str2Hex("vss-dealer") \o GEnc(g, dealer) \o Str2Hex("vss-verifiers") \o EncPts(g, verifs), 0, 128)
RespMsg(sid, idx, ok) == Sha256(Str2Hex("response") \o sid \o LE32(idx) \o LE32(IF ok THEN 1 ELSE 0))
JustMsg(sid, idx, dealbytes) == Sha256(Str2Hex("justification") \o sid \o LE32(idx) \o dealbytes)
=============================================================================
