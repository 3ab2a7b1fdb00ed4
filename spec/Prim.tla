-------------------------------- MODULE Prim --------------------------------
(***************************************************************************)
(* Arbitrary-precision natural numbers and byte strings.                   *)
(*                                                                         *)
(* A "big natural" is a decimal string ("0", "17", ...), a byte string is  *)
(* a lower-case hex string ("", "00ff", ...).  The definitions below give  *)
(* the meaning of the operators; because TLC's integers are 32 bits wide,  *)
(* TLC evaluates them through the Java overrides in java/PrimOverrides.    *)
(* PrimTest.tla checks the overrides against these definitions on numbers  *)
(* that do fit.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

Digit == <<"0","1","2","3","4","5","6","7","8","9">>
HexDigit == Digit \o <<"a","b","c","d","e","f">>

Ch(s, i) == SubSeq(s, i, i)
IndexIn(tab, c) == (CHOOSE k \in 1..Len(tab) : tab[k] = c) - 1

(* ------------------------- reference definitions ----------------------- *)
RECURSIVE DefToNat(_)
DefToNat(s) == IF Len(s) = 1 THEN IndexIn(Digit, s)
               ELSE 10 * DefToNat(SubSeq(s, 1, Len(s) - 1)) + IndexIn(Digit, Ch(s, Len(s)))
RECURSIVE DefFromNat(_)
DefFromNat(n) == IF n < 10 THEN Digit[n + 1] ELSE DefFromNat(n \div 10) \o Digit[(n % 10) + 1]

DefAdd(a, b, m) == DefFromNat((DefToNat(a) + DefToNat(b)) % DefToNat(m))
DefSub(a, b, m) == DefFromNat((DefToNat(a) - DefToNat(b)) % DefToNat(m))
DefMul(a, b, m) == DefFromNat((DefToNat(a) * DefToNat(b)) % DefToNat(m))
DefInv(a, m) == LET n == DefToNat(m) IN
                DefFromNat(CHOOSE x \in 0..(n - 1) : (x * DefToNat(a)) % n = 1 % n)
DefMod(a, m) == DefFromNat(DefToNat(a) % DefToNat(m))
DefDiv(a, m) == DefFromNat(DefToNat(a) \div DefToNat(m))
DefCmp(a, b) == IF DefToNat(a) < DefToNat(b) THEN -1 ELSE IF DefToNat(a) = DefToNat(b) THEN 0 ELSE 1

(* ------------------------------- operators ----------------------------- *)
Strict(x) == x                        \* evaluate a function now, not at every application
BNat(i) == DefFromNat(i)              \* TLC integer -> big natural
BInt(a) == DefToNat(a)                \* small big natural -> TLC integer
BAdd(a, b, m) == DefAdd(a, b, m)      \* (a + b) mod m
BSub(a, b, m) == DefSub(a, b, m)      \* (a - b) mod m
BMul(a, b, m) == DefMul(a, b, m)      \* (a * b) mod m
BInv(a, m) == DefInv(a, m)            \* a^-1 mod m ("0" when there is none)
RECURSIVE BPow(_, _, _)
BPow(a, e, m) == IF e = "0" THEN DefMod("1", m)
                 ELSE DefMul(a, BPow(a, DefFromNat(DefToNat(e) - 1), m), m)
BMod(a, m) == DefMod(a, m)            \* a mod m
BDiv(a, m) == DefDiv(a, m)            \* a div m
BSum(a, b) == DefFromNat(DefToNat(a) + DefToNat(b))
BProd(a, b) == DefFromNat(DefToNat(a) * DefToNat(b))
BCmp(a, b) == DefCmp(a, b)            \* -1, 0, 1

HLen(h) == Len(h) \div 2              \* length in bytes
HSub(h, i, j) == SubSeq(h, 2 * i + 1, 2 * j)      \* bytes i..j-1, counted from 0
HByte(h, i) == 16 * IndexIn(HexDigit, Ch(h, 2 * i + 1)) + IndexIn(HexDigit, Ch(h, 2 * i + 2))
RECURSIVE HRep(_, _)
HRep(h, n) == IF n = 0 THEN "" ELSE h \o HRep(h, n - 1)
RECURSIVE HRev(_)
HRev(h) == IF h = "" THEN "" ELSE HRev(HSub(h, 1, HLen(h))) \o HSub(h, 0, 1)
RECURSIVE BLe(_)                      \* little-endian byte string -> big natural
BLe(h) == IF h = "" THEN "0"
          ELSE DefFromNat(HByte(h, 0) + 256 * DefToNat(BLe(HSub(h, 1, HLen(h)))))
BBe(h) == BLe(HRev(h))
HexByte(n) == HexDigit[(n \div 16) + 1] \o HexDigit[(n % 16) + 1]
RECURSIVE HLe(_, _)                   \* big natural -> n little-endian bytes
HLe(a, n) == IF n = 0 THEN ""
             ELSE HexByte(DefToNat(a) % 256) \o HLe(DefFromNat(DefToNat(a) \div 256), n - 1)
HBe(a, n) == HRev(HLe(a, n))
HBits(h, i) == (HByte(h, i \div 8) \div (2 ^ (i % 8))) % 2     \* bit i, little-endian
RECURSIVE HXor(_, _)
HXor(a, b) == IF a = "" \/ b = "" THEN "" ELSE
   LET x == HByte(a, 0)  y == HByte(b, 0)
       bit(k) == ((x \div (2^k)) + (y \div (2^k))) % 2
   IN HexByte(bit(0) + 2*bit(1) + 4*bit(2) + 8*bit(3) + 16*bit(4) + 32*bit(5) + 64*bit(6) + 128*bit(7))
      \o HXor(HSub(a, 1, HLen(a)), HSub(b, 1, HLen(b)))

(* Standard primitives the specification takes as given (FIPS 180-4, RFC   *)
(* 2104/5869, SP 800-38D, BLAKE3).  TLC gets them from the Java platform   *)
(* and from a reference transcription of BLAKE3; there is no TLA+ body.    *)
Sha256(h) == CHOOSE x \in {} : TRUE
Sha512(h) == CHOOSE x \in {} : TRUE
HmacSha256(k, h) == CHOOSE x \in {} : TRUE
HmacSha512(k, h) == CHOOSE x \in {} : TRUE
AesGcmSeal(key, nonce, aad, pt) == CHOOSE x \in {} : TRUE   \* ciphertext || tag
Blake3Xof(key, input, off, n) == CHOOSE x \in {} : TRUE     \* key = "" : plain hash mode
=============================================================================
