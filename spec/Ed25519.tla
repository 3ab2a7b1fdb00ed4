------------------------------- MODULE Ed25519 -------------------------------
(***************************************************************************)
(* The group of the twisted Edwards curve -x^2 + y^2 = 1 + d x^2 y^2 over  *)
(* GF(2^255 - 19) (RFC 8032, section 5.1), over big naturals of Prim.      *)
(* A group element is written as its canonical 32-byte encoding (hex).     *)
(* The Def* operators are the definitions; the operators without prefix    *)
(* are what the other modules use, and TLC evaluates them in Java          *)
(* (java/EdOverrides).  Ed25519Test.tla checks one against the other.      *)
(***************************************************************************)
EXTENDS Prim

P == "57896044618658097711785492504343953926634992332820282019728792003956564819949"
L == "7237005577332262213973186563042994240857116359379907606001950938285454250989"
D == "37095705934669439343138083508754565189542113879843219016388785533085940283555"
SqrtM1 == "19681161376707505956807079304988542015446066515923890162744021073123829784752"
PMinus2 == BSub("0", "2", P)
TwoTo255 == BProd(BSum(P, "19"), "1")

FAdd(a, b) == BAdd(a, b, P)
FSub(a, b) == BSub(a, b, P)
FMul(a, b) == BMul(a, b, P)
FInv(a) == BPow(a, PMinus2, P)

(* ------------------------------ affine points -------------------------- *)
OnCurve(p) == LET xx == FMul(p[1], p[1])  yy == FMul(p[2], p[2]) IN
              FSub(yy, xx) = FAdd("1", FMul(D, FMul(xx, yy)))
AffAdd(p, q) ==
  LET k == FMul(D, FMul(FMul(p[1], q[1]), FMul(p[2], q[2])))
  IN << FMul(FAdd(FMul(p[1], q[2]), FMul(p[2], q[1])), FInv(FAdd("1", k))),
        FMul(FAdd(FMul(p[2], q[2]), FMul(p[1], q[1])), FInv(FSub("1", k))) >>
AffNeg(p) == << FSub("0", p[1]), p[2] >>
AffNull == << "0", "1" >>

Odd(a) == BMod(a, "2") = "1"
Enc(p) == LET y == HLe(p[2], 32)
          IN IF Odd(p[1]) THEN HSub(y, 0, 31) \o HexByte(HByte(y, 31) + 128) ELSE y

(* RFC 8032 section 5.1.3 decoding, except that (as in the reference       *)
(* implementation "ref10") y is read modulo p and x = 0 with the sign bit  *)
(* set is accepted; whether an encoding is canonical is a separate matter. *)
SignBit(h) == HBits(h, 255)
YOf(h) == BMod(BMod(BLe(h), TwoTo255), P)
XX(h) == LET yy == FMul(YOf(h), YOf(h)) IN FMul(FSub(yy, "1"), FInv(FAdd(FMul(D, yy), "1")))
RootOf(a) == LET r == BPow(a, BDiv(BSum(P, "3"), "8"), P)
             IN IF FMul(r, r) = a THEN r
                ELSE IF FMul(r, r) = FSub("0", a) THEN FMul(r, SqrtM1) ELSE "none"
DefDecodes(h) == HLen(h) = 32 /\ RootOf(XX(h)) # "none"
Dec(h) == LET x == RootOf(XX(h))
          IN << IF Odd(x) = (SignBit(h) = 1) THEN x ELSE FSub("0", x), YOf(h) >>

DefAdd2(h, k) == Enc(AffAdd(Dec(h), Dec(k)))
DefNeg(h) == Enc(AffNeg(Dec(h)))
DefNorm(h) == Enc(Dec(h))
RECURSIVE DefMulA(_, _)
DefMulA(s, p) == IF s = "0" THEN AffNull
                 ELSE LET h == DefMulA(BDiv(s, "2"), p)  d == AffAdd(h, h)
                      IN IF Odd(s) THEN AffAdd(d, p) ELSE d
DefMulH(s, h) == Enc(DefMulA(s, Dec(h)))
DefCanonical(h) == HLen(h) = 32 /\ BCmp(BMod(BLe(h), TwoTo255), P) < 0
DefSmall(h) == DefMulA("8", Dec(h)) = AffNull

(* ------------------------------- operators ----------------------------- *)
EdBase == "5866666666666666666666666666666666666666666666666666666666666666"
EdNull == "0100000000000000000000000000000000000000000000000000000000000000"
EdDecodes(h) == DefDecodes(h)      \* h is (some) encoding of a curve point
EdNorm(h) == DefNorm(h)            \* canonical encoding of the point h encodes
EdAdd(h, k) == DefAdd2(h, k)
EdNeg(h) == DefNeg(h)
EdMul(s, h) == DefMulH(s, h)       \* s: big natural, not reduced
EdCanonical(h) == DefCanonical(h)  \* y < p (RFC 8032 5.1.3 step 1)
EdSmallOrder(h) == DefSmall(h)     \* 8h = 0
EdSub(h, k) == EdAdd(h, EdNeg(k))
EdInSubgroup(h) == EdMul(L, h) = EdNull
=============================================================================
