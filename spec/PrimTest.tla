------------------------------ MODULE PrimTest ------------------------------
(* The Java overrides agree with the TLA+ definitions of Prim wherever TLC  *)
(* can evaluate both, and with published test vectors elsewhere.            *)
EXTENDS Prim, TLC
VARIABLE done
N == 0..40
ASSUME \A a \in N : BNat(a) = DefFromNat(a) /\ BInt(DefFromNat(a)) = a
ASSUME \A a \in N, b \in N, m \in {1, 2, 7, 13, 40} :
   LET x == DefFromNat(a)  y == DefFromNat(b)  q == DefFromNat(m) IN
   /\ BAdd(x, y, q) = DefAdd(x, y, q)
   /\ BSub(x, y, q) = DefSub(x, y, q)
   /\ BMul(x, y, q) = DefMul(x, y, q)
   /\ BCmp(x, y) = DefCmp(x, y)
ASSUME \A a \in N, m \in {2, 7, 13} :
   LET x == DefFromNat(a)  q == DefFromNat(m) IN
   /\ BMod(x, q) = DefMod(x, q) /\ BDiv(x, q) = DefDiv(x, q)
   /\ a % m # 0 => BInv(x, q) = DefInv(x, q)
   /\ BPow(x, "3", q) = DefFromNat((a * a * a) % m)
ASSUME \A a \in {0, 1, 255, 256, 65535, 99999} :
   /\ BLe(HLe(DefFromNat(a), 4)) = DefFromNat(a) /\ BBe(HBe(DefFromNat(a), 3)) = DefFromNat(a)
   /\ HLe(DefFromNat(a), 3) = HexByte(a % 256) \o HexByte((a \div 256) % 256) \o HexByte((a \div 65536) % 256)
ASSUME HSub("00112233", 1, 3) = "1122" /\ HLen("00112233") = 4 /\ HByte("00f1", 1) = 241
ASSUME HXor("0ff0", "ffff") = "f00f" /\ HRev("0102ff") = "ff0201" /\ HRep("ab", 3) = "ababab"
ASSUME HBits("0180", 0) = 1 /\ HBits("0180", 15) = 1 /\ HBits("0180", 7) = 0
ASSUME Sha256("616263") = "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
ASSUME HSub(Sha512("616263"), 0, 8) = "ddaf35a193617aba"
ASSUME HmacSha256("4a656665", "7768617420646f2079612077616e7420666f72206e6f7468696e673f")
         = "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843"
ASSUME AesGcmSeal(HRep("00", 16), HRep("00", 12), "", HRep("00", 16))
         = "0388dace60b6a392f328c2b971b2fe78ab6e47d42cec13bdf53a67b21257bddf"
ASSUME Blake3Xof("", "", 0, 32) = "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262"
ASSUME Blake3Xof("", "616263", 0, 32) = "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85"
Init == done = FALSE
Next == UNCHANGED done
=============================================================================
