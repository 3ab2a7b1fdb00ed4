----------------------------- MODULE Ed25519Test -----------------------------
(* The evaluated operators of Ed25519 are the defined ones, on samples that *)
(* include the identity, low-order and non-canonical encodings; and the     *)
(* definitions have the constants of RFC 8032.                              *)
EXTENDS Ed25519, TLC
VARIABLE done
Mult == { "0", "1", "2", "3", "7", "8", "340282366920938463463374607431768211507", L, BSub("0", "1", L) }
Torsion == { EdNull,
   "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "0000000000000000000000000000000000000000000000000000000000000000",
   "0000000000000000000000000000000000000000000000000000000000000080",
   "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
   "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a" }
Odds == { "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "0100000000000000000000000000000000000000000000000000000000000080",
   "0200000000000000000000000000000000000000000000000000000000000000",
   "0300000000000000000000000000000000000000000000000000000000000000",
   "f3ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
   "f4ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff" }
Pts == { DefMulH(s, EdBase) : s \in {"1", "2", "5", "340282366920938463463374607431768211507"} } \cup Torsion
ASSUME OnCurve(Dec(EdBase)) /\ YOf(EdBase) = FMul("4", FInv("5")) /\ ~Odd(Dec(EdBase)[1])
ASSUME FMul(SqrtM1, SqrtM1) = FSub("0", "1")
ASSUME D = FMul(FSub("0", "121665"), FInv("121666"))
ASSUME \A h \in Pts : OnCurve(Dec(h)) /\ Enc(Dec(h)) = h /\ EdNorm(h) = h /\ EdDecodes(h) /\ EdCanonical(h)
ASSUME \A h \in Pts, k \in Pts : EdAdd(h, k) = DefAdd2(h, k)
ASSUME \A h \in Pts : EdNeg(h) = DefNeg(h) /\ EdSmallOrder(h) = DefSmall(h)
ASSUME \A h \in Torsion : EdSmallOrder(h)
ASSUME \A s \in Mult, h \in {EdBase, EdMul("5", EdBase)} \cup Torsion : EdMul(s, h) = DefMulH(s, h)
ASSUME EdMul(L, EdBase) = EdNull
ASSUME \A h \in Odds : /\ EdDecodes(h) = DefDecodes(h) /\ EdCanonical(h) = DefCanonical(h)
                       /\ EdDecodes(h) => EdNorm(h) = DefNorm(h)
Init == done = FALSE
Next == UNCHANGED done
=============================================================================
