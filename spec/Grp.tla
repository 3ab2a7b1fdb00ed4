---------------------------------- MODULE Grp ----------------------------------
(* The two groups the code is run on: the prime-order subgroup of Ed25519, and *)
(* the "toy" group Z_q in which the element x*G is written x.                   *)
EXTENDS Ed25519, FiniteSets
\* g is a record [grp |-> "toy" | "ed", q |-> order]
SAdd(g, a, b) == BAdd(a, b, g.q)
SSub(g, a, b) == BSub(a, b, g.q)
SMul(g, a, b) == BMul(a, b, g.q)
SInv(g, a) == BInv(a, g.q)
SNeg(g, a) == BSub("0", a, g.q)
GBase(g) == IF g.grp = "toy" THEN BMod("1", g.q) ELSE EdBase
GNull(g) == IF g.grp = "toy" THEN "0" ELSE EdNull
GAdd(g, a, b) == IF g.grp = "toy" THEN BAdd(a, b, g.q) ELSE EdAdd(a, b)
GSub(g, a, b) == IF g.grp = "toy" THEN BSub(a, b, g.q) ELSE EdSub(a, b)
GMul(g, s, a) == IF g.grp = "toy" THEN BMul(s, a, g.q) ELSE EdMul(s, a)
\* scalar and point encodings: little-endian, 8 bytes (toy) or 32 bytes
SEnc(g, s) == IF g.grp = "toy" THEN HLe(s, 8) ELSE HLe(s, 32)
GEnc(g, a) == IF g.grp = "toy" THEN HLe(a, 8) ELSE a

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Range(s) == { s[k] : k \in 1..Len(s) }
Chk(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
