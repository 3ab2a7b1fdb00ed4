--------------------------------- MODULE Poly ---------------------------------
(***************************************************************************)
(* Shamir secret sharing and polynomial commitments (src/share/poly.rs).   *)
(*                                                                         *)
(* The state is a bank of registers holding secret polynomials (sequences  *)
(* of coefficients) and public polynomials (base and commitments).  Every  *)
(* public operation of the module is an action.                            *)
(***************************************************************************)
EXTENDS Grp, TLC

NReg == 6
X(i) == BNat(i + 1)                         \* share i lives at abscissa i + 1

(* --------------------------- polynomials over Z_q ---------------------- *)
RECURSIVE EvalAt(_, _, _)
EvalAt(g, c, x) == IF c = <<>> THEN "0"
                   ELSE SAdd(g, Head(c), SMul(g, x, EvalAt(g, Tail(c), x)))
RECURSIVE EvalPubAt(_, _, _)
EvalPubAt(g, c, x) == IF c = <<>> THEN GNull(g)
                      ELSE GAdd(g, Head(c), GMul(g, x, EvalPubAt(g, Tail(c), x)))
PAdd(g, a, b) == Strict([k \in 1..Len(a) |-> SAdd(g, a[k], b[k])])
PScale(g, s, a) == Strict([k \in 1..Len(a) |-> SMul(g, s, a[k])])
Coef(a, k) == IF k \in 1..Len(a) THEN a[k] ELSE "0"
RECURSIVE Conv(_, _, _, _, _)
Conv(g, a, b, k, i) == IF i > k THEN "0"
                       ELSE SAdd(g, SMul(g, Coef(a, i), Coef(b, k + 1 - i)), Conv(g, a, b, k, i + 1))
PMul(g, a, b) == Strict([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(g, a, b, k, 1)])
CommitTo(g, a, base) == Strict([k \in 1..Len(a) |-> GMul(g, a[k], base)])
BaseOf(g, b) == IF b = "none" THEN GBase(g) ELSE b

(* ------------------------------- share lists --------------------------- *)
\* A share list is a sequence of [i, v]; i = -1 stands for an absent entry.
Present(sh) == { sh[k].i : k \in 1..Len(sh) } \ {-1}
Smallest(S, t) == CHOOSE T \in SUBSET S : Cardinality(T) = t /\ \A a \in T, b \in S \ T : a < b
\* the t smallest indices present: what an interpolation of degree t - 1 uses
RECURSIVE SmallestN(_, _)
SmallestN(S, t) == IF t = 0 \/ S = {} THEN {} ELSE
                   LET m == CHOOSE a \in S : \A b \in S : a <= b IN {m} \cup SmallestN(S \ {m}, t - 1)
ValueAt(sh, i) == sh[CHOOSE k \in 1..Len(sh) : sh[k].i = i].v
Enough(sh, t) == Cardinality(Present(sh)) >= t

RECURSIVE SetToSeqAsc(_)
SetToSeqAsc(S) == IF S = {} THEN <<>> ELSE
                  LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o SetToSeqAsc(S \ {m})

(* Lagrange: the coefficients of the basis polynomial of abscissa X(i).    *)
RECURSIVE BasisAt(_, _, _)
BasisAt(g, x, others) ==
  IF others = <<>> THEN << "1" >>
  ELSE LET xm == Head(others)
           den == SInv(g, SSub(g, x, xm))
       IN PMul(g, BasisAt(g, x, Tail(others)), << SMul(g, SNeg(g, xm), den), den >>)
Basis(g, i, others) == BasisAt(g, X(i), Strict([k \in 1..Len(others) |-> X(others[k])]))
RECURSIVE SumPri(_, _, _)
SumPri(g, ps, k) == IF k = 0 THEN << "0" >> ELSE IF k = 1 THEN ps[1] ELSE PAdd(g, SumPri(g, ps, k - 1), ps[k])
InterpPri(g, sh, t) ==
  LET I == SetToSeqAsc(SmallestN(Present(sh), t))
      ps == Strict([k \in 1..Len(I) |-> PScale(g, ValueAt(sh, I[k]), Basis(g, I[k], SelectSeq(I, LAMBDA j : j # I[k])))])
  IN SumPri(g, ps, Len(ps))
PubAdd(g, a, b) == Strict([k \in 1..Len(a) |-> GAdd(g, a[k], b[k])])
RECURSIVE SumPub(_, _, _)
SumPub(g, ps, k) == IF k = 0 THEN << GNull(g) >> ELSE IF k = 1 THEN ps[1] ELSE PubAdd(g, SumPub(g, ps, k - 1), ps[k])
InterpPub(g, sh, t) ==
  LET I == SetToSeqAsc(SmallestN(Present(sh), t))
      ps == Strict([k \in 1..Len(I) |-> CommitTo(g, Basis(g, I[k], SelectSeq(I, LAMBDA j : j # I[k])), ValueAt(sh, I[k]))])
  IN SumPub(g, ps, Len(ps))

(* ------------------------------ state machine -------------------------- *)
PolyInit(h) == [ g |-> [grp |-> h.grp, q |-> h.q],
                 pri |-> [r \in 1..NReg |-> <<>>],
                 pub |-> [r \in 1..NReg |-> [b |-> "none", c |-> <<>>]] ]

SetPri(st, r, c) == [st EXCEPT !.pri[r] = c]
SetPub(st, r, b, c) == [st EXCEPT !.pub[r] = [b |-> b, c |-> c]]
Same(st) == st
R(st, bad) == [st |-> st, bad |-> bad]
\* the call must have succeeded (st1 is then the next state), with nothing in bad
Ok(st0, st1, ev, bad) == IF ev.out = "ok" THEN R(st1, bad) ELSE R(st0, {"out"})
Ob(st, ev, bad) == Ok(st, st, ev, bad)              \* an observer: no state change

\* a fresh polynomial: the requested number of coefficients; constant term as requested
NewPri(st, ev) ==
  R(IF ev.out = "ok" THEN SetPri(st, ev.r, ev.c) ELSE st,
    IF ev.out # "ok" THEN {"out"} ELSE
    Chk("threshold", Len(ev.c) = ev.t) \cup
    Chk("secret", ev.c[1] = IF ev.secret = "none" THEN ev.c[1] ELSE ev.secret) \cup
    Chk("secretfn", ev.sec = ev.c[1]) \cup
    Chk("range", \A k \in 1..Len(ev.c) : BCmp(ev.c[k], st.g.q) < 0))
AddPri(st, ev) ==
  LET a == st.pri[ev.a]  b == st.pri[ev.a2] IN
  IF Len(a) # Len(b) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ok(st, SetPri(st, ev.r, PAdd(st.g, a, b)), ev, Chk("c", ev.c = PAdd(st.g, a, b)))
MulPri(st, ev) ==
  LET p == PMul(st.g, st.pri[ev.a], st.pri[ev.a2])
  IN Ok(st, SetPri(st, ev.r, p), ev, Chk("c", ev.c = p))
EqPri(st, ev) == Ob(st, ev, Chk("eq", ev.eq = (st.pri[ev.a] = st.pri[ev.a2])))
EvalPri(st, ev) == Ob(st, ev, Chk("v", ev.v = EvalAt(st.g, st.pri[ev.a], X(ev.i))) \cup Chk("i", ev.si = ev.i))
SharesPri(st, ev) ==
  Ob(st, ev, Chk("list", ev.sh = [k \in 1..ev.n |-> [i |-> k - 1, v |-> EvalAt(st.g, st.pri[ev.a], X(k - 1))]]))
Commit(st, ev) ==
  LET c == CommitTo(st.g, st.pri[ev.a], BaseOf(st.g, ev.base))
  IN Ok(st, SetPub(st, ev.r, ev.base, c), ev, Chk("c", ev.c = c) \cup Chk("b", ev.b = ev.base)
        \cup Chk("commit", ev.com = c[1]) \cup Chk("threshold", ev.t = Len(c)))
AddPub(st, ev) ==
  LET a == st.pub[ev.a]  b == st.pub[ev.a2] IN
  IF Len(a.c) # Len(b.c) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ok(st, SetPub(st, ev.r, a.b, PubAdd(st.g, a.c, b.c)), ev,
          Chk("c", ev.c = PubAdd(st.g, a.c, b.c)) \cup Chk("b", ev.b = a.b))
EqPub(st, ev) == Ob(st, ev, Chk("eq", ev.eq = (st.pub[ev.a].c = st.pub[ev.a2].c)))
EvalPub(st, ev) == Ob(st, ev, Chk("v", ev.v = EvalPubAt(st.g, st.pub[ev.a].c, X(ev.i))) \cup Chk("i", ev.si = ev.i))
SharesPub(st, ev) ==
  Ob(st, ev, Chk("list", ev.sh = [k \in 1..ev.n |-> [i |-> k - 1, v |-> EvalPubAt(st.g, st.pub[ev.a].c, X(k - 1))]]))
\* a share passes the check exactly when it is the committed value at its index
CheckShare(st, ev) ==
  LET p == st.pub[ev.a]
  IN Ob(st, ev, Chk("ok", ev.ok = (GMul(st.g, ev.v, BaseOf(st.g, p.b)) = EvalPubAt(st.g, p.c, X(ev.i)))))
RecSecret(st, ev) ==
  IF ~Enough(ev.sh, ev.t) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ob(st, ev, Chk("v", ev.v = InterpPri(st.g, ev.sh, ev.t)[1]))
RecPri(st, ev) ==
  IF ~Enough(ev.sh, ev.t) THEN R(st, Chk("out", ev.out = "err"))
  ELSE LET p == InterpPri(st.g, ev.sh, ev.t)
       IN Ok(st, SetPri(st, ev.r, p), ev, Chk("c", ev.c = p))
RecCommit(st, ev) ==
  IF ~Enough(ev.sh, ev.t) THEN R(st, Chk("out", ev.out = "err"))
  ELSE Ob(st, ev, Chk("v", ev.v = InterpPub(st.g, ev.sh, ev.t)[1]))
RecPub(st, ev) ==
  IF ~Enough(ev.sh, ev.t) THEN R(st, Chk("out", ev.out = "err"))
  ELSE LET p == InterpPub(st.g, ev.sh, ev.t)
       IN Ok(st, SetPub(st, ev.r, "none", p), ev, Chk("c", ev.c = p) \cup Chk("b", ev.b = "none"))

(* ------------------------------- far indices --------------------------- *)
\* An index is a machine word: what holds of the first ones holds of those far beyond any group
\* of people too.  They come as abscissas (index + 1), which TLC's integers would not hold.
FarPri(st, ev) == Ob(st, ev, Chk("v", ev.v = EvalAt(st.g, st.pri[ev.a], ev.x)) \cup Chk("i", ev.sx = ev.x))
FarPub(st, ev) == Ob(st, ev, Chk("v", ev.v = EvalPubAt(st.g, st.pub[ev.a].c, ev.x)) \cup Chk("i", ev.sx = ev.x))
FarCheck(st, ev) ==
  LET p == st.pub[ev.a]
  IN Ob(st, ev, Chk("ok", ev.ok = (GMul(st.g, ev.v, BaseOf(st.g, p.b)) = EvalPubAt(st.g, p.c, ev.x))))
FarBasis(g, xs, k) == BasisAt(g, xs[k], SelectSeq(xs, LAMBDA x : x # xs[k]))
\* exactly as many shares as the threshold, at distinct abscissas
FarRecPri(st, ev) ==
  LET ps == Strict([k \in 1..Len(ev.xs) |-> PScale(st.g, ev.vs[k], FarBasis(st.g, ev.xs, k))])
      p == SumPri(st.g, ps, Len(ps))
  IN Ob(st, ev, Chk("v", ev.v = p[1]) \cup Chk("c", ev.c = p))
FarRecPub(st, ev) ==
  LET ps == Strict([k \in 1..Len(ev.xs) |-> CommitTo(st.g, FarBasis(st.g, ev.xs, k), ev.vs[k])])
      p == SumPub(st.g, ps, Len(ps))
  IN Ob(st, ev, Chk("v", ev.v = p[1]) \cup Chk("c", ev.c = p))

\* the hash of a public share is that of its value and its index
HashPub(st, ev) == R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("hash", ev.h = Sha256(GEnc(st.g, ev.v) \o ev.i)))

(* ------------------------ storage and printing -------------------------- *)
\* Anything written out and read back in, a restart in between or a transport, is what it was:
\* the step changes nothing, and the execution goes on with what was read.  What was cut short is
\* refused; what was spoilt must not bring the reader down.
\* What is printed, for debugging or display, gives none of the secrets it is about away.
StoreOps == {"stored", "cut", "garbled", "show"}
StoreStep(st, ev) ==
  R(st, CASE ev.op = "stored" -> IF ev.out # "ok" THEN {"out"} ELSE Chk("same", ev.same)
          [] ev.op = "cut" -> Chk("out", ev.out = "err")
          [] ev.op = "garbled" -> Chk("out", ev.out # "panic")
          [] ev.op = "show" -> IF ev.out # "ok" THEN {"out"} ELSE Chk("leaks", ~ev.leaks))

PolyStep(st, ev) ==
  CASE ev.op = "newpri" -> NewPri(st, ev)
    [] ev.op = "addpri" -> AddPri(st, ev)
    [] ev.op = "mulpri" -> MulPri(st, ev)
    [] ev.op = "eqpri" -> EqPri(st, ev)
    [] ev.op = "evalpri" -> EvalPri(st, ev)
    [] ev.op = "sharespri" -> SharesPri(st, ev)
    [] ev.op = "commit" -> Commit(st, ev)
    [] ev.op = "addpub" -> AddPub(st, ev)
    [] ev.op = "eqpub" -> EqPub(st, ev)
    [] ev.op = "evalpub" -> EvalPub(st, ev)
    [] ev.op = "farpri" -> FarPri(st, ev)
    [] ev.op = "farpub" -> FarPub(st, ev)
    [] ev.op = "farcheck" -> FarCheck(st, ev)
    [] ev.op = "recfarpri" -> FarRecPri(st, ev)
    [] ev.op = "recfarpub" -> FarRecPub(st, ev)
    [] ev.op = "hashpub" -> HashPub(st, ev)
    [] ev.op = "sharespub" -> SharesPub(st, ev)
    [] ev.op = "check" -> CheckShare(st, ev)
    [] ev.op = "recsecret" -> RecSecret(st, ev)
    [] ev.op = "recpri" -> RecPri(st, ev)
    [] ev.op = "reccommit" -> RecCommit(st, ev)
    [] ev.op = "recpub" -> RecPub(st, ev)
    [] ev.op \in StoreOps -> StoreStep(st, ev)
=============================================================================
