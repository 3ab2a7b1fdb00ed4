-------------------------------- MODULE Curve --------------------------------
(***************************************************************************)
(* Points of Ed25519 (src/group/edwards25519/{point,ge,fe,ge_mult_vartime, *)
(* curve}.rs): a bank of registers over which the operations of the Point  *)
(* interface act.  A register holds an element of the curve group of       *)
(* Ed25519.tla, written as its canonical encoding; the code holds some     *)
(* representation of it, which must never show.                            *)
(*                                                                         *)
(* ev.d takes the result; whatever the receiver of the call held before    *)
(* (ev.r, 0: a fresh one) must not matter.                                 *)
(***************************************************************************)
EXTENDS Ed25519, FiniteSets, TLC

R(st, bad) == [st |-> st, bad |-> bad]
Chk(name, ok) == IF ok THEN {} ELSE {name}
NRegs == 8
CurveInit(h) == [r |-> [k \in 1..NRegs |-> EdNull]]
Reg(st, k) == st.r[k]
Put(st, d, v) == [st EXCEPT !.r[d] = v]
Into(st, ev, v) == IF ev.out # "ok" THEN R(st, {"out"}) ELSE R(Put(st, ev.d, v), Chk("value", ev.s = v))

(* ------------------------------- arithmetic ---------------------------- *)
Arith(st, ev) ==
  CASE ev.op = "null" -> Into(st, ev, EdNull)
    [] ev.op = "base" -> Into(st, ev, EdBase)
    [] ev.op = "set"  -> Into(st, ev, Reg(st, ev.a))
    [] ev.op = "add"  -> Into(st, ev, EdAdd(Reg(st, ev.a), Reg(st, ev.b)))
    [] ev.op = "sub"  -> Into(st, ev, EdSub(Reg(st, ev.a), Reg(st, ev.b)))
    [] ev.op = "neg"  -> Into(st, ev, EdNeg(Reg(st, ev.a)))
    [] ev.op = "mul"  -> Into(st, ev, EdMul(BLe(ev.k), IF ev.a = 0 THEN EdBase ELSE Reg(st, ev.a)))
    [] ev.op = "wire" -> Into(st, ev, Reg(st, ev.a))     \* any serialisation and back, a clone

(* -------------------------------- encoding ----------------------------- *)
Decode(st, ev) ==
  IF ~EdDecodes(ev.data) THEN R(st, Chk("out", ev.out = "err"))
  ELSE LET r == Into(st, ev, EdNorm(ev.data))
       IN R(r.st, r.bad \cup Chk("left", ev.out = "ok" /\ ev.op = "read" => ev.left = ev.rest))
Encode(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("data", ev.data = Reg(st, ev.a)) \cup Chk("written", ev.written = ev.data)
        \cup Chk("size", ev.size = 32) \cup Chk("id", ev.id = "65642e706f696e74"))
Hex(st, ev) ==
  LET h == Reg(st, ev.a) IN R(st, Chk("hex", ev.out = "ok" /\ ev.lo = h /\ ev.up = h /\ ev.case) \cup Chk("display", ev.out = "ok" /\ ev.disp = h))
\* a representation (X : Y : Z : T) off the wire: only points of the curve are let in
Raw(st, ev) ==
  LET good == /\ ev.z # "0"
              /\ FMul(ev.x, ev.y) = FMul(ev.z, ev.t)
              /\ FSub(FMul(ev.y, ev.y), FMul(ev.x, ev.x)) = FAdd(FMul(ev.z, ev.z), FMul(D, FMul(ev.t, ev.t)))
      v == Enc(<<FMul(ev.x, FInv(ev.z)), FMul(ev.y, FInv(ev.z))>>)
      \* what a point holds before it has a value: let in or not, it is none
      void == ev.x = "0" /\ ev.y = "0" /\ ev.z = "0" /\ ev.t = "0"
  IN IF void /\ ev.out \in {"ok", "err"} THEN R(st, {})
     ELSE IF ~good \/ ev.out = "err" THEN R(st, Chk("out", ev.out = "err")) ELSE Into(st, ev, v)

(* ---------------------------- what is seen of it ----------------------- *)
Order(st, ev) ==
  LET n == Len(ev.i)
      v == [k \in 1..n |-> Reg(st, ev.i[k])]
      c == ev.c
  IN R(st, Chk("equal", \A i, j \in 1..n : ev.e[i][j] = (v[i] = v[j]))
           \cup Chk("order", /\ \A i, j \in 1..n : (c[i][j] = 0) = (v[i] = v[j]) /\ c[i][j] = -c[j][i]
                             /\ \A i, j, k \in 1..n : c[i][j] < 0 /\ c[j][k] < 0 => c[i][k] < 0)
           \cup Chk("hash", \A i, j \in 1..n : v[i] = v[j] => ev.h[i] = ev.h[j]))
Small(st, ev) == R(st, Chk("small", ev.out = "ok" /\ ev.v = EdSmallOrder(Reg(st, ev.a))))
Canonical(st, ev) == R(st, Chk("canonical", ev.out = "ok" /\ ev.v = EdCanonical(ev.data)))
Meta(st, ev) == R(st, Chk("meta", ev.pl = 32 /\ ev.sl = 32 /\ ev.el = 29))

(* --------------------- random points, embedded data -------------------- *)
\* the same stream gives the same point, another one another
Pick(st, ev) ==
  IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R(Put(st, ev.d, ev.s),
         Chk("subgroup", EdDecodes(ev.s) /\ EdNorm(ev.s) = ev.s /\ EdInSubgroup(ev.s)) \cup Chk("null", ev.s # EdNull)
         \cup Chk("again", ev.again = ev.s) \cup Chk("other", ev.other # ev.s))
Embed(st, ev) ==
  LET n == IF HLen(ev.data) > 29 THEN 29 ELSE HLen(ev.data) IN
  IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R(Put(st, ev.d, ev.s),
         Chk("subgroup", EdDecodes(ev.s) /\ EdNorm(ev.s) = ev.s /\ EdInSubgroup(ev.s))
         \cup Chk("data", HByte(ev.s, 0) = n /\ HSub(ev.s, 1, 1 + n) = HSub(ev.data, 0, n))
         \cup Chk("again", ev.again = ev.s) \cup Chk("other", n <= 16 => ev.other # ev.s))
Data(st, ev) ==
  LET h == Reg(st, ev.a)  n == HByte(h, 0)
  IN R(st, IF n > 29 THEN Chk("out", ev.out = "err")
           ELSE IF ev.out # "ok" THEN {"out"} ELSE Chk("data", ev.v = HSub(h, 1, 1 + n)))

CurveStep(st, ev) ==
  CASE ev.op \in {"dec", "read"} -> Decode(st, ev)
    [] ev.op = "enc" -> Encode(st, ev)
    [] ev.op = "hex" -> Hex(st, ev)
    [] ev.op = "raw" -> Raw(st, ev)
    [] ev.op = "order" -> Order(st, ev)
    [] ev.op = "small" -> Small(st, ev)
    [] ev.op = "canonical" -> Canonical(st, ev)
    [] ev.op = "meta" -> Meta(st, ev)
    [] ev.op = "pick" -> Pick(st, ev)
    [] ev.op = "embed" -> Embed(st, ev)
    [] ev.op = "data" -> Data(st, ev)
    [] OTHER -> Arith(st, ev)
=============================================================================
