-------------------------------- MODULE Field --------------------------------
(***************************************************************************)
(* Scalars: the integers modulo q.  The library has several               *)
(* implementations (src/group/edwards25519/scalar*.rs,                     *)
(* src/group/integer_field); all of them are this machine: a bank of       *)
(* registers over which the operations of the Scalar interface act.        *)
(*                                                                         *)
(* kind "ed"   32-byte scalars of Ed25519 in any of their implementations; *)
(*             a register may hold a value not yet reduced (bytes are      *)
(*             taken as they are), arithmetic always reduces;              *)
(* kind "int"  integers modulo any q, with a byte order.                   *)
(*                                                                         *)
(* ev.d is the register that takes the result; ev.r the one whose value    *)
(* the call is made on and must not matter (0: a fresh one).               *)
(***************************************************************************)
EXTENDS Prim, FiniteSets, TLC

R(st, bad) == [st |-> st, bad |-> bad]
Chk(name, ok) == IF ok THEN {} ELSE {name}
NRegs == 8
FieldInit(h) == [kind |-> h.kind, strict |-> h.strict, q |-> h.q, size |-> h.size, bo |-> h.bo,
                 r |-> [k \in 1..NRegs |-> "0"]]
Ed(st) == st.kind = "ed"
Put(st, d, v) == [st EXCEPT !.r[d] = v]
Reg(st, k) == st.r[k]
Red(st, k) == BMod(st.r[k], st.q)
Signed(n, a, q) == IF n THEN BSub("0", BMod(a, q), q) ELSE BMod(a, q)
\* what is seen of a register
Seen(st, s, v) == Chk("value", s.v = v /\ ~s.neg) \cup Chk("modulus", s.m = st.q)
Into(st, ev, v) == IF ev.out # "ok" THEN R(st, {"out"}) ELSE R(Put(st, ev.d, v), Seen(st, ev.s, v))
Inverse(st, k) == BInv(Red(st, k), st.q)
Unit(st, k) == BMul(Inverse(st, k), Red(st, k), st.q) = BMod("1", st.q)
Bytes(st, ord, h) == IF ord = "le" THEN BLe(h) ELSE BBe(h)
ToBytes(ord, v, n) == IF ord = "le" THEN HLe(v, n) ELSE HBe(v, n)

RECURSIVE Jacobi(_, _)
Jacobi(a, n) ==
  IF n = "1" THEN 1 ELSE
  LET r == BMod(a, n) IN
  IF r = "0" THEN 0
  ELSE IF BMod(r, "2") = "0" THEN (IF BMod(n, "8") \in {"3", "5"} THEN -1 ELSE 1) * Jacobi(BDiv(r, "2"), n)
  ELSE (IF BMod(r, "4") = "3" /\ BMod(n, "4") = "3" THEN -1 ELSE 1) * Jacobi(n, r)

(* ------------------------------ arithmetic ----------------------------- *)
Arith(st, ev) ==
  LET q == st.q IN
  CASE ev.op = "zero" -> Into(st, ev, "0")
    [] ev.op = "one" -> Into(st, ev, "1")
    [] ev.op = "int64" -> Into(st, ev, Signed(ev.neg, ev.abs, q))
    [] ev.op = "uint64" -> Into(st, ev, BMod(ev.abs, q))
    [] ev.op = "new" -> Into(st, ev, Signed(ev.neg, ev.abs, q))
    [] ev.op = "set" -> Into(st, ev, Reg(st, ev.a))
    [] ev.op = "add" -> Into(st, ev, BAdd(Red(st, ev.a), Red(st, ev.b), q))
    [] ev.op = "sub" -> Into(st, ev, BSub(Red(st, ev.a), Red(st, ev.b), q))
    [] ev.op = "mul" -> Into(st, ev, BMul(Red(st, ev.a), Red(st, ev.b), q))
    [] ev.op = "muladd" -> Into(st, ev, BAdd(BMul(Red(st, ev.a), Red(st, ev.b), q), Red(st, ev.c), q))
    [] ev.op = "neg" -> Into(st, ev, BSub("0", Red(st, ev.a), q))
    [] ev.op = "inv" -> IF Unit(st, ev.a) THEN Into(st, ev, Inverse(st, ev.a)) ELSE R(st, {})
    [] ev.op = "div" -> IF Unit(st, ev.b) THEN Into(st, ev, BMul(Red(st, ev.a), Inverse(st, ev.b), q)) ELSE R(st, {})
    [] ev.op = "exp" -> IF ev.neg /\ ~Unit(st, ev.a) THEN R(st, {})
                        ELSE Into(st, ev, BPow(IF ev.neg THEN Inverse(st, ev.a) ELSE Red(st, ev.a), ev.abs, q))
    [] ev.op = "pick" -> IF ev.out # "ok" THEN R(st, {"out"})
                         ELSE R(Put(st, ev.d, ev.s.v), Seen(st, ev.s, ev.s.v)
                              \cup Chk("range", BCmp(ev.s.v, q) < 0 /\ ev.s.v # "0") \cup Chk("again", ev.again))
    [] ev.op = "string" -> IF ~ev.valid THEN R(st, Chk("out", ev.out = "err"))
                           ELSE Into(st, ev, BMul(Signed(ev.neg, ev.abs, q), BInv(BMod(ev.den, q), q), q))

(* ------------------------- square roots, symbols ----------------------- *)
Sqrt(st, ev) ==                       \* q an odd prime
  LET a == Red(st, ev.a)  e == BPow(a, BDiv(BSub(st.q, "1", BSum(st.q, "1")), "2"), st.q) IN
  IF a # "0" /\ e # "1" THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE R(Put(st, ev.d, ev.s.v), Seen(st, ev.s, ev.s.v) \cup Chk("root", BMul(ev.s.v, ev.s.v, st.q) = a)
                                \cup Chk("range", BCmp(ev.s.v, st.q) < 0))
Symbol(st, ev) == R(st, Chk("symbol", ev.out = "ok" /\ ev.v = Jacobi(Red(st, ev.a), st.q)))

(* ------------------------------ comparison ----------------------------- *)
\* asked of reduced values only: equality is equality, and the order is total
Order(st, ev) ==
  LET n == Len(ev.i)
      v == [k \in 1..n |-> Reg(st, ev.i[k])]
      c == ev.c
  IN R(st, Chk("equal", \A i, j \in 1..n : ev.e[i][j] = (v[i] = v[j]))
           \cup Chk("order", /\ \A i, j \in 1..n : (c[i][j] = 0) = (v[i] = v[j]) /\ c[i][j] = -c[j][i]
                             /\ \A i, j, k \in 1..n : c[i][j] < 0 /\ c[j][k] < 0 => c[i][k] < 0
                             /\ ~Ed(st) => \A i, j \in 1..n : c[i][j] = BCmp(v[i], v[j])))

(* -------------------------------- encoding ----------------------------- *)
FromBytes(st, ev) == Into(st, ev, BMod(Bytes(st, IF Ed(st) THEN "le" ELSE st.bo, ev.data), st.q))
\* writing gives exactly size bytes, reading takes exactly these
Marshal(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("data", ev.data = ToBytes(st.bo, IF st.strict THEN Reg(st, ev.a) ELSE Red(st, ev.a), st.size))
        \cup Chk("size", ev.size = st.size) \cup Chk("written", ev.written = ev.data)
        \cup Chk("id", ev.id = (IF Ed(st) THEN "65642e7363616c61" ELSE "6d6f642e696e7420")))
Unmarshal(st, ev) ==
  LET v == Bytes(st, st.bo, ev.data)
      good == HLen(ev.data) = st.size /\ (Ed(st) \/ BCmp(v, st.q) < 0)
  IN IF ~good THEN R(st, Chk("out", ev.out = "err") \cup Chk("kept", ev.s.v = Reg(st, ev.d)))
     ELSE Into(st, ev, v)
\* reading from a stream takes size bytes off it
Read(st, ev) ==
  LET h == IF HLen(ev.data) < st.size THEN "" ELSE HSub(ev.data, 0, st.size)
      v == Bytes(st, st.bo, h)
      good == h # "" /\ (Ed(st) \/ BCmp(v, st.q) < 0)
  IN IF ~good THEN R(st, Chk("out", ev.out = "err"))
     ELSE LET r == Into(st, ev, v) IN R(r.st, r.bad \cup Chk("left", ev.out = "ok" => ev.left = HLen(ev.data) - st.size))
\* any of the generic serialisations gives the same value back
Wire(st, ev) == Into(st, ev, Reg(st, ev.a))
Canonical(st, ev) ==
  R(st, Chk("canonical", ev.out = "ok" /\ ev.v = (HLen(ev.data) = 32 /\ BCmp(BLe(ev.data), st.q) < 0)))
RECURSIVE MinLen(_, _)
MinLen(v, n) == IF v = "0" THEN n ELSE MinLen(BDiv(v, "256"), n + 1)
NBytes(v) == IF v = "0" THEN 1 ELSE MinLen(v, 0)
Hex(st, ev) ==
  LET v == Reg(st, ev.a)
      h == IF Ed(st) THEN HLe(v, 32) ELSE HBe(v, NBytes(v))
  IN R(st, Chk("hex", ev.out = "ok" /\ ev.lo = h /\ ev.up = h /\ ev.case) \cup Chk("display", ev.out = "ok" /\ ev.disp = h))
\* at least min bytes, an error beyond max
Sized(st, ev) ==
  LET v == Reg(st, ev.a)
      full == IF ev.op = "le" THEN NBytes(v) ELSE st.size
      n == IF ev.min > full THEN ev.min ELSE full
      good == ev.max = 0 \/ n <= ev.max
  IN R(st, IF ~good THEN Chk("out", ev.out = "err")
           ELSE IF ev.out # "ok" THEN {"out"} ELSE Chk("data", ev.data = ToBytes(ev.op, v, n)))
Native(st, ev) == R(st, Chk("native", ev.out = "ok" /\ ev.u = Reg(st, ev.a) /\ ev.nz = (Reg(st, ev.a) # "0")))

FieldStep(st, ev) ==
  CASE ev.op = "sqrt" -> Sqrt(st, ev)
    [] ev.op = "jacobi" -> Symbol(st, ev)
    [] ev.op = "order" -> Order(st, ev)
    [] ev.op = "setbytes" -> FromBytes(st, ev)
    [] ev.op = "marshal" -> Marshal(st, ev)
    [] ev.op = "unmarshal" -> Unmarshal(st, ev)
    [] ev.op = "read" -> Read(st, ev)
    [] ev.op = "wire" -> Wire(st, ev)
    [] ev.op = "canonical" -> Canonical(st, ev)
    [] ev.op = "hex" -> Hex(st, ev)
    [] ev.op \in {"le", "be"} -> Sized(st, ev)
    [] ev.op = "native" -> Native(st, ev)
    [] OTHER -> Arith(st, ev)
=============================================================================
