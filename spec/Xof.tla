--------------------------------- MODULE Xof ---------------------------------
(***************************************************************************)
(* The extendable output function of a suite (src/xof): a machine that     *)
(* first absorbs (writable) and, from the first byte read on, squeezes     *)
(* (readable), until it is reseeded from its own output.                   *)
(*   [w |-> TRUE,  in |-> bytes absorbed, pos |-> 0]                       *)
(*   [w |-> FALSE, in |-> bytes absorbed, pos |-> bytes squeezed]          *)
(***************************************************************************)
EXTENDS Prim, FiniteSets, TLC

XofNew(seed) == [w |-> TRUE, in |-> seed, pos |-> 0]
XofWrite(x, b) == [x EXCEPT !.in = @ \o b]
XofOut(x, n) == IF n = 0 THEN "" ELSE Blake3Xof("", x.in, x.pos, n)
XofRead(x, n) == [w |-> FALSE, in |-> x.in, pos |-> x.pos + n]
XofReseed(x) == XofNew(XofOut(x, 128))

(* --------------------------- recorded executions ------------------------ *)
R(st, bad) == [st |-> st, bad |-> bad]
Chk(name, ok) == IF ok THEN {} ELSE {name}
NXof == 3
XInit(h) == [k \in 1..NXof |-> XofNew("")]
Bytes(n, v) == HRep(HexByte(v), n)

\* n bytes asked for: all of them come
Read(st, ev) ==
  LET x == st[ev.x] IN
  R([st EXCEPT ![ev.x] = XofRead(x, ev.n)],
    IF ev.out # "ok" THEN {"out"} ELSE Chk("data", ev.v = XofOut(x, ev.n)))
\* the destination may be longer than the source: the rest stays as it was
Xor(st, ev) ==
  LET x == st[ev.x]  n == HLen(ev.src) IN
  IF HLen(ev.before) < n THEN R(st, Chk("out", ev.out # "ok") \cup Chk("rest", ev.v = ev.before))
  ELSE R([st EXCEPT ![ev.x] = XofRead(x, n)],
         IF ev.out # "ok" THEN {"out"} ELSE
         Chk("data", HSub(ev.v, 0, n) = HXor(ev.src, XofOut(x, n)))
         \cup Chk("rest", HSub(ev.v, n, HLen(ev.v)) = HSub(ev.before, n, HLen(ev.before))))
Write(st, ev) ==
  LET x == st[ev.x] IN
  IF x.w THEN R([st EXCEPT ![ev.x] = XofWrite(x, ev.data)], Chk("out", ev.out = "ok") \cup Chk("count", ev.out = "ok" => ev.n = HLen(ev.data)))
  ELSE R(st, Chk("refused", ev.out = "err"))
XofStep(st, ev) ==
  CASE ev.op = "new" -> R([st EXCEPT ![ev.x] = XofNew(ev.seed)], Chk("out", ev.out = "ok"))
    [] ev.op = "read" -> Read(st, ev)
    [] ev.op = "xor" -> Xor(st, ev)
    [] ev.op = "write" -> Write(st, ev)
    [] ev.op = "flush" -> R(st, Chk("out", ev.out = "ok"))
    [] ev.op = "reseed" -> R([st EXCEPT ![ev.x] = XofReseed(@)], Chk("out", ev.out = "ok"))
    [] ev.op = "clone" -> R([st EXCEPT ![ev.x] = st[ev.from]], Chk("out", ev.out = "ok"))
=============================================================================
