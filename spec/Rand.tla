--------------------------------- MODULE Rand ---------------------------------
(***************************************************************************)
(* Randomness (src/util/random): numbers and bytes drawn from a stream,    *)
(* and the stream that mixes several sources.                              *)
(*                                                                         *)
(* The state is the sources of the mixing stream: what each will give on   *)
(* its next 32-byte reads, "" where it fails; src[k] is a sequence.        *)
(***************************************************************************)
EXTENDS Prim, FiniteSets, TLC

R(st, bad) == [st |-> st, bad |-> bad]
Chk(name, ok) == IF ok THEN {} ELSE {name}
RandInit(h) == [src |-> h.src]

RECURSIVE BPow2(_)
BPow2(n) == IF n = 0 THEN "1" ELSE IF n % 2 = 1 THEN BProd("2", BPow2(n - 1)) ELSE LET h == BPow2(n \div 2) IN BProd(h, h)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
Draw(st) == Cat(Strict([k \in 1..Len(st.src) |-> IF st.src[k] = <<>> THEN "" ELSE Head(st.src[k])]))
After(st) == [st EXCEPT !.src = Strict([k \in 1..Len(st.src) |-> IF st.src[k] = <<>> THEN <<>> ELSE Tail(st.src[k])])]

\* the key stream of one call is that of the XOF seeded with the hash of what the sources give;
\* some of them may fail, but not all
Xor(st, ev) ==
  LET n == HLen(ev.src) IN
  IF HLen(ev.before) # n THEN R(st, Chk("out", ev.out = "err"))
  ELSE IF Draw(st) = "" THEN R(After(st), Chk("refused", ev.out # "ok"))
  ELSE R(After(st), IF ev.out # "ok" THEN {"out"} ELSE
         Chk("data", ev.v = HXor(ev.src, IF n = 0 THEN "" ELSE Blake3Xof("", Sha256(Draw(st)), 0, n))))
Two(st, ev) ==   \* the default source: no two alike
  R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("fresh", Cardinality({ev.v[k] : k \in 1..Len(ev.v)}) = Len(ev.v)))

(* ------------------------- numbers from a stream ------------------------ *)
\* a number of the given length in bits, big-endian, all lengths' bits used
Bits(st, ev) ==
  LET v == BBe(ev.v)  n == (ev.bits + 7) \div 8 IN
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("length", HLen(ev.v) = n) \cup Chk("range", BCmp(v, BPow2(ev.bits)) < 0)
        \cup Chk("exact", ev.exact /\ ev.bits > 0 => BCmp(v, BPow2(ev.bits - 1)) >= 0)
        \cup Chk("again", ev.again = ev.v))
\* over all streams (of so many bytes) every number comes up equally often
Uniform(st, ev) ==
  R(st, Chk("uniform", /\ ev.out = "ok" /\ ev.outside = 0
                       /\ \E c \in 1..ev.total : \A k \in (ev.lo + 1)..(ev.hi + 1) : ev.counts[k] = c))
Number(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("range", ~ev.neg /\ BCmp(ev.v, ev.m) < 0 /\ ev.v # "0") \cup Chk("again", ev.again = ev.v) \cup Chk("other", BCmp(ev.m, BPow2(64)) > 0 => ev.other # ev.v))
Failing(st, ev) == R(st, Chk("refused", ev.out # "ok"))
\* filling a slice takes what the stream gives
Fill(st, ev) == R(st, IF ev.fails THEN Chk("refused", ev.out = "err") ELSE IF ev.out # "ok" THEN {"out"} ELSE Chk("data", ev.v = ev.stream))

RandStep(st, ev) ==
  CASE ev.op = "mix" -> Xor(st, ev)
    [] ev.op = "fresh" -> Two(st, ev)
    [] ev.op = "bits" -> Bits(st, ev)
    [] ev.op = "uniform" -> Uniform(st, ev)
    [] ev.op = "int" -> Number(st, ev)
    [] ev.op = "failing" -> Failing(st, ev)
    [] ev.op = "fill" -> Fill(st, ev)
=============================================================================
