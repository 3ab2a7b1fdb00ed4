--------------------------------- MODULE Keys ---------------------------------
(***************************************************************************)
(* Key pairs (src/util/key), the key generator of Ed25519                  *)
(* (src/group/edwards25519/curve.rs) and the suites that offer them.       *)
(* The state: the private keys made so far from fresh randomness.          *)
(***************************************************************************)
EXTENDS Crypto, TLC

R(st, bad) == [st |-> st, bad |-> bad]
KeysInit(h) == [g |-> [grp |-> h.grp, q |-> h.q], seen |-> {}]
\* RFC 8032: a multiple of eight between 2^254 and 2^255
Clamp(d) == HexByte((HByte(d, 0) \div 8) * 8) \o HSub(d, 1, 31) \o HexByte((HByte(d, 31) % 64) + 64)
\* encodings are reduced; the lowest bits show by the key taking every element of small order to nothing
Keeps(ev) == Chk("cofactor", \A k \in 1..Len(ev.tor) : ev.tor[k] = EdNull)
Mod(st, b) == BMod(BLe(b), st.g.q)
OfSeed(seed) == LET d == Sha512(seed) IN [sec |-> Clamp(HSub(d, 0, 32)), pre |-> HSub(d, 32, 64)]

Public(st, ev) == Chk("public", ev.pub = GMul(st.g, BLe(ev.sec), GBase(st.g)))
Fresh(st, ev) == IF ev.fresh THEN Chk("fresh", ev.sec \notin st.seen) ELSE {}
(* gen: how the suite makes private keys; sec: the bytes of the private key *)
(*   suite   the suite of the library: clamped, of its own randomness       *)
(*   clamped the generator of the curve, from the stream given              *)
(*   fixed   the key the generator gives                                    *)
(*   none    no generator: a scalar picked with the stream given            *)
(*   refuses the generator fails; dry: so does the stream                   *)
Pair(st, ev) ==
  LET st2 == IF ev.out = "ok" /\ ev.fresh THEN [st EXCEPT !.seen = @ \cup {ev.sec}] ELSE st IN
  CASE ev.gen \in {"refuses", "dry"} -> R(st, Chk("refused", ev.out # "ok") \cup Chk("out", ev.gen = "refuses" => ev.out = "err"))
    [] ev.out # "ok" -> R(st, {"out"})
    [] ev.gen = "suite" -> R(st2, Public(st, ev) \cup Fresh(st, ev) \cup Keeps(ev))
    [] ev.gen = "clamped" -> R(st2, Public(st, ev) \cup Fresh(st, ev) \cup Chk("secret", BLe(ev.sec) = Mod(st, OfSeed(HSub(ev.stream, 0, 32)).sec)) \cup Keeps(ev))
    [] ev.gen = "fixed" -> R(st2, Public(st, ev) \cup Chk("secret", ev.sec = ev.want))
    [] ev.gen = "none" -> R(st2, Public(st, ev) \cup Fresh(st, ev)
                                \cup Chk("range", BCmp(BLe(ev.sec), st.g.q) < 0 /\ (st.g.grp = "ed" => BLe(ev.sec) # "0")) \cup Chk("again", ev.again = ev.sec))
\* a formatted key: of a given input, or of 32 bytes of a stream
Seeded(st, ev) ==
  IF ev.dry THEN R(st, Chk("refused", ev.out = "err"))
  ELSE IF ev.out # "ok" THEN R(st, {"out"})
  ELSE LET k == OfSeed(ev.seed)
       IN R(st, Chk("secret", BLe(ev.sec) = Mod(st, k.sec)) \cup Keeps(ev) \cup Chk("prefix", ev.pre = k.pre) \cup Chk("seed", ev.back = ev.seed))
\* however it is written and read back, a pair is the same
Wire(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("same", ev.sec2 = ev.sec /\ ev.pub2 = ev.pub /\ ev.eq))
Same(st, ev) == R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("equal", ev.eq = (ev.a = ev.b)))
\* what is printed of a pair
Show(st, ev) == R(st, IF ev.out # "ok" THEN {"out"} ELSE Chk("secret", ~ev.leaks) \cup Chk("public", ev.shows))
\* what a suite offers
Suite(st, ev) ==
  R(st, IF ev.out # "ok" THEN {"out"} ELSE
        Chk("hash", ev.hash = Sha256(ev.data)) \cup Chk("xof", ev.xof = Blake3Xof("", ev.key, 0, HLen(ev.xof)))
        \cup Chk("lengths", ev.sl = ScLen(st.g) /\ ev.pl = PtLen(st.g)) \cup Chk("name", ev.name = "Ed25519")
        \cup Chk("zero", BLe(ev.scalar) = "0") \cup Chk("streams", ev.s1 # ev.s2))

KeysStep(st, ev) ==
  CASE ev.op = "pair" -> Pair(st, ev)
    [] ev.op = "seeded" -> Seeded(st, ev)
    [] ev.op = "wire" -> Wire(st, ev)
    [] ev.op = "same" -> Same(st, ev)
    [] ev.op = "show" -> Show(st, ev)
    [] ev.op = "suite" -> Suite(st, ev)
=============================================================================
