----------------------------- MODULE ShamirModel -----------------------------
(* The laws that make the operators of Poly a secret sharing, for every      *)
(* polynomial over a small field and every list of its shares.  The lists    *)
(* grow one entry at a time, in any order, with repetitions and absent       *)
(* entries (index -1).                                                       *)
EXTENDS Poly
CONSTANTS Q, T, NS, Most           \* field, threshold, shareholders, length of the lists
VARIABLES f, list
G == [grp |-> "toy", q |-> BNat(Q)]
Field == { BNat(k) : k \in 0..(Q - 1) }
Polys(t) == [1..t -> Field]
Entry(i) == [i |-> i, v |-> IF i = -1 THEN "0" ELSE EvalAt(G, f, X(i))]
Init == f \in Polys(T) /\ list = <<>>
Next == Len(list) < Most /\ UNCHANGED f /\ \E i \in -1..(NS - 1) : list' = Append(list, Entry(i))
Spec == Init /\ [][Next]_<<f, list>>

Bases == { BNat(1), BNat(Q - 2) }
Figures(b) == Strict([k \in 1..Len(list) |-> [i |-> list[k].i, v |-> GMul(G, list[k].v, b)]])
\* enough shares: the polynomial itself, and in the exponent its commitments
Recovers == Enough(list, T) =>
  /\ InterpPri(G, list, T) = f
  /\ \A b \in Bases : InterpPub(G, Figures(b), T) = CommitTo(G, f, b)
\* fewer: every secret is as likely as any other
Agrees(h) == \A k \in 1..Len(list) : list[k].i = -1 \/ EvalAt(G, h, X(list[k].i)) = list[k].v
Worlds(s) == Cardinality({ h \in Polys(T) : h[1] = s /\ Agrees(h) })
Ascending == \A k \in 1..(Len(list) - 1) : list[k].i < list[k + 1].i
Hides == (Ascending /\ ~Enough(list, T)) => \A s \in Field : Worlds(s) = Worlds(f[1]) /\ Worlds(s) > 0
\* operations on polynomials are operations on values, in the open and in the exponent
Commutes == list = <<>> =>
  \A i \in 0..(NS - 1) :
    LET x == X(i)  y == EvalAt(G, f, x) IN
    /\ \A b \in Bases : EvalPubAt(G, CommitTo(G, f, b), x) = GMul(G, y, b)
    /\ \A h \in Polys(T) :
         LET z == EvalAt(G, h, x) IN
         /\ EvalAt(G, PAdd(G, f, h), x) = SAdd(G, y, z)
         /\ EvalAt(G, PMul(G, f, h), x) = SMul(G, y, z)
         /\ CommitTo(G, PAdd(G, f, h), BNat(1)) = PubAdd(G, CommitTo(G, f, BNat(1)), CommitTo(G, h, BNat(1)))
\* a figure is on the commitments exactly when it is the share's
Binding == \A k \in 1..Len(list) : list[k].i = -1 \/
  \A v \in Field : (GMul(G, v, BNat(1)) = EvalPubAt(G, CommitTo(G, f, BNat(1)), X(list[k].i))) = (v = list[k].v)
Inv == Recovers /\ Hides /\ Commutes /\ Binding
=============================================================================
