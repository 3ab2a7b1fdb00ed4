----------------------------- MODULE ReshareModel -----------------------------
(* What the rule for the final key (KeyFrom in DkgPed) achieves, for every    *)
(* polynomial over a small field: the sum of sharings is a sharing of the     *)
(* sum; sharing out shares anew keeps the secret, whichever (enough) holders  *)
(* do it; adding a sharing of zero keeps the secret.                          *)
EXTENDS DkgPed
CONSTANTS Q, T, Old, T2, New, Mode          \* Mode: "sum", "reshare", "renew"
VARIABLES f, who, g                        \* the old polynomial, who deals, their polynomials
G == [grp |-> "toy", q |-> BNat(Q)]
Field == { BNat(k) : k \in 0..(Q - 1) }
B1 == BNat(1)
Polys(t, c) == { <<c>> \o h : h \in [1..(t - 1) -> Field] }
RECURSIVE Dealt(_)
\* all ways for the dealers of the list to deal
Dealt(ds) ==
  IF ds = <<>> THEN { <<>> }
  ELSE LET c == EvalAt(G, f, X(Head(ds)))
           mine == IF Mode = "reshare" THEN Polys(T2, c)
                   ELSE IF Mode = "renew" THEN Polys(T2, "0")
                   ELSE [1..T2 -> Field]
       IN { <<h>> \o r : h \in mine, r \in Dealt(Tail(ds)) }
Init == /\ f \in IF Mode = "sum" THEN { <<"0">> } ELSE [1..T -> Field]
        /\ who \in { SetToSeqAsc(S) : S \in { S \in SUBSET (0..(Old - 1)) : Cardinality(S) >= IF Mode = "reshare" THEN T ELSE 1 } }
        /\ g = <<>>
Next == g = <<>> /\ g' \in Dealt(who) /\ UNCHANGED <<f, who>>
Spec == Init /\ [][Next]_<<f, who, g>>

Pos(d) == CHOOSE k \in 1..Len(who) : who[k] = d
KeyAt(j) ==
  LET deal(d) == [c |-> CommitTo(G, g[Pos(d)], B1), v |-> EvalAt(G, g[Pos(d)], X(j))]
  IN KeyFrom(G, Mode = "reshare", who, deal, T2, T)
RECURSIVE SumSecrets(_)
SumSecrets(hs) == IF hs = <<>> THEN "0" ELSE SAdd(G, Head(hs)[1], SumSecrets(Tail(hs)))
Secret == IF Mode = "sum" THEN SumSecrets(g) ELSE f[1]
\* the share of node j and the commitments it goes with; in a renewal, added to what was there
Share(j) == IF Mode = "renew" THEN SAdd(G, EvalAt(G, f, X(j)), KeyAt(j).v) ELSE KeyAt(j).v
Commits(j) == IF Mode = "renew" THEN PubAdd(G, CommitTo(G, f, B1), KeyAt(j).commits) ELSE KeyAt(j).commits
Shares(S) == LET s == SetToSeqAsc(S) IN Strict([k \in 1..Len(s) |-> [i |-> s[k], v |-> Share(s[k])]])
Good ==
  g # <<>> =>
  /\ \A j \in 0..(New - 1) :
       /\ Commits(j) = Commits(0)
       /\ Len(Commits(j)) = T2
       /\ Commits(j)[1] = GMul(G, Secret, B1)
       /\ GMul(G, Share(j), B1) = EvalPubAt(G, Commits(j), X(j))
  /\ \A S \in SUBSET (0..(New - 1)) : Cardinality(S) = T2 => InterpPri(G, Shares(S), T2)[1] = Secret
=============================================================================
