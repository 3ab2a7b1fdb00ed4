------------------------------ MODULE DkgRabModel ------------------------------
(***************************************************************************)
(* The second phase of Rabin's DKG for one dealer, as all N nodes see it:  *)
(* every schedule of revealed commitments, complaints and published shares,*)
(* exhaustively.  All dealers are qualified (the first phase is VssModel   *)
(* with the Rabin rules).  Nodes 0..N-F-1 are honest and run DkgRabBook;   *)
(* the others say anything that they can know, with every word signed.     *)
(*                                                                         *)
(* Commitments are the set of nodes whose shares they fit: all of them, or *)
(* less than T (two polynomials of degree T-1 meet in no more points).     *)
(* With Help, those who complain publish their shares, too.                *)
(***************************************************************************)
EXTENDS DkgRabBook, TLC
CONSTANTS N, T, F, HonestDealer, Reveals, Help
Honest == 0..(N - F - 1)
All == 0..(N - 1)
Dealer == IF HonestDealer THEN 0 ELSE N - 1
Coms == {c \in SUBSET All : c = All \/ Cardinality(c) < T}
VARIABLES node,  \* the honest nodes
          rev,   \* the commitments revealed
          cc,    \* complaints: [by, i], by whom and with the deal of whom
          rc     \* shares published
vars == <<node, rev, cc, rc>>
Book(v) == [VerifierNew("rab", N) EXCEPT !.ex = TRUE, !.t = T, !.has = TRUE, !.sid = "A", !.deal = "good", !.resp = [k \in 1..N |-> "ok"]]
Node(v) == [n |-> N, idx |-> v, t |-> T, dl |-> [k \in 1..N |-> "good"], dagg |-> DealerNew("rab", N, T, "A"),
            vers |-> [k \in 1..N |-> Book(v)], com |-> [k \in 1..N |-> <<>>], pend |-> [k \in 1..N |-> <<>>], rec |-> {}]
Share(k, i) == [sid |-> "A", index |-> k, i |-> i, v |-> "good"]
Known(k) == IF HonestDealer THEN {k} ELSE All
Faulty == (N - F)..(N - 1)
Init == /\ node = [v \in Honest |-> Node(v)]
        /\ rev \in IF HonestDealer THEN {{All}} ELSE {s \in SUBSET Coms : Cardinality(s) \in 1..Reveals}
        /\ cc = {[by |-> k, i |-> i] : k \in Faulty, i \in All} \cap UNION {{[by |-> k, i |-> i] : i \in Known(k)} : k \in Faulty}
        /\ rc \in {{[Share(k, f[k].i) EXCEPT !.sid = f[k].sid] : k \in DOMAIN f} :
                   f \in UNION {[S -> [i : All, sid : {"A", "B"}]] : S \in SUBSET Faulty}}
        /\ \A r \in rc : r.i \in Known(r.index)
Com(v) == node[v].com[Dealer + 1]
Mail(v, c) == RRevealed(node[v], Dealer, "A", TRUE, v \in c, <<c>>)
Enough(q) == Cardinality({q[k].i : k \in DOMAIN q}) >= T
Charge(v, x) == RComplaint(node[v], x.by, Dealer, TRUE, TRUE, Com(v) # <<>> /\ x.i \in Com(v)[1], Share(v, v),
                           Enough(Append(node[v].pend[Dealer + 1], Share(v, v))), <<All>>)
Given(v, r) ==
  RShare(node[v], Dealer, TRUE, r, Enough(Append(node[v].pend[Dealer + 1], r)), <<All>>)
Set(v, nd) == node' = [node EXCEPT ![v] = nd]
RecvCom(v) == \E c \in rev :
  /\ v # Dealer
  /\ LET r == Mail(v, c) IN
     /\ Set(v, r.nd)
     /\ cc' = IF r.says THEN cc \cup {[by |-> v, i |-> v]} ELSE cc
     /\ rc' = IF r.says /\ Help THEN rc \cup {Share(v, v)} ELSE rc
     /\ node' # node \/ cc' # cc
  /\ UNCHANGED rev
Begin(v) == /\ v = Dealer /\ Com(v) = <<>> /\ v \notin node[v].rec
            /\ Set(v, RReveal([node[v] EXCEPT !.dagg = Book(v)], <<All>>).nd)
            /\ UNCHANGED <<rev, cc, rc>>
RecvComplaint(v) == \E x \in cc :
  /\ LET r == Charge(v, x) IN
     /\ r.says
     /\ Set(v, r.nd)
     /\ rc' = rc \cup {Share(v, v)}
  /\ UNCHANGED <<rev, cc>>
RecvShare(v) == \E r \in rc :
  /\ Set(v, Given(v, r).nd)
  /\ node' # node
  /\ UNCHANGED <<rev, cc, rc>>
Next == \E v \in Honest : RecvCom(v) \/ Begin(v) \/ RecvComplaint(v) \/ RecvShare(v)
Spec == Init /\ [][Next]_vars

\* everything that was said has reached everybody, and changes nothing any more
Quiet == \A v \in Honest :
                          /\ v = Dealer => Com(v) # <<>>
                          /\ v # Dealer => \A c \in rev : LET m == Mail(v, c) IN
                               m.nd = node[v] /\ (m.says => [by |-> v, i |-> v] \in cc)
                          /\ \A x \in cc : ~Charge(v, x).says
                          /\ \A r \in rc : Given(v, r).nd = node[v]
\* who still holds commitments then, holds those of the dealer's polynomial
Right == Quiet /\ N - F >= T /\ F < T => \A v \in Honest : Com(v) \in {<<>>, <<All>>}
\* an honest dealer's are never given up
Innocence == HonestDealer =>
                            /\ \A x \in cc : x.by \notin Honest
                            /\ \A r \in rc : r.index \notin Honest
Complete == Quiet /\ (HonestDealer \/ (Help /\ Reveals = 1 /\ N - F >= T /\ F < T)) => \A v \in Honest : Com(v) # <<>>
\* a reconstruction takes t shares, of which an honest node has published one
Grounds == F < T => \A v \in Honest : Dealer \in node[v].rec => \E r \in rc : r.index \in Honest
\* and is for good
Final == [][\A v \in Honest : Dealer \in node[v].rec => node'[v].com = node[v].com]_vars
Inv == Right /\ Innocence /\ Complete /\ Grounds
=============================================================================
