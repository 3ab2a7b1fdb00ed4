------------------------------ MODULE DkgPedModel ------------------------------
(***************************************************************************)
(* One dealer's sharing inside Pedersen's DKG or a resharing, as all N new *)
(* nodes see it: every schedule of deals, responses, justifications and    *)
(* time-outs, exhaustively.  Nodes 0..N-F-1 are honest and run DkgPedBook; *)
(* the others say anything.  The dealer is node Dealer of the new group,   *)
(* or (Dealer = N) one that leaves it; a dealer that cheats sends each    *)
(* node a deal of its sharing A, of another sharing B, of a sharing C of   *)
(* something else than its share of the key, or one that does not verify.  *)
(***************************************************************************)
EXTENDS DkgPedBook, TLC
CONSTANTS N, T, F, Re, Dealer, HonestDealer, Timeouts, OneWord
Honest == 0..(N - F - 1)
All == 0..(N - 1)
Sid(w) == CASE w = "alt" -> "B" [] w = "contra" -> "C" [] OTHER -> "A"
Valid(w) == w # "bad"
Kinds == {"good", "bad", "alt"} \cup (IF Re THEN {"contra"} ELSE {})
Deals(v) == Dealer = v /\ HonestDealer
VARIABLES dealt,  \* what the dealer has for each honest node
          node,   \* the honest nodes
          said,   \* responses on the wire: [idx, sid, ok]
          just    \* justifications on the wire: [idx, d]
vars == <<dealt, node, said, just>>

Node(v) == [n |-> N, self |-> <<IF Dealer < N THEN Dealer ELSE -1>>, oidx |-> IF Deals(v) THEN 0 ELSE 99, nidx |-> v, re |-> Re, issue |-> Deals(v),
            newp |-> TRUE, t |-> T, oldt |-> 1, vers |-> <<AggThreshold(VerifierNew("ped", N), T)>>,
            olds |-> <<VerifierNew("ped", N)>>, dl |-> [k \in 1..N |-> "good"],
            dagg |-> DealerNew("ped", N, T, "A"), done |-> FALSE]
\* (A fresh dealer that complains about its own deal is believed by those who hear that before they
\* have the deal, and by nobody else: with such a dealer Verdicts fails.)
Talkers == {k \in (N - F)..(N - 1) : Re \/ k # Dealer \/ ~OneWord}
Words == [idx : Talkers, sid : IF HonestDealer THEN {"A"} ELSE {"A", "B"}, ok : BOOLEAN]
Excuses == [idx : All, d : Kinds]
Single(s) == \A x, y \in s : x.idx = y.idx => x = y
Init == /\ dealt \in [Honest -> IF HonestDealer THEN {"good"} ELSE Kinds]
        /\ node = [v \in Honest |-> Node(v)]
        /\ said \in IF OneWord THEN {s \in SUBSET Words : Single(s)} ELSE {Words}
        /\ just \in IF HonestDealer THEN {{}} ELSE IF OneWord THEN {s \in SUBSET Excuses : Single(s)} ELSE {Excuses}
Set(v, nd) == node' = [node EXCEPT ![v] = nd]
A(v) == node[v].vers[1]
\* a fresh dealer tells nobody that it took its own deal: all take that for granted
RecvDeal(v) ==
  /\ ~A(v).has
  /\ LET w == dealt[v]
         p == NTake(node[v], 0, [rec |-> w, sid |-> Sid(w), t |-> T], Valid(w), w = "contra")
         r == IF w = "contra" THEN p ELSE NSettle(node[v], 0, p, [k \in 1..N |-> TRUE])
         public == r.out # "err" /\ (Re \/ v # Dealer)
     IN /\ Set(v, [SetV(node[v], 0, r.a) EXCEPT !.done = v = Dealer])
        /\ said' = IF public THEN said \cup {[idx |-> v, sid |-> Sid(w), ok |-> r.out = "ok"]} ELSE said
  /\ UNCHANGED <<dealt, just>>
Told(v, m) == NResp(node[v], 0, m.sid, m.idx, TRUE, m.ok, A(v).has)
Shown(v, j) == NJust(node[v], 0, j.idx, j.d, Valid(j.d) /\ Sid(j.d) = A(v).sid, j.d = "contra").nd
RecvResp(v) == \E m \in said :
  /\ m.idx # v
  /\ LET r == Told(v, m) IN
     /\ Set(v, r.nd)
     /\ just' = IF r.just THEN just \cup {[idx |-> m.idx, d |-> "good"]} ELSE just
     /\ node' # node \/ just' # just
  /\ UNCHANGED <<dealt, said>>
RecvJust(v) == \E j \in just :
  /\ Set(v, Shown(v, j))
  /\ node' # node
  /\ UNCHANGED <<dealt, said, just>>
Expire(v) == /\ Timeouts
             /\ Set(v, NTimeout(node[v]))
             /\ node' # node
             /\ UNCHANGED <<dealt, said, just>>
Next == \E v \in Honest : RecvDeal(v) \/ RecvResp(v) \/ RecvJust(v) \/ Expire(v)
Spec == Init /\ [][Next]_vars

Out(v) == Qual(node[v]) # {} /\ A(v).has
\* a share that goes into a key is valid, of the session, and of a sharing of the dealer's share of the key
Validity == \A v \in Honest : Out(v) => Valid(A(v).deal) /\ Sid(A(v).deal) = A(v).sid /\ A(v).sid # "C"
Quorum == \A v \in Honest : Out(v) => Count(A(v), "ok") >= T
\* two nodes that count the dealer in hold shares of the same sharing: always when everybody has to
\* approve, and after a time-out if quorums intersect in an honest node
Agreement == (~Timeouts /\ F < N - 1) \/ 2 * T > N + F =>
               \A v, w \in Honest : Out(v) /\ Out(w) => A(v).sid = A(w).sid
Innocence == HonestDealer => \A v \in Honest : ~A(v).bad /\ A(v).resp[v + 1] # "no"
Heard(v) == A(v).has /\ \A k \in 1..N : A(v).resp[k] = "ok"
Completion == HonestDealer => \A v \in Honest : Heard(v) => Out(v)
\* when everybody has seen everything that was said, once, they agree about the dealer
Quiet == \A v \in Honest :
                          /\ A(v).has
                          /\ \A m \in said : m.idx # v => Told(v, m).nd = node[v]
                          /\ \A j \in just : Shown(v, j) = node[v]
Verdicts == OneWord /\ ~Timeouts => (Quiet => \A v, w \in Honest : Out(v) = Out(w))
\* and an honest dealer is counted in by all, unless somebody keeps silent
Counted == OneWord /\ HonestDealer /\ Quiet /\ ~Timeouts /\ (\A k \in All : k \in Honest \/ \E m \in said : m.idx = k)
             => \A v \in Honest : Out(v)
Final == [][\A v \in Honest : A(v).bad => A(v)'.bad]_vars
Inv == Validity /\ Quorum /\ Agreement /\ Innocence /\ Completion /\ Verdicts /\ Counted
=============================================================================
