------------------------------- MODULE VssModel -------------------------------
(***************************************************************************)
(* Verifiable secret sharing with a dealer that may cheat and F verifiers  *)
(* that may say anything: every schedule of the messages, exhaustively.    *)
(* Verifiers 0..N-F-1 are honest and run VssAgg.  A cheating dealer sends  *)
(* each of them a deal of its sharing A, of another sharing B, or one that *)
(* does not verify.                                                        *)
(***************************************************************************)
EXTENDS VssAgg, TLC
CONSTANTS Kind, N, T, F, HonestDealer, Timeouts
Honest == 0..(N - F - 1)
All == 0..(N - 1)
Sid(w) == IF w = "alt" THEN "B" ELSE "A"
Valid(w) == w # "bad"
VARIABLES dealt,  \* what the dealer has for each honest verifier
          ver,    \* the book-keeping of the honest verifiers
          dl,     \* the book-keeping of an honest dealer
          said,   \* responses on the wire: [idx, sid, ok]
          just    \* justifications on the wire (honest dealer): set of indices
vars == <<dealt, ver, dl, said, just>>

Init == /\ dealt \in [Honest -> IF HonestDealer THEN {"good"} ELSE {"good", "bad", "alt"}]
        /\ ver = [v \in Honest |-> VerifierNew(Kind, N)]
        /\ dl = DealerNew(Kind, N, T, "A")
        /\ said = [idx : (N - F)..(N - 1), sid : IF HonestDealer THEN {"A"} ELSE {"A", "B"}, ok : BOOLEAN]
        /\ just = {}
RecvDeal(v) ==
  /\ ~ver[v].has
  /\ LET w == dealt[v]
         r == AggDeal(ver[v], v, [rec |-> w, sid |-> Sid(w), t |-> T], Valid(w))
     IN /\ ver' = [ver EXCEPT ![v] = r.a]
        /\ said' = IF r.out = "err" THEN said ELSE said \cup {[idx |-> v, sid |-> Sid(w), ok |-> r.out = "ok"]}
  /\ UNCHANGED <<dealt, dl, just>>
RecvResp(v) == \E m \in said :
  /\ m.idx # v
  /\ ver' = [ver EXCEPT ![v] = AggResponse(ver[v], m.sid, m.idx, TRUE, m.ok).a]
  /\ ver' # ver
  /\ UNCHANGED <<dealt, dl, said, just>>
\* what a dealer may put into a justification of idx
Justifications(idx) == IF HonestDealer THEN (IF idx \in just THEN {"good"} ELSE {}) ELSE {"good", "bad", "alt"}
RecvJust(v) == \E idx \in All : \E w \in Justifications(idx) :
  /\ ver' = [ver EXCEPT ![v] = AggJustify(ver[v], v, idx, w, Valid(w) /\ Sid(w) = ver[v].sid).a]
  /\ ver' # ver
  /\ UNCHANGED <<dealt, dl, said, just>>
Expire(v) == /\ Timeouts
             /\ ver' = [ver EXCEPT ![v] = AggTimeout(ver[v])]
             /\ ver' # ver
             /\ UNCHANGED <<dealt, dl, said, just>>
DealerResp == /\ HonestDealer
              /\ \E m \in said :
                   LET r == AggResponse(dl, m.sid, m.idx, TRUE, m.ok) IN
                   /\ r.out = "ok"
                   /\ dl' = r.a
                   /\ just' = IF m.ok THEN just ELSE just \cup {m.idx}
              /\ UNCHANGED <<dealt, ver, said>>
Next == DealerResp \/ \E v \in Honest : RecvDeal(v) \/ RecvResp(v) \/ RecvJust(v) \/ Expire(v)
Spec == Init /\ [][Next]_vars

Out(v) == ver[v].ex /\ ver[v].has /\ Certified(ver[v])
(* A share is handed out only if it is valid.                              *)
Validity == \A v \in Honest : Out(v) /\ Kind = "ped" => Valid(ver[v].deal) /\ Sid(ver[v].deal) = ver[v].sid
(* Rabin's verifiers certify with open complaints; a share that did not    *)
(* verify leaves a complaint of its owner until it is replaced.            *)
Replaced == \A v \in Honest : Out(v) /\ Kind = "rab" => Valid(ver[v].deal) \/ ver[v].resp[v + 1] = "no"
(* Never without the approval of t verifiers.                              *)
Quorum == \A v \in Honest : Out(v) => Count(ver[v], "ok") >= T
(* If quorums intersect in an honest verifier, everybody gets shares of    *)
(* the same sharing.  (Rabin's verifiers complain in the name of absent    *)
(* ones when the time is up, and a justification turns that into an        *)
(* approval, so this needs all responses to arrive.)                       *)
Agreement == (Kind = "ped" \/ ~Timeouts) /\ 2 * T > N + F => \A v, w \in Honest : Out(v) /\ Out(w) => ver[v].sid = ver[w].sid
(* An honest dealer is never found guilty, and once all complaints are     *)
(* answered its sharing is certified.                                      *)
Innocence == HonestDealer => \A v \in Honest : ~ver[v].bad /\ ver[v].resp[v + 1] # "no"
Done(v) == ver[v].has /\ \A k \in 1..N : ver[v].resp[k] = "ok"
Completion == HonestDealer => \A v \in Honest : Done(v) => Out(v)
\* a verifier's verdict about the dealer is final
Final == [][\A v \in Honest : ver[v].bad => ver'[v].bad]_vars
Inv == Validity /\ Replaced /\ Quorum /\ Agreement /\ Innocence /\ Completion
=============================================================================
