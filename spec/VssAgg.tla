-------------------------------- MODULE VssAgg --------------------------------
(***************************************************************************)
(* The book-keeping of one participant of a verifiable secret sharing:     *)
(* which deal it holds, which responses it has seen, and whether the deal  *)
(* is certified.  Cryptographic judgements come in as booleans, so that    *)
(* the same operators serve the exhaustive model (VssModel) and the        *)
(* validation of executions of the code (Vss).                             *)
(*                                                                         *)
(* kind "ped": Pedersen's VSS (src/share/vss/pedersen)                     *)
(* kind "rab": Rabin's VSS    (src/share/vss/rabin)                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* ex: the participant knows of a session at all (always, for Pedersen)
AggNew(kind, n, t, ex, sid) ==
  [kind |-> kind, n |-> n, ex |-> ex, t |-> t, sid |-> sid, has |-> FALSE, deal |-> "none",
   resp |-> [k \in 1..n |-> "none"], rsid |-> [k \in 1..n |-> ""], bad |-> FALSE, to |-> FALSE]
VerifierNew(kind, n) == AggNew(kind, n, 0, kind = "ped", "")
DealerNew(kind, n, t, sid) == AggNew(kind, n, t, TRUE, sid)

Res(a, out) == [a |-> a, out |-> out]
Count(a, what) == Cardinality({k \in 1..a.n : a.resp[k] = what})
Certified(a) ==
  LET approvals == Count(a, "ok")  absent == Count(a, "none")  complaints == Count(a, "no") IN
  /\ ~a.bad
  /\ approvals >= a.t
  /\ IF a.kind = "ped"
     THEN complaints = 0 /\ (IF a.to THEN absent <= a.n - a.t ELSE absent = 0)
     ELSE absent = 0
Missing(a) == {k - 1 : k \in {k \in 1..a.n : a.resp[k] = "none"}}

\* A threshold known beforehand (Pedersen) is kept.
AggThreshold(a, t) == [a EXCEPT !.t = t]

(* A deal that was opened and is meant for verifier idx (0-based).  It is    *)
(* kept whatever it contains; the verifier's own response says if it is good.*)
\* Responses of others that came earlier (Pedersen) count only if they are about the same session.
Learn(a, idx, d) == [a EXCEPT !.ex = TRUE, !.has = TRUE, !.deal = d.rec, !.sid = d.sid,
                         !.resp = [k \in 1..a.n |-> IF k = idx + 1 \/ a.rsid[k] = d.sid THEN a.resp[k] ELSE "none"],
                         !.rsid = [k \in 1..a.n |-> ""],
                         !.t = IF a.kind = "ped" /\ a.t # 0 THEN a.t ELSE d.t]
\* valid(t): whether the deal is good when the threshold is t
AggDeal(a, idx, d, valid) ==
  IF a.has THEN Res(a, "err")
  ELSE LET b == Learn(a, idx, d) IN
       IF b.resp[idx + 1] # "none" THEN Res(b, "err")
       ELSE Res([b EXCEPT !.resp[idx + 1] = IF valid THEN "ok" ELSE "no"], IF valid THEN "ok" ELSE "no")

AggResponse(a, sid, idx, signed, ok) ==
  IF /\ a.ex
     /\ a.sid = sid \/ (a.kind = "ped" /\ a.sid = "")
     /\ idx \in 0..(a.n - 1)
     /\ signed
     /\ a.resp[idx + 1] = "none"
  THEN Res([a EXCEPT !.resp[idx + 1] = IF ok THEN "ok" ELSE "no", !.rsid[idx + 1] = IF a.has THEN "" ELSE sid], "ok")
  ELSE Res(a, "err")

\* A verdict the layer above takes for given.  In Pedersen's module a complaint prevails.
AggVouch(a, idx, ok) ==
  IF ~a.ex \/ ~(idx \in 0..(a.n - 1)) THEN a
  ELSE IF a.resp[idx + 1] = "none" \/ (a.kind = "ped" /\ ~ok)
  THEN [a EXCEPT !.resp[idx + 1] = IF ok THEN "ok" ELSE "no", !.rsid[idx + 1] = ""]
  ELSE a

\* me: index of this verifier; rec: the deal in the justification; good: it is a valid deal of this
\* session for verifier idx
AggJustify(a, me, idx, rec, good) ==
  IF ~(a.ex /\ a.has /\ idx \in 0..(a.n - 1)) THEN Res(a, "err")
  ELSE IF a.resp[idx + 1] # "no" THEN Res(a, "err")
  ELSE IF ~good THEN Res([a EXCEPT !.bad = TRUE], "err")
  ELSE LET b == [a EXCEPT !.resp[idx + 1] = "ok"]
       IN Res(IF me = idx THEN [b EXCEPT !.deal = rec] ELSE b, "ok")

AggTimeout(a) ==
  IF ~a.ex THEN a
  ELSE IF a.kind = "ped" THEN [a EXCEPT !.to = TRUE]
  ELSE [a EXCEPT !.resp = [k \in 1..a.n |-> IF a.resp[k] = "none" THEN "no" ELSE a.resp[k]]]
=============================================================================
