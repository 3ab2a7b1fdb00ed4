------------------------------- MODULE DssBook -------------------------------
(***************************************************************************)
(* The book-keeping of a participant in a distributed Schnorr signature    *)
(* (src/sign/dss): which partial signatures it holds, by index.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* ps: the partial signatures held, [i, v]; at most one per index
BookNew(idx, n, t) == [idx |-> idx, n |-> n, t |-> t, ps |-> {}, signed |-> FALSE]
Had(b) == { p.i : p \in b.ps }
BookEnough(b) == Cardinality(b.ps) >= b.t
BookAdd(b, i, v) == [b EXCEPT !.ps = @ \cup {[i |-> i, v |-> v]}]
\* issuing one's own partial signature records it, unless it is there already
BookOwn(b, v) == LET c == [b EXCEPT !.signed = TRUE] IN
                 IF b.signed \/ b.idx \in Had(b) THEN c ELSE BookAdd(c, b.idx, v)
\* a partial signature of somebody: good is "authentic, of this session, and on the polynomial"
BookTakes(b, i, good) == i < b.n /\ good /\ i \notin Had(b)
BookProcess(b, i, v, good) == IF BookTakes(b, i, good) THEN BookAdd(b, i, v) ELSE b
=============================================================================
