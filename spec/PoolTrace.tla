----------------------------- MODULE PoolTrace ------------------------------
(* Records: n (algorithms), cores, fails (<<algorithm, part>> made to fail),  *)
(* log (parts in the order they were completed or failed), got: status, and   *)
(* which algorithm's reference footprint is found in each slot, and whether   *)
(* the other results are those of the reference.                              *)
EXTENDS Pool, TraceLib
Events(r) == {<<e.a, e.part>> : e \in Rng(r.log)}
Met(r) == Events(r) \cap {<<f.a, f.part>> : f \in Rng(r.fails)}
Verdict(r) ==
    LET want == Outcome(r.n, Met(r)) g == r.got
    IN IF want.status = "error" THEN Clause("C63:failure-surfaces", g.status = "error")
       ELSE IF g.status = "error" THEN {"C63:refused"}
       ELSE Clause("C63:good", g.good = want.good) \cup Clause("C63:best", g.best = want.best)
            \cup Clause("C63:space", g.space) \cup Clause("C63:hard", g.hard) \cup Clause("C63:summary", g.summary)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
