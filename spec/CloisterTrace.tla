---------------------------- MODULE CloisterTrace ---------------------------
(* Record: x, A (integers), rn, rd (threshold), all (every correlation counts *)
(* as significant; otherwise the 5% level); got: status, exact (points are    *)
(* whole numbers), edge, corr (sequences of points), hand ("stage" or what    *)
(* hands it over)                                                             *)
EXTENDS Cloister, TraceLib

Whole(r) ==
    LET g == r.got P == AllCorners(r.x, r.A)
        rel == Relations(r.x, r.rn, r.rd, r.all)
        tight(f) == LET K == KeptCorners(r.x, r.A, f) IN IF Flat(K) THEN g.corr = g.edge ELSE Outline(g.corr, K)
    IN IF Flat(P) THEN {}      \* no two-dimensional space to bound
    ELSE Clause("C42:outer", Outline(g.edge, P))
         \cup Clause("C42:instances-inside", Len(g.edge) > 0 /\ Encloses(g.edge, {Point(r.x[i], r.A) : i \in 1..Len(r.x)}))
         \cup Clause("C42:tight", \E f \in Settled(rel) : tight(f))
         \cup Clause("C42:tight-inside-outer", Len(g.corr) > 0 /\ Encloses(g.edge, Elems(g.corr)))
Verdict(r) == IF r.got.status # "ok" THEN {"C42:refused"}
              ELSE IF ~r.got.exact THEN {"C42:not-a-corner"} ELSE Whole(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
