----------------------------- MODULE FilterTrace -----------------------------
(* Record: x, y (integer rows), yb, type, md2, has_u (uniformity is defined), *)
(* got: status, excluded, dissimilar, visa, u (thousandths)                   *)
EXTENDS Filter, TraceLib
\* Equality in the performance distance that depends on rounding
Fragile(r) == r.type \in {"Ftr&AP", "Ftr&AP&Good"} /\ Len(r.y[1]) # Len(r.x[1]) /\
    \E i, j \in 1..Len(r.x) : i < j /\ Near(r, i, j) /\ Dist2(r.y[i], r.y[j]) * Len(r.x[1]) = Len(r.y[1]) * r.md2
                              /\ ~(Len(r.y[1]) = 4 /\ Len(r.x[1]) = 1) /\ ~(Len(r.y[1]) = 1 /\ Len(r.x[1]) = 4)
                              /\ r.md2 > 0
Verdict(r) ==
    IF Fragile(r) THEN {}
    ELSE IF r.got.status # "ok" THEN {"C24:refused"}
    ELSE LET f == Flags(r) R == Retained(r, Len(r.x))
         IN Clause("C24:excluded", r.got.excluded = f.excluded)
            \cup Clause("C24:similar", r.got.dissimilar = f.dissimilar)
            \cup Clause("C24:exception", r.got.visa = f.visa)
            \cup Clause("C24:uniformity",
                   (r.got.excluded = f.excluded /\ Len(R) >= 2 /\ Total(Nearest(r, R)) > 0) => UniformityOk(r, R, r.got.u))
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
