----------------------------- MODULE SubsetTrace -----------------------------
(* Record: n, o (option: kind, a, b, list), has_s, t (table for the density   *)
(* option), full: every per-instance field of the run without a subset, one   *)
(* number per instance (equal numbers: equal values), got: status, the same   *)
(* fields of the run with it, has_s, dense (the fields of the data set kept), *)
(* has_dense, again (labels of the same run once more)                        *)
EXTENDS Subset, TraceLib
Fields == {"labels", "x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "count", "easy"}
Clauses(r) ==
    LET g == r.got
        Rows == {g.f["labels"][k] : k \in 1..Len(g.f["labels"])}
        pos(l) == CHOOSE i \in 1..r.n : r.full["labels"][i] = l
        known == \A l \in Rows : \E i \in 1..r.n : r.full["labels"][i] = l
        sel == [k \in 1..Len(g.f["labels"]) |-> pos(g.f["labels"][k])]
    IN IF ~known THEN {"C23:labels"}
       ELSE Clause("C23:chosen", ChosenOk(sel, r.n, r.o, r.t))
       \cup UNION {Clause("C23:" \o nm, g.f[nm] = Restrict(r.full[nm], sel)) : nm \in Fields}
       \cup Clause("C23:sources", g.has_s = r.has_s /\ (r.has_s => g.f["s"] = Restrict(r.full["s"], sel)))
       \cup Clause("C23:repeatable", g.again = g.f["labels"])
       \cup Clause("C23:dense", (r.o.kind = "density") = g.has_dense)
       \cup (IF ~g.has_dense THEN {}
             ELSE UNION {Clause("C23:dense-" \o nm, g.dense[nm] = r.full[nm]) : nm \in Fields}
                  \cup Clause("C23:dense-s", r.has_s => g.dense["s"] = r.full["s"]))
Verdict(r) == IF r.got.status # "ok" THEN {"C23:refused"} ELSE Clauses(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
