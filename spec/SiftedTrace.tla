----------------------------- MODULE SiftedTrace -----------------------------
(* Record: kind "screen", "at" or "select"; x, y, yb: rows of integers (-1: missing performance), goodness;   *)
(* inrows: the rows handed to the stage (all, or what a density filter left); *)
(* density, type, md2: that option; rn, rd: threshold of the correlation;     *)
(* flag, k; screened (ids of the features that pass screening, as the code    *)
(* reports them without clustering; for "select");                            *)
(* for "at": rank (order of the reported correlations), thr (rank that is the *)
(* threshold);                                                                *)
(* got: status ("ok", "few", "error"), chosen (1-based ids by label), selvars,*)
(* idx (1-based), x (integers), rows (source row of every row), clust (set of *)
(* positions among screened, per cluster), has_clust, tried (sequence of      *)
(* [ids, err]), has_tried, alias (canonical id of each feature: the first     *)
(* with the same values), fields (per-instance fields: row keys), full        *)
EXTENDS Sifted, TraceLib
F == INSTANCE Filter

Take(row, ids) == [j \in 1..Len(ids) |-> row[ids[j]]]
Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Columns(r, pid) ==
    LET g == r.got IN
    Clause(pid \o ":names", Cardinality(Elems(g.chosen)) = Len(g.chosen) /\ 0 \notin Elems(g.chosen))
    \cup Clause(pid \o ":order", Increasing(g.chosen))
    \cup Clause(pid \o ":columns", 0 \notin Elems(g.chosen) =>
            Len(g.chosen) > 0 /\ 0 \notin Elems(g.rows) /\ g.x = [i \in 1..Len(g.rows) |-> Take(r.x[g.rows[i]], g.chosen)])
    \cup Clause(pid \o ":indices", g.selvars = g.chosen /\ g.idx = g.chosen)

Screening(r) ==
    IF r.got.status = "few" THEN
        Clause("C30:too-few", \E f \in 1..Len(r.x[1]) : ScreenOk(r.x, r.y, {f}, r.rn, r.rd))
    ELSE IF r.got.status # "ok" THEN {"C30:refused"}
    ELSE Columns(r, "C30") \cup Clause("C30:kept", ScreenOk(r.x, r.y, Elems(r.got.chosen), r.rn, r.rd))
\* the threshold is exactly one of the reported correlations
AtThreshold(r) ==
    IF r.got.status = "few" THEN Clause("C30:too-few-at-threshold", \E f \in 1..Len(r.rank) : RankOk(r.rank, r.thr, {f}))
    ELSE IF r.got.status # "ok" THEN {"C30:refused"}
    ELSE Columns(r, "C30") \cup Clause("C30:kept-at-threshold", RankOk(r.rank, r.thr, Elems(r.got.chosen)))
         \cup Clause("C30:correlations", \A a \in 1..Len(r.rank[1]) : \A f, g \in 1..Len(r.rank) :
                (/\ Significance(Feat(r.x, f, r.y, a), Perf(r.y, a)) = "yes" /\ Significance(Feat(r.x, g, r.y, a), Perf(r.y, a)) = "yes"
                 /\ Weaker(Feat(r.x, f, r.y, a), Feat(r.x, g, r.y, a), Perf(r.y, a))) => r.rank[f][a] < r.rank[g][a])

Canon(r, S) == {r.got.alias[f] : f \in S}
Selecting(r) ==
    LET g == r.got nf == Len(r.x[1])
        keepall == ~r.flag \/ nf <= 3
        early == Len(r.screened) <= 3 \/ Len(r.screened) <= r.k
        cl == [c \in 1..Len(g.clust) |-> {r.screened[i] : i \in Elems(g.clust[c])}]
        \* features with the same values stand for each other
        \* clustering under the density option filters all the instances again
        t == [x |-> [i \in 1..Len(r.x) |-> Take(r.x[i], g.chosen)], y |-> r.y, yb |-> r.yb, type |-> r.type, md2 |-> r.md2]
        want == IF r.density /\ ~keepall /\ ~early /\ 0 \notin Elems(g.chosen)
                THEN F!Retained(t, Len(r.x)) ELSE r.inrows
        kinds == Cardinality({g.alias[f] : f \in Elems(r.screened)})
        different == Cardinality({[i \in 1..Len(r.inrows) |-> r.x[r.inrows[i]][f]] : f \in Elems(r.screened)})
    IN IF g.status # "ok"
       THEN (IF Len(r.screened) > 0 /\ different < 2 THEN {}     \* one and the same feature many times: nothing to cluster
             ELSE {"C31:refused"})
       ELSE Columns(r, "C31")
       \cup Clause("C31:rows", g.rows = want /\ \A nm \in DOMAIN g.fields :
                g.fields[nm] = [i \in 1..Len(g.rows) |-> r.full[nm][g.rows[i]]])
       \cup (IF keepall THEN Clause("C31:nothing-dropped", Elems(g.chosen) = 1..nf)
             ELSE IF early THEN Clause("C31:nothing-dropped", Elems(g.chosen) = Elems(r.screened))
             ELSE IF ~g.has_clust THEN {"C31:no-clusters"}
             ELSE IF \E c \in 1..Len(g.clust) : ~(Elems(g.clust[c]) \subseteq 1..Len(r.screened)) THEN {"C31:clusters"}
             ELSE Clause("C31:clusters", Partition(cl, Elems(r.screened)) /\ Len(cl) = Min2(r.k, kinds))
                  \cup Clause("C31:one-per-cluster", OnePerCluster(cl, Elems(g.chosen)))
                  \cup Clause("C31:same-values-same-cluster", \A c \in 1..Len(cl) : \A a, b \in Elems(r.screened) :
                            (g.alias[a] = g.alias[b] /\ a \in cl[c]) => b \in cl[c])
                  \cup (IF ~g.has_tried THEN {}
                        ELSE LET mine == {i \in 1..Len(g.tried) : Elems(g.tried[i].ids) = Canon(r, Elems(g.chosen))}
                             IN Clause("C31:tried", mine # {})
                                \cup Clause("C31:best", \A i \in mine : \A j \in 1..Len(g.tried) :
                                        g.tried[i].err <= g.tried[j].err + 1)
                                \cup Clause("C31:evaluated-features", \A j \in 1..Len(g.tried) :
                                        \A c \in 1..Len(cl) : Cardinality(Elems(g.tried[j].ids) \cap Canon(r, cl[c])) = 1)))
Verdict(r) == IF r.kind = "screen" THEN Screening(r) ELSE IF r.kind = "at" THEN AtThreshold(r) ELSE Selecting(r)
VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
