---------------------------- MODULE MetadataTrace ----------------------------
(* Record: cols, cells (for label and source columns: ids of texts; for       *)
(* numeric label columns the id of the number's text), readable, status       *)
(* "ok" | "none" | "error", feat_names, algo_names, features, algorithms,     *)
(* labels, has_source, sources, text (labels are text), doubles, dirty        *)
EXTENDS Metadata, TraceLib

Verdict(r) ==
    IF ~r.readable THEN Clause("C11:metadata-from-a-bad-file", r.status = "none")
    ELSE IF r.status # "ok" THEN {"C11:table-refused"}
    ELSE LET t == [cols |-> r.cols, cells |-> r.cells] IN
        Clause("C11:features", r.feat_names = Names(t, "feature") /\ r.features = Matrix(t, "feature"))
        \cup Clause("C11:algorithms", r.algo_names = Names(t, "algorithm") /\ r.algorithms = Matrix(t, "algorithm"))
        \cup Clause("C11:labels", r.labels = Column(t, "label") /\ r.text)
        \cup Clause("C11:sources", IF ColsOf(t, "source") = <<>> THEN ~r.has_source
                                   ELSE r.has_source /\ r.sources = Column(t, "source"))
        \cup Clause("C11:number-type", r.doubles)
        \cup Clause("C11:table-changed", ~r.dirty)

VARIABLES c, done
Init == c \in 1..NRecs /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED c /\ Report(c, 0, Verdict(Recs[c]))
=============================================================================
