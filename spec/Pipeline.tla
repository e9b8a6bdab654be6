------------------------------ MODULE Pipeline ------------------------------
(* The complete pipeline as a flow of tables. Each value a stage produces is   *)
(* described by which metadata rows and columns it is about; the stages'       *)
(* declared inputs and outputs decide who sees which version.                  *)
EXTENDS Preproc, TLC

PreFields == {"inst_labels", "s", "x", "y", "x_raw", "y_raw"}
RuleFields == {"y_bin", "y_best", "p", "num_good_algos", "beta"}
RowFields == PreFields \cup RuleFields
PilotFields == {"z"}
PythiaFields == {"y_hat", "y_sub", "pr0_hat", "pr0_sub", "selection0", "selection1"}
PerRow == RowFields \cup PilotFields \cup PythiaFields
\* columns: of features as selected, of all prepared features, of algorithms, or none
WithFeatures == {"x"}
WithAllFeatures == {"x_raw"}
WithAlgos == {"y", "y_raw", "y_bin", "y_hat", "y_sub", "pr0_hat", "pr0_sub"}

Stages == <<"Preprocessing", "Prelim", "Sifted", "Pilot", "Pythia", "Cloister", "Trace">>
Reads(s) == CASE s = "Preprocessing" -> {}
              [] s = "Prelim"  -> PreFields
              [] s = "Sifted"  -> RowFields \cup {"feat_labels", "dense"}
              [] s = "Pilot"   -> {"x", "y", "feat_labels"}
              [] s = "Pythia"  -> {"z", "y_raw", "y_bin", "y_best", "algo_labels"}
              [] s = "Cloister" -> {"x", "a"}
              [] s = "Trace"   -> {"z", "selection0", "p", "beta", "algo_labels", "y_hat", "y_bin"}
\* a stage runs when everything it reads has its final version
Before(s) == CASE s = "Preprocessing" -> {} [] s = "Prelim" -> {"Preprocessing"} [] s = "Sifted" -> {"Prelim"}
               [] s = "Pilot" -> {"Sifted"} [] s = "Pythia" -> {"Pilot"} [] s = "Cloister" -> {"Pilot"} [] s = "Trace" -> {"Pythia"}

Restricted(seq, S) == Keep(seq, S)
\* What a stage makes of the values so far. v: field -> [rows, cols]; c: the choices made
\* (rows kept by the subset option, by the second density filter; features selected)
Fresh(t, f) == [rows |-> t.rows, cols |-> IF f \in {"x", "x_raw"} THEN t.feats ELSE IF f \in {"y", "y_raw"} THEN t.algos ELSE <<>>]
Prepare(t) == [f \in PreFields |-> Fresh(t, f)]
              @@ [f \in {"feat_labels"} |-> [rows |-> <<>>, cols |-> t.feats]]
              @@ [f \in {"algo_labels"} |-> [rows |-> <<>>, cols |-> t.algos]]
RuleOf(v, f) == [rows |-> v["x"].rows, cols |-> IF f = "y_bin" THEN v["y"].cols ELSE <<>>]
OnRows(e, S) == [e EXCEPT !.rows = Restricted(@, S)]
Ruled(v) == [f \in RuleFields |-> RuleOf(v, f)] @@ v
Prelim(v, S) == LET u == Ruled(v) IN [f \in DOMAIN u |-> IF f \in RowFields THEN OnRows(u[f], S) ELSE u[f]]
OnCols(e, S) == [e EXCEPT !.cols = Restricted(@, S)]
\* dense: the values before the restriction to a subset; S2 rows of those
Sift(v, dense, again, S2, J) ==
    LET u == IF again THEN [f \in DOMAIN v |-> IF f \in RowFields THEN OnRows(dense[f], S2) ELSE v[f]] ELSE v
    IN [f \in DOMAIN u |-> IF f \in {"x", "feat_labels"} THEN OnCols(u[f], J) ELSE u[f]]
ProjectedTo(v) == [f \in PilotFields |-> [rows |-> v["x"].rows, cols |-> <<>>]]
                  @@ [f \in {"a", "pilot_summary"} |-> [rows |-> <<>>, cols |-> v["feat_labels"].cols]] @@ v
Predicted(v) == [f \in PythiaFields |-> [rows |-> v["z"].rows, cols |-> IF f \in WithAlgos THEN v["y_bin"].cols ELSE <<>>]]
                @@ [f \in {"pythia_summary"} |-> [rows |-> <<>>, cols |-> v["algo_labels"].cols]] @@ v
Bordered(v) == [f \in {"z_edge"} |-> [rows |-> <<>>, cols |-> v["a"].cols]] @@ v
Traced(v) == [f \in {"good", "best", "trace_summary"} |-> [rows |-> <<>>, cols |-> v["algo_labels"].cols]] @@ v

---- (* what must hold of the values of a complete run *)
RowsOf(v) == v["inst_labels"].rows
Aligned(v) == /\ \A f \in PerRow \cap DOMAIN v : v[f].rows = RowsOf(v)
              /\ \A f \in WithFeatures \cap DOMAIN v : v[f].cols = v["feat_labels"].cols
              /\ \A f \in WithAlgos \cap DOMAIN v : v[f].cols = v["algo_labels"].cols
IsSubSeq(a, b) == a = Keep(b, Elems(a))
=============================================================================
