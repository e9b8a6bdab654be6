------------------------------- MODULE Facade -------------------------------
(* The instance-space object: a pipeline runner (Runner) fed from metadata   *)
(* and options, plus the model assembled from the last complete build.       *)
(*                                                                           *)
(* The state f of a facade is a record                                       *)
(*   st     the runner's state (Runner)                                      *)
(*   built  values returned by the last successful build, by name; all 0     *)
(*          before the first one                                             *)
EXTENDS Runner

\* Which pipeline output each field of the model shows (the names differ only where two
\* stages would otherwise clash)
ModelFields == <<
  <<"data.inst_labels", "inst_labels">>, <<"data.feat_labels", "feat_labels">>,
  <<"data.algo_labels", "algo_labels">>, <<"data.x", "x">>, <<"data.y", "y">>,
  <<"data.x_raw", "x_raw">>, <<"data.y_raw", "y_raw">>, <<"data.y_bin", "y_bin">>,
  <<"data.y_best", "y_best">>, <<"data.p", "p">>,
  <<"data.num_good_algos", "num_good_algos">>, <<"data.beta", "beta">>, <<"data.s", "s">>,
  <<"feat_sel.idx", "idx">>,
  <<"prelim.med_val", "med_val">>, <<"prelim.iq_range", "iq_range">>,
  <<"prelim.hi_bound", "hi_bound">>, <<"prelim.lo_bound", "lo_bound">>,
  <<"prelim.min_x", "min_x">>, <<"prelim.lambda_x", "lambda_x">>,
  <<"prelim.mu_x", "mu_x">>, <<"prelim.sigma_x", "sigma_x">>, <<"prelim.min_y", "min_y">>,
  <<"prelim.lambda_y", "lambda_y">>, <<"prelim.sigma_y", "sigma_y">>, <<"prelim.mu_y", "mu_y">>,
  <<"sifted.selvars", "selvars">>, <<"sifted.idx", "idx">>, <<"sifted.rho", "rho">>,
  <<"sifted.pval", "pval">>, <<"sifted.silhouette_scores", "silhouette_scores">>,
  <<"sifted.clust", "clust">>,
  <<"pilot.X0", "X0">>, <<"pilot.alpha", "alpha">>, <<"pilot.eoptim", "eoptim">>,
  <<"pilot.perf", "perf">>, <<"pilot.a", "a">>, <<"pilot.z", "z">>, <<"pilot.c", "c">>,
  <<"pilot.b", "b">>, <<"pilot.error", "error">>, <<"pilot.r2", "r2">>,
  <<"pilot.summary", "pilot_summary">>,
  <<"cloister.z_edge", "z_edge">>, <<"cloister.z_ecorr", "z_ecorr">>,
  <<"pythia.mu", "mu">>, <<"pythia.sigma", "sigma">>, <<"pythia.cp", "cp">>,
  <<"pythia.svm", "svm">>, <<"pythia.cvcmat", "cvcmat">>, <<"pythia.y_sub", "y_sub">>,
  <<"pythia.y_hat", "y_hat">>, <<"pythia.pr0_sub", "pr0_sub">>, <<"pythia.pr0_hat", "pr0_hat">>,
  <<"pythia.box_consnt", "box_consnt">>, <<"pythia.k_scale", "k_scale">>,
  <<"pythia.precision", "precision">>, <<"pythia.recall", "recall">>,
  <<"pythia.accuracy", "accuracy">>, <<"pythia.selection0", "selection0">>,
  <<"pythia.selection1", "selection1">>, <<"pythia.summary", "pythia_summary">>,
  <<"trace.space", "space">>, <<"trace.good", "good">>, <<"trace.best", "best">>,
  <<"trace.hard", "hard">>, <<"trace.summary", "trace_summary">> >>

\* The values the facade itself puts into the pipeline
InputNames == {
  "feature_names", "algorithm_names", "instance_labels", "instance_sources", "features",
  "algorithms", "parallel_options", "perf_options", "auto_options", "bound_options",
  "norm_options", "selvars_options", "sifted_options", "pilot_options", "cloister_options",
  "pythia_options", "trace_options", "outputs_options", "prelim_options"}

NewFacade(none) == [st |-> Fresh(none), built |-> none]
HasModel(f) == \E a \in DOMAIN f.built : f.built[a] # 0

\* A complete build ends in state st; a failed one leaves the previous model
Built(f, st)  == [st |-> st, built |-> st.cur]
Moved(f, st)  == [f EXCEPT !.st = st]
=============================================================================
