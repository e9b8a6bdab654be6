------------------------------- MODULE Config -------------------------------
(* Options: groups of fields with defaults, loaded from a table of entries.  *)
(* Values are opaque texts (the projection writes type and value).           *)
EXTENDS Integers, Sequences, FiniteSets

F(name, default) == [name |-> name, default |-> default]
Fields == [
  parallel |-> <<F("flag", "False"), F("n_cores", "2")>>,
  perf     |-> <<F("max_perf", "False"), F("abs_perf", "True"), F("epsilon", "0.2"),
                 F("beta_threshold", "0.55")>>,
  auto     |-> <<F("preproc", "True")>>,
  bound    |-> <<F("flag", "True")>>,
  norm     |-> <<F("flag", "True")>>,
  selvars  |-> <<F("small_scale_flag", "False"), F("small_scale", "0.5"),
                 F("file_idx_flag", "False"), F("file_idx", "''"), F("feats", "None"),
                 F("algos", "None"), F("selvars_type", "'Ftr&Good'"), F("min_distance", "0.1"),
                 F("density_flag", "False")>>,
  sifted   |-> <<F("flag", "True"), F("rho", "0.1"), F("k", "6"), F("n_trees", "50"),
                 F("max_iter", "1000"), F("replicates", "100"), F("num_generations", "100"),
                 F("num_parents_mating", "2"), F("sol_per_pop", "50"),
                 F("parent_selection_type", "'tournament'"), F("k_tournament", "4"),
                 F("keep_elitism", "2"), F("crossover_type", "'scattered'"),
                 F("cross_over_probability", "0.8"), F("mutation_type", "'random'"),
                 F("mutation_probability", "0.05"), F("stop_criteria", "'saturate_5'")>>,
  pilot    |-> <<F("x0", "None"), F("alpha", "None"), F("analytic", "False"), F("n_tries", "5")>>,
  cloister |-> <<F("p_val", "0.05"), F("c_thres", "0.7")>>,
  pythia   |-> <<F("cv_folds", "5"), F("is_poly_krnl", "False"), F("use_weights", "False"),
                 F("use_grid_search", "False"), F("params", "None")>>,
  trace    |-> <<F("use_sim", "True"), F("purity", "0.55")>>,
  outputs  |-> <<F("csv", "True"), F("web", "False"), F("png", "True")>> ]

\* The names the MATLAB toolkit uses for some fields
Aliases == [
  parallel |-> <<<<"ncores", "n_cores">>>>,
  perf     |-> <<<<"maxperf", "max_perf">>, <<"absperf", "abs_perf">>,
                 <<"betathreshold", "beta_threshold">>>>,
  auto |-> <<>>, bound |-> <<>>, norm |-> <<>>,
  selvars  |-> <<<<"smallscaleflag", "small_scale_flag">>, <<"smallscale", "small_scale">>,
                 <<"fileidxflag", "file_idx_flag">>, <<"fileidx", "file_idx">>,
                 <<"densityflag", "density_flag">>, <<"mindistance", "min_distance">>,
                 <<"type", "selvars_type">>>>,
  sifted   |-> <<<<"ntrees", "n_trees">>, <<"maxiter", "max_iter">>>>,
  pilot    |-> <<<<"ntries", "n_tries">>>>,
  cloister |-> <<<<"pval", "p_val">>, <<"cthres", "c_thres">>>>,
  pythia   |-> <<<<"cvfolds", "cv_folds">>, <<"ispolykrnl", "is_poly_krnl">>,
                 <<"useweights", "use_weights">>, <<"uselibsvm", "use_grid_search">>>>,
  trace    |-> <<<<"pi", "purity">>, <<"usesim", "use_sim">>>>,
  outputs  |-> <<>> ]

Groups == DOMAIN Fields
Names(g) == {Fields[g][i].name : i \in 1..Len(Fields[g])}
Default(g, f) == LET i == CHOOSE i \in 1..Len(Fields[g]) : Fields[g][i].name = f IN Fields[g][i].default
Defaults(g) == [f \in Names(g) |-> Default(g, f)]

Comment == "_"
\* The field a (lower-case) key stands for, or "?" when there is none
Target(g, low) ==
    LET al == {i \in 1..Len(Aliases[g]) : Aliases[g][i][1] = low}
    IN IF al # {} THEN Aliases[g][CHOOSE i \in al : TRUE][2]
       ELSE IF low \in Names(g) THEN low
       ELSE IF low = Comment THEN Comment ELSE "?"

-----------------------------------------------------------------------------
(* Loading one group, entry by entry: [status, vals, seen]                   *)
StartGroup(g) == [status |-> "ok", vals |-> Defaults(g), seen |-> {}]
Entry(g, s, e) ==
    LET t == Target(g, e.low)
    IN IF s.status # "ok" THEN s
       ELSE IF t = "?" \/ t \in s.seen THEN [s EXCEPT !.status = "rejected"]
       ELSE IF t = Comment THEN s
       ELSE [s EXCEPT !.vals = [@ EXCEPT ![t] = e.val], !.seen = @ \cup {t}]
RECURSIVE LoadEntries(_, _, _, _)
LoadEntries(g, s, es, i) == IF i > Len(es) THEN s ELSE LoadEntries(g, Entry(g, s, es[i]), es, i + 1)
LoadGroup(g, es) == LoadEntries(g, StartGroup(g), es, 1)

(* Loading a file: a sequence of [group, entries]                            *)
Load(file) ==
    LET given(g) == {i \in 1..Len(file) : file[i].group = g}
        one(g)   == IF given(g) = {} THEN StartGroup(g)
                    ELSE LoadGroup(g, file[CHOOSE i \in given(g) : TRUE].entries)
        groups   == [g \in Groups |-> one(g)]
        bad      == \/ \E i \in 1..Len(file) : ~(file[i].group \in Groups)
                    \/ \E g \in Groups : groups[g].status # "ok"
    IN IF bad THEN [status |-> "rejected"]
       ELSE [status |-> "ok", vals |-> [g \in Groups |-> groups[g].vals]]

\* What the preparation stage is told: bounding and scaling are parts of automatic preprocessing
And(a, b) == IF a = "True" /\ b = "True" THEN "True" ELSE "False"
PrelimOf(v) == [max_perf |-> v.perf.max_perf, abs_perf |-> v.perf.abs_perf, epsilon |-> v.perf.epsilon,
                beta_threshold |-> v.perf.beta_threshold,
                bound |-> And(v.auto.preproc, v.bound.flag), norm |-> And(v.auto.preproc, v.norm.flag)]
=============================================================================
