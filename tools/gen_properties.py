#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SB, SR, ST = "instancespace/stage_builder.py", "instancespace/stage_runner.py", "instancespace/stages/"
IS, OPT, MD = "instancespace/instance_space.py", "instancespace/data/options.py", "instancespace/data/metadata.py"
SER, MOD = "instancespace/_serialisers.py", "instancespace/model.py"

# ---------------------------------------------------------------- orchestration
prop("C01", "Accepted pipelines have sound, complete running orders",
 "Whenever a set of stages is accepted, the running order it yields contains every added stage exactly once and nothing else, and every input a stage declares is either an initial input or an output of a stage placed in a strictly earlier step. This includes stages that declare no outputs or no inputs.",
 ["programs", "configurations"], "every set of stages (any inputs, outputs and ordering restrictions) and every set of initial inputs, whatever order the stages were added in",
 "The tests resolve one two-stage pipeline; the guarantee ranges over all dependency graphs.",
 [SB, SR], [("layered resolution", SB + ":_resolve_stages"), ("runnability re-check", SR + ":_check_stage_order_is_runnable")],
 ["StageBuilder.build", "order of StageRunner.run_iter"])
prop("C02", "A pipeline is refused exactly when it cannot run or its order is ambiguous",
 "Building a pipeline fails, with a stage-resolution error, exactly when some stage's inputs or ordering restrictions can never be satisfied, or two stages that become ready together produce the same value or both modify the same value; otherwise it succeeds. The verdict and the running order do not depend on the order in which stages were added or on earlier builds, building never changes the caller's description of the initial inputs, and adding a stage twice or declaring an ordering restriction as an output is refused without affecting the builder.",
 ["programs", "configurations", "histories"], "every set of stages, initial inputs, order of adding, and sequence of add/build calls on one builder",
 "Tests never build an unresolvable or ambiguous pipeline and never build twice.",
 [SB], [("resolution loop and ambiguity checks", SB + ":_resolve_stages,_mutating_stages_check"), ("duplicate check", SB + ":add_stage")],
 ["StageBuilder.add_stage", "StageBuilder.build"])
prop("C03", "Ordering restrictions and the modify-first rule are honoured",
 "Ordering declarations that can be satisfied never prevent a pipeline from being built; a stage declared to run before (after) another is then always placed in a strictly earlier (later) step than it, and the declaration is never handed to the stage as an input. A stage that both consumes and produces the same value runs as soon as it is ready and before any other stage that becomes ready at the same time and consumes that value.",
 ["programs", "configurations"], "every set of stages with any combination of before/after restrictions and value-modifying stages",
 "No test uses an ordering restriction or a modifying stage in a synthetic pipeline; the rules concern all graphs.",
 [SB, SR, ST + "stage.py"], [("restriction extraction", SB + ":_get_ordering_restrictions"), ("mutating rule", SB + ":_mutating_stages_check"), ("restriction stripping", SB + ":_strip_run_restriction_arguments")],
 ["running order", "inputs received by a stage"])
prop("C04", "A full run gives every stage the latest value of each of its inputs",
 "In a full run, each stage is executed exactly once in the resolved order and receives, for each input, the value produced by the last step before its own that produced it, or the initial value if none did; the run returns the initial values overlaid with all outputs. Running all at once, stage by stage through the iterator, or repeatedly on the same pipeline (also after partial, failed or overridden runs) gives the same results as a fresh run with the same initial values.",
 ["programs", "histories", "inputs"], "every accepted pipeline, every initial assignment and every preceding history of calls on the same runner",
 "One test runs one two-stage chain once; histories of calls on one runner are not sampled.",
 [SR, IS], [("argument store", SR + ":run_stage"), ("reset on full run", SR + ":run_all,run_iter")],
 ["StageRunner.run_all", "StageRunner.run_iter", "inputs received by stages"],
 [("available arguments", "current value of every name", SR), ("position", "next step", SR)])
prop("C05", "Single-stage runs are gated, restartable and discard stale results",
 "Running one stage is refused, with no effect, unless every stage of every earlier step has completed since the last time an earlier step was re-run. Re-running an already-run stage feeds it the values that were current when its step was first reached (never its own or later outputs), keeps the results of earlier steps and of its own step's other stages, and discards every later result so that later stages must run again before their dependants. Values passed explicitly to such a call take priority over stored ones for that call only.",
 ["histories", "programs"], "every accepted pipeline and every sequence of full, partial, single-stage and overridden runs on it",
 "One test re-runs one stage of a two-stage chain whose stages do not modify their own inputs.",
 [SR, IS], [("gating", SR + ":run_stage"), ("rollback", SR + ":_rollback_to_schedule_index"), ("progress", SR + ":_progress_schedule")],
 ["StageRunner.run_stage return values and errors", "inputs received by stages"],
 [("per-step snapshots", "values current before each step", SR)])
prop("C06", "Stages are isolated from each other, from the caller and from failures",
 "Nothing a stage does to the objects it receives is visible to any other stage, to the caller's initial values, to its own later re-runs or to explicitly passed values; only its returned outputs are. A stage that raises leaves the pipeline exactly as it was before the call, so it can be retried or the run restarted, and dictionaries handed to callers are not live views of the pipeline's state.",
 ["histories", "fault_sequences", "programs"], "every accepted pipeline whose stages modify received objects in place or raise at any step, in any history of calls",
 "No test has a stage that mutates its inputs in place or raises.",
 [SR], [("deep copy of inputs", SR + ":run_stage"), ("outputs recorded only after success", SR + ":run_stage")],
 ["initial values after the run", "inputs received by later stages", "returned dictionaries"])
prop("C07", "Running up to a stage runs that stage and everything its step needs, no more",
 "Running until a stage executes, in the resolved order, every step up to and including the step that contains that stage, executes nothing of later steps, and returns the initial values overlaid with the outputs produced. Continuing from there stage by stage gives the same results as one full run.",
 ["programs", "histories"], "every accepted pipeline, every stop stage, every preceding history",
 "No test calls it.",
 [SR, IS], [("partial run", SR + ":run_until_stage")], ["StageRunner.run_until_stage", "InstanceSpace.run_until_stage"])
prop("C08", "The instance-space facade mirrors its pipeline and its configuration",
 "The instance-space object hands each stage exactly the parsed metadata and the option group it was constructed with, refuses to expose a model before a complete build, and exposes after a build a model whose every field equals the corresponding pipeline output. Extra stages supplied by a caller take part in the pipeline like built-in ones, and constructing or running one instance space never affects another.",
 ["configurations", "histories"], "every metadata table, option set and list of plug-in stages, and every sequence of facade calls",
 "Tests check one construction from files; the mapping between outputs and model fields is exercised only by a hand-built model.",
 [IS, MOD, "instancespace/data/model.py"], [("initial inputs", IS + ":_InstanceSpaceInputs"), ("model assembly", MOD + ":from_stage_runner_output")],
 ["inputs received by stages", "InstanceSpace.model"])

# ---------------------------------------------------------------- configuration & metadata
prop("C10", "Option loading applies given values, defaults the rest, rejects the unknown",
 "Loading options keeps every supplied option value under its documented (MATLAB-compatible, case-insensitive) field name, fills every omitted field or group with its documented default, and ignores comment entries (the key \"_\" inside a group). Unknown groups, unknown fields and fields given twice under different spellings are rejected; an unreadable or malformed options file yields no options rather than partial ones, and options never influence later loads.",
 ["inputs", "configurations", "histories"], "every subset of groups and fields with any spelling of case and any legal value, in any order",
 "Tests load a few fixed files; combinations of omitted, aliased, unknown and duplicated fields are not explored.",
 [OPT, "instancespace/data/default_options.py"], [("field mapping", OPT + ":_load_dataclass"), ("defaults", OPT + ":default")],
 ["InstanceSpaceOptions.from_dict", "InstanceSpaceOptions.default", "from_json_file"])
prop("C11", "Metadata columns are classified by name, in order, without loss",
 "Every metadata column whose name starts with the feature (algorithm) keyword in any case becomes exactly one feature (algorithm), in file order, with its values row for row; the instance and optional source columns provide labels and sources in the same row order, numeric labels become text, and any other column is ignored. This holds for any number of rows, including one, any column order and missing cells; an unreadable file yields no metadata.",
 ["inputs"], "every table obeying the naming convention, of any size and column order",
 "Tests load two fixed files.",
 [MD], [("column partition", MD + ":from_data_frame")], ["Metadata.from_data_frame", "from_csv_file"])

# ---------------------------------------------------------------- preprocessing
prop("C12", "Selected features and algorithms are kept with their own columns",
 "When the user names features or algorithms to use, exactly the named ones that exist are kept, in the original column order, and each kept name stays attached to its own column of values. When no name matches, or none are given, everything is kept.",
 ["inputs", "configurations"], "every table and every selection list (any order, duplicates, unknown names, empty)",
 "Tests use a few fixed selections on one table.",
 [ST + "preprocessing.py"], [("manual selection", ST + "preprocessing.py:select_features_and_algorithms")], ["PreprocessingStage._run output"])
prop("C13", "Missing-data removal drops exactly the specified rows and columns",
 "Preprocessing removes exactly the instances that have no feature value at all or no performance value at all, and then exactly the features missing on at least 20% of the remaining instances. Features, performances, labels and sources of the survivors keep their values, order and row-by-row correspondence, and feature names keep matching feature columns.",
 ["inputs"], "every table with any pattern of missing cells of which at least one instance survives, any label index, with or without sources",
 "Tests check a few patterns; alignment across all patterns and boundary proportions is not sampled.",
 [ST + "preprocessing.py"], [("row/column washing", ST + "preprocessing.py:remove_instances_with_many_missing_values")], ["PreprocessingStage._run output"])

# ---------------------------------------------------------------- prelim
prop("C20", "Good performance, best algorithm and easiness follow the performance rule",
 "For every instance the best value is the maximum (efficiency) or minimum (cost) over algorithms with a known value, the best algorithm is the first one attaining it, and an algorithm is good exactly if its known value reaches the absolute threshold, or lies within the given fraction of the best in relative mode; an algorithm without a value is never good or best while another has one. The number of good algorithms is their count, and an instance is easy exactly when that count exceeds the configured fraction (below one) of the portfolio.",
 ["inputs", "configurations"], "every performance table (non-negative values for the relative rule), with ties, zeros and missing entries, and every performance option",
 "Tests compare a few fixed tables; ties, thresholds met exactly, zeros and missing values are barely sampled.",
 [ST + "prelim.py"], [("labelling", ST + "prelim.py:_prelim"), ("ties and easiness", ST + "prelim.py:_select_best_algorithms")], ["PrelimStage._run output", "PrelimStage.prelim"])
prop("C21", "Outlier bounding clips to median plus or minus five interquartile ranges",
 "The reported median, interquartile range and bounds of each feature are those of the unbounded data, and with bounding enabled every feature value outside the bounds is replaced by the nearer bound while every other value is unchanged; with bounding disabled values are untouched. Each feature is treated independently of the others.",
 ["inputs", "configurations"], "every feature table without missing cells and every combination of the automatic, bounding and normalisation switches",
 "Tests compare two fixed matrices.",
 [ST + "prelim.py"], [("bounding", ST + "prelim.py:_bound")], ["PrelimStage.prelim"])
prop("C22", "Normalisation is an order-preserving standardisation of every column",
 "With normalisation enabled every feature and performance column that is not constant (after bounding) ends up with mean 0 and sample standard deviation 1 and its values keep their order and ties; the reported minimum, mean, deviation and power parameter reproduce the normalised values from the input ones. With normalisation disabled (or automatic preprocessing off) feature values are only bounded, never rescaled, and the raw tables are passed on unchanged in every case.",
 ["inputs", "configurations"], "every feature and performance table and every combination of the automatic, bounding and normalisation switches",
 "Tests compare against one reference run.",
 [ST + "prelim.py", OPT], [("normalisation", ST + "prelim.py:_normalise"), ("switches", OPT + ":PrelimOptions.from_options")], ["PrelimStage._run output"])
prop("C23", "Taking a subset of instances keeps all per-instance data aligned",
 "When the run is restricted to a subset of instances (a random fraction, a list of 1-based indices from a file, or a density filter), exactly the chosen instances remain, in the original order, and features, performances, raw values, labels, sources, goodness, best values, best algorithms, counts and easiness all describe the same instances; without a subset option all remain. The density option additionally keeps the complete data set as it was before the restriction.",
 ["inputs", "configurations"], "every data set and every subset option and index list (first, last, repeated, out-of-range, single)",
 "Tests check two fixed subsets and not the labels handed to later stages.",
 [ST + "prelim.py"], [("subset", ST + "prelim.py:_filter")], ["PrelimStage._run output"])
prop("C24", "Similarity filtering keeps a cover of mutually dissimilar instances",
 "Scanning instances in order, an instance is excluded exactly when some earlier retained instance lies within the minimum feature distance and, depending on the chosen criterion, is also close in performance and/or both have every algorithm good; it is flagged as similar when some earlier retained instance is within the feature distance, and as an exception when that similarity did not lead to exclusion. The first instance is always retained, every excluded instance is similar to a retained one, and the reported uniformity is one minus the coefficient of variation of nearest-neighbour distances among the retained.",
 ["inputs", "configurations"], "every feature and performance table, goodness table, criterion and distance, including distances met exactly and duplicates",
 "Tests compare fixed data for each criterion.",
 ["instancespace/utils/filter.py"], [("greedy filter", "instancespace/utils/filter.py:filter_instance"), ("uniformity", "instancespace/utils/filter.py:compute_uniformity")], ["filter_instance", "do_filter"])

# ---------------------------------------------------------------- sifted
prop("C30", "Correlation screening keeps the best features for each algorithm",
 "Feature screening keeps, for every algorithm, the feature most correlated in absolute value with its performance, and every other feature whose significant absolute correlation with it reaches the threshold, and drops all others; correlations that are not statistically significant count as zero. Kept columns preserve their values and order, and names and reported indices refer to exactly those columns.",
 ["inputs", "configurations"], "every feature and performance table and threshold",
 "Tests compare one reference data set and threshold.",
 [ST + "sifted.py"], [("screening", ST + "sifted.py:select_features_by_performance")], ["SiftedStage output"])
prop("C31", "Feature selection returns a consistent, non-redundant subset of the features",
 "After feature selection the feature matrix consists of exactly the named features, each name still attached to its own column, and the reported selection indices recover the same columns and names from the input. Exactly one feature is taken from each cluster of correlated features, the combination taken is the one with the lowest prediction error among those tried, and features are never invented, duplicated or reordered away from their names; with selection disabled or at most three features in the input nothing is dropped, and with at most three features left after screening none of those is.",
 ["inputs", "configurations"], "every feature table, portfolio, threshold, cluster count and search setting",
 "Tests compare sub-steps on one data set; the alignment between stages is never checked.",
 [ST + "sifted.py"], [("clustering and combination search", ST + "sifted.py:sifted,find_best_combination")], ["SiftedStage._run output"])

# ---------------------------------------------------------------- pilot / cloister
prop("C40", "The reported projection is the one applied to the instances",
 "The two-dimensional coordinates of every instance equal its feature vector times the reported projection matrix, which is also the content of the summary table under the right feature names, and the reported reconstruction matrices, error and per-column fit are those of that projection on the given features and performances. With the analytic method the reconstruction directions are two leading orthonormal principal directions of features and performances together, and the projection is the least-squares map onto them. This holds for the analytic and the numerical method, for one or several attempts, and for user-supplied starting points or solutions.",
 ["inputs", "configurations"], "every feature and performance table without missing cells whose features are linearly independent, of any size, and every projection option",
 "Tests compare two reference data sets.",
 [ST + "pilot.py"], [("projection", ST + "pilot.py:pilot,analytic_solve,numerical_solve")], ["PilotStage._run output"])
prop("C41", "The numerical projection keeps the best attempt",
 "Among the numerical attempts the one whose projected distances correlate best with the original distances is returned, the reported per-attempt scores are in attempt order, and the solution depends only on the data, the options and the random seed, not on earlier runs.",
 ["inputs", "configurations", "histories"], "every data set, number of attempts and set of starting points",
 "Tests check one data set.",
 [ST + "pilot.py"], [("attempt selection", ST + "pilot.py:numerical_solve")], ["PilotStage._run output"])
prop("C90", "The numerical projection is a stationary point of the approximation error",
 "For every starting point, given or drawn, the matrices the numerical projection ends with are, up to the (half) precision in which they are reported, a stationary point of the documented approximation error: the mean over instances of the mean squared difference between the instance's known features and performances and their reconstruction. The reported projection and reconstruction matrices are those of one of the attempts.",
 ["inputs", "configurations"], "every feature and performance table (performances may be missing), number of attempts and set of starting points", "Tests compare one reference solution.", [ST + "pilot.py"], [("BFGS", ST + "pilot.py:numerical_solve,error_function")], ["PilotStage._run output"])
prop("C42", "The boundary estimate is the projection of every feasible feature corner",
 "The outer boundary is the convex hull of the projections of all combinations of per-feature minima and maxima; the tighter boundary is the hull of those combinations that are not ruled out by a strongly correlated pair of features (strong positive correlation rules out opposite extremes, strong negative rules out equal extremes, insignificant correlation rules out nothing). Every instance lies inside the outer boundary, the tighter boundary is contained in it, and when too few combinations remain the outer boundary is reported instead.",
 ["inputs", "configurations"], "every feature table, projection, correlation threshold and significance level",
 "Tests compare one reference data set.",
 [ST + "cloister.py"], [("corner enumeration", ST + "cloister.py:generate_boundaries"), ("correlation pruning", ST + "cloister.py:cloister")], ["CloisterStage._run output"])

# ---------------------------------------------------------------- pythia
prop("C50", "The recommended algorithm is a predicted-good one with the best track record",
 "For every instance the recommended algorithm is, among the algorithms predicted to be good, one with the highest reported precision (which must be positive), and none (index -1) when no such algorithm is predicted good; the fall-back recommendation equals the recommendation where there is one and is otherwise the algorithm that is good on most instances. Portfolio-level precision, recall and probability of good and the selector's average performance in the summary describe exactly these recommendations.",
 ["inputs", "configurations"], "every combination of predictions, precisions and true goodness over any number of instances and algorithms",
 "Tests compare one reference data set.",
 [ST + "pythia.py"], [("recommendation", ST + "pythia.py:determine_selections,generate_summary")], ["PythiaStage._run output"])
prop("C51", "Reported prediction quality matches the predictions and the truth",
 "For each algorithm the reported confusion counts, accuracy, precision and recall are consistent with the predictions the stage reports and the true goodness labels, every instance is predicted exactly once in cross-validation, and the summary table lists them under the right algorithm together with the fraction of instances on which it is good and the mean and (population) deviation of the real performance over all instances and over the instances on which it is predicted good. The reported predictions are those of the reported models, with the reported or given hyper-parameters, kernel and instance weights.",
 ["inputs", "configurations"], "every goodness table (including all-good and all-bad algorithms), projection and option set",
 "Tests compare one reference data set with large tolerances.",
 [ST + "pythia.py"], [("training and scoring", ST + "pythia.py:run,fitmatsvm"), ("summary", ST + "pythia.py:generate_summary")], ["PythiaStage._run output"])

# ---------------------------------------------------------------- trace
prop("C60", "Footprint statistics describe the footprint's region and its instances",
 "Each footprint's element count, good-element count, area, density and purity equal those recomputed from its region and the instance coordinates and labels, with the good elements among the elements and purity their ratio; an empty footprint has zero statistics. The summary table lists every algorithm once, in order, with its own good and best footprints' area and density, raw and normalised by the whole space, and purity.",
 ["inputs", "configurations"], "every set of instance coordinates (including coincident and collinear), goodness labels and best-algorithm assignment",
 "Tests compare one reference data set.",
 [ST + "trace.py"], [("footprint construction", ST + "trace.py:build,fit_poly"), ("summary", ST + "trace.py:summary")], ["TraceStage._run output"])
prop("C61", "Footprints are built from the right algorithm's own evidence",
 "The good footprint of an algorithm is built only from instances where that algorithm is labelled good (by truth or by prediction, as configured), its best footprint only from instances where it is the best (or recommended) algorithm, the whole-space footprint from all instances and the hard footprint from the non-easy ones. Every elementary region kept has at least the configured purity, and too few or degenerate evidence gives an empty footprint instead of an error.",
 ["inputs", "configurations"], "every labelling, purity threshold, number of algorithms and choice of true or simulated labels",
 "Tests compare one reference data set; indexing across stages is not checked.",
 [ST + "trace.py"], [("evidence selection", ST + "trace.py:trace,process_algorithm"), ("purity pruning", ST + "trace.py:fit_poly,tight")], ["TraceStage._run output"])
prop("C62", "Best footprints of different algorithms do not contradict each other",
 "After construction, wherever the best footprints of two algorithms overlapped, the overlap is removed from the one whose evidence in the overlap is weaker (from neither when equal within the rule), so that no footprint grows and no third footprint changes; statistics are those of the reduced footprints.",
 ["inputs"], "every pair and sequence of overlapping footprints",
 "Tests check one simple overlap.",
 [ST + "trace.py"], [("contradiction removal", ST + "trace.py:contra")], ["TraceStage.contra", "TraceStage._run output"])
prop("C63", "Parallel footprint construction equals sequential construction",
 "The footprints, their order and the summary do not depend on the number of worker threads or on the order in which workers start or finish, and a failing worker surfaces as an error rather than a missing or misplaced footprint.",
 ["schedules", "configurations", "fault_sequences"], "every number of algorithms, worker count and completion order of workers",
 "Tests run with one schedule decided by the machine.",
 [ST + "trace.py"], [("thread pool with index-addressed results", ST + "trace.py:parallel_processing")], ["TraceStage._run output under controlled schedules"])
prop("C64", "Density clustering follows its definition",
 "For a radius and a count k, a point is a core when at least k + 1 points (itself included) lie within the radius (inclusive). Two points share a cluster exactly when steps no longer than the radius connect them within a group of points that contains a core (the reference rule, which passes through points that are no cores); clusters are numbered from 1 without gaps, and all points outside such groups are noise (negative). Footprints use a twentieth of the evidence's size, rounded up, at least 3 and at most 50, as k, and the radius of a disc that would hold k of the distinct points spread evenly over their bounding box.",
 ["inputs"], "every point set (any size, duplicates, collinear), radius and minimum count",
 "Tests compare one reference clustering.",
 [ST + "trace.py"], [("clustering", ST + "trace.py:run_dbscan")], ["cluster labels"])

# ---------------------------------------------------------------- export
prop("C70", "Exported tables carry each instance's own values under the right headings",
 "Every exported csv table has one row per instance in the model's order (per algorithm for the summaries, per boundary point for bounds and footprints), labelled with the right instance or algorithm, and one column per selected feature, algorithm or coordinate under its own name, with the values stored in the model; raw features are restricted to the selected ones. Every non-empty footprint has a table listing, part by part, the outline points of the right algorithm's good or best footprint; an empty footprint has no points. The mat export lists the algorithm names in order.",
 ["inputs", "configurations"], "every model produced by a pipeline, with any labels, selected features, and empty or multi-part footprints",
 "Tests compare one hand-loaded model.",
 [SER], [("csv writer", SER + ":save_instance_space_to_csv")], ["csv files written by Model.save_to_csv"])
prop("C71", "Web colour tables are order-preserving 0-255 scalings",
 "The web export's colour tables contain for every cell an integer between 0 and 255 that is monotone in the exported value (per column, or over the whole table for the global tables), reaching 0 and 255 at the extremes, labelled like the value tables and written for features, performances and goodness alike, also when a column is constant.",
 ["inputs"], "every feature and performance table, including constant, negative and widely scaled columns",
 "Tests compare one hand-loaded model.",
 [SER], [("colour scaling", SER + ":_colour_scale,_colour_scale_g"), ("web export", SER + ":save_instance_space_for_web")], ["csv files written by Model.save_for_web"])
prop("C72", "Saving is repeatable, complete and leaves the model unchanged",
 "Saving a model in any format, any number of times and in any order, does not change the model, so repeated saves write the same content. Each format writes only its own files and leaves all others alone. The archive contains every other file of the output directory and its subdirectories (except .gitignore) exactly once with its content, and never itself. A missing output directory is refused by the csv, web and graph exports.",
 ["histories", "inputs"], "every sequence of save calls on one model and every content of the output directory",
 "Tests save each format once.",
 [SER, MOD], [("writers", SER), ("archive", MOD + ":save_zip")], ["output directory contents", "model fields before and after"])

prop("C73", "Graphs show every instance at its place with its own value",
 "The graph export writes one plot per feature, the five plots per algorithm, and the overall plots, with the source plot exactly when sources exist. In each plot every instance appears exactly once at its own coordinates: coloured by its feature value or performance scaled to 0-1 in an order-preserving way (over its own column, or over all algorithms for the global plots), or in the group that its goodness, prediction, easiness, best or recommended algorithm (or none) or source puts it in, under the right name. Footprints drawn are those of the plotted algorithm.",
 ["inputs", "configurations"], "every model, with and without sources, with simulated or true labels, constant columns, empty or multi-part footprints, algorithms recommended nowhere or everywhere",
 "Tests only check that files exist.",
 [SER], [("graphs", SER + ":save_instance_space_graphs")], ["matplotlib figures when saved"])

# ---------------------------------------------------------------- whole pipeline
prop("C80", "A complete run is row-aligned, deterministic and repeatable",
 "For any valid metadata and options, every per-instance output of a complete run has one entry per retained instance, in the same order as the retained labels, every per-feature (per-algorithm) output has one entry per selected feature (algorithm) in the order of the names, and each instance's values can be traced back to its own metadata row. Running the same inputs again, on the same or a fresh instance space, in another process, with its stages listed in another order or with another number of workers, gives identical outputs.",
 ["inputs", "configurations", "histories"], "every metadata table and option set accepted by the pipeline, with any combination of removal, selection and subset options",
 "No test runs the complete pipeline.",
 [IS, ST], [("stage input/output naming", ST + "*.py")], ["InstanceSpace.build output"])
prop("C91", "Prediction models generalise",
 "The trained selectors perform better than chance on unseen instances drawn from the same distribution.",
 ["inputs"], "every data set", "Statistical property.", [ST + "pythia.py"], [("SVM training", ST + "pythia.py:fitmatsvm")], ["PythiaStage output"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
