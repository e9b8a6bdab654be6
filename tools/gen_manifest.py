#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
MC = "model_checking"
TRUST = ("Trusts TLC, the projection of real objects to ids, ranks or scaled integers in harness/, and "
         "that inputs outside the generated family behave alike. ")
CHECKS = {
 "C01": ("TLA+ model of stage resolution (Builder.tla) checked by TLC; builds of the real builder validated against it", "Spec exhaustively checked for all 3-stage/2-value pipelines; real code compared on all 2-stage pipelines and thousands of random larger ones. "),
 "C02": ("TLA+ model of stage resolution; verdicts of real builds and add/build histories validated against it by TLC", "As C01; verdict, independence of history and preservation of the caller's set are decided per observed build. "),
 "C03": ("TLA+ model of ordering restrictions and the modify-first rule; real orders validated against declarative clauses by TLC", "As C01, plus observed executions for what is handed to stages. "),
 "C04": ("TLA+ model of the runner (Runner.tla) model-checked; provenance-tagged call histories of the real runner replayed through it by TLC", "Spec: all histories to depth 5-7 on all small pipelines; code: thousands of random histories with unique value ids. "),
 "C05": ("TLA+ runner model: gating, snapshots and rollback; real call histories replayed through it by TLC", "As C04. "),
 "C06": ("TLA+ runner model; real histories with in-place changes, failures and tampering replayed through it by TLC", "As C04; fault points are every stage execution. "),
 "C07": ("TLA+ runner model; real partial runs and hand continuations replayed through it by TLC", "As C04. "),
 "C08": ("TLA+ model of the facade (Facade.tla: build, partial runs, model exposure); real call histories replayed through it by TLC", "Spec: all facade histories to the bound; code: random histories of facade calls with stub stages and every model field compared. "),
 "C10": ("TLA+ model of option loading (Config.tla); real loads of random option trees validated against it by TLC", "Spec: all loads of a small schema; code: thousands of random trees over the real schema, with histories. "),
 "C11": ("TLA+ model of metadata column classification (Metadata.tla); real loads validated against it by TLC", "Spec: all small tables; code: thousands of random tables and files. "),
 "C12": ("TLA+ model of manual selection (Preproc.tla); real selections validated against it by TLC", "Spec: all small selections; code: thousands of random tables and lists. "),
 "C13": ("TLA+ model of missing-data removal (Preproc.tla); real results validated against it by TLC", "Spec: all missing patterns of small tables; code: thousands of random patterns incl. exact proportions. "),
 "C20": ("TLA+ model of the performance rule (Prelim.tla) on ranks and exact rationals; real outputs validated against it by TLC", "Spec: all small tables; code: thousands of random tables with ties, exact thresholds and missing values. "),
 "C21": ("TLA+ model of bounding in exact arithmetic (Prelim.tla); real outputs validated against it by TLC", "Quartiles and bounds recomputed exactly from integer tables. "),
 "C22": ("TLA+ model of standardisation as order, mean and deviation clauses (Prelim.tla); real outputs validated by TLC", "Fixed-point: values in units of 1e-3 or finer, tolerances from rounding. "),
 "C23": ("TLA+ model of restricting an instance table (Subset.tla); real restrictions validated against it by TLC", "Every per-instance field compared by row id. "),
 "C24": ("TLA+ state machine of the greedy similarity filter (Filter.tla), model-checked for the cover property; real runs validated by TLC", "Spec: all small tables; code: thousands of random integer tables with distances met exactly. "),
 "C30": ("TLA+ model of correlation screening in exact integer arithmetic (Sifted.tla); real selections validated by TLC", "Significance by tabulated critical values; thresholds met exactly by ranks. "),
 "C31": ("TLA+ model of one-per-cluster selection (Sifted.tla); real runs with observed search validated by TLC", "The projection inside the search is replaced by a cheap one to observe each tried combination; clusters and scores are judged by the specification. "),
 "C40": ("TLA+ model of the reported projection in fixed-point arithmetic (Pilot.tla); real projections validated by TLC", "Integer tables; products, errors and fits recomputed in the specification with tolerances derived from rounding. "),
 "C41": ("TLA+ model of keeping the best of several attempts (Pilot.tla), model-checked; real multi-attempt runs validated by TLC", "Scores recomputed from the reported attempts. "),
 "C90": ("TLA+ definition of the error's slopes (Pilot.tla), checked by TLC against exact central differences on all small tables; solutions of the real search validated by TLC", "Slopes recomputed in fixed point from every reported attempt; what half precision explains is tolerated. "),
 "C42": ("TLA+ model of corner enumeration, pruning and convex boundaries in exact integer arithmetic (Cloister.tla); real boundaries validated by TLC", "Orientation and containment decided exactly on integers. "),
 "C50": ("TLA+ model of recommendation from predictions and precisions (Pythia.tla), model-checked; real runs validated by TLC", "Spec: all small prediction tables; code: thousands of runs with training replaced by arbitrary fixed predictions, and real trainings. "),
 "C60": ("TLA+ model of footprint statistics over reported regions (Footprints.tla); real runs validated by TLC", "Every number recomputed on integers from the reported outline, the instances and the labels; the summary from the footprints. "),
 "C61": ("TLA+ model of regions built from clusters, hulls and pure elementary pieces (Footprints.tla, Dbscan.tla); real runs validated by TLC", "Regions rebuilt exactly where the geometry is not borderline; otherwise containment in the evidence's hull and emptiness. "),
 "C62": ("TLA+ model of contradiction removal (FootprintsMC.tla), model-checked; real removals and runs validated by TLC", "Spec: all small cell footprints of three algorithms; code: thousands of pairs of cell footprints and complete runs. "),
 "C63": ("TLA+ model of the worker pool (Pool.tla) model-checked for every schedule and failure; real pools driven through chosen schedules validated by TLC", "Spec: all interleavings of 3-4 tasks and workers; code: hundreds of controlled schedules with injected failures. "),
 "C64": ("TLA+ model of density clusters (Dbscan.tla) model-checked on all small neighbourhood graphs; real clusterings validated by TLC", "Spec: all graphs of 5-6 points; code: thousands of random point sets with radii met exactly. "),
 "C70": ("TLA+ definition of every exported table as a function of the model (Export.tla); real exports read back and validated by TLC", "Every cell, label and heading of every table compared on integers; footprint tables parsed as outlines. "),
 "C71": ("TLA+ definition of order-preserving scalings (Export.tla), both roundings checked by TLC; real colour tables validated by TLC", "Every cell of every colour table against the exported values. "),
 "C72": ("TLA+ model of saving into a shared directory (Export.tla, ExportMC.tla), model-checked; real save and archive histories validated by TLC", "Spec: all histories of 4-6 operations; code: hundreds of random histories, model digests before and after. "),
 "C73": ("TLA+ definition of every plot as groups or coloured points (Export.tla); real figures inspected when written and validated by TLC", "Rendering itself is replaced; axis ranges are not examined. "),
 "C80": ("TLA+ model of the pipeline as a flow of tables (Pipeline.tla), model-checked for alignment; complete real runs, repeated in and across processes, validated by TLC", "Spec: all choices on 3 rows; code: dozens to hundreds of complete runs; equality of runs by digest of every output, on this machine. "),
 "C51": ("TLA+ model of confusion counts, quality fractions and the summary (Pythia.tla); real runs validated by TLC", "Quality compared as exact fractions; the reported models and their fold copies are asked to predict again. "),
}
NA = {
 "C91": "A statistical statement about unseen data; a finite-state specification cannot decide it.",
}
PENDING = "Not claimed yet: its check is still being built."
import re
DONE = set(re.findall(r'"(C\d+)": "c_', (ROOT / 'harness/run.py').read_text()))
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS and i in DONE:
        tech, note = CHECKS[i][:2]
        level = CHECKS[i][2] if len(CHECKS[i]) > 2 else MC
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
                       "technique": tech, "level": level, "level_note": note + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "All checks: TLA+ specifications in spec/, decided by TLC; harness/ drives the real code. No hooks in /repo."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not applicable")
