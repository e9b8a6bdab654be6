"""C08: calls on real InstanceSpace objects with stub stages, against spec/Facade.tla."""
from __future__ import annotations

import copy
import dataclasses
import json
import shutil
import tempfile
from pathlib import Path
from typing import Any, NamedTuple

import numpy as np
import pandas as pd
from numpy.typing import NDArray

from common import Checker, limit, pick, quiet

from instancespace.data import options as O
from instancespace.data.metadata import Metadata, from_csv_file
from instancespace.instance_space import (InstanceSpace, instance_space_from_directory,
                                          instance_space_from_files)
from instancespace.stage_builder import StageResolutionError
from instancespace.stage_runner import StageRunningError
from instancespace.stages.stage import Stage

TYPES = {"feature_names": list[str], "algorithm_names": list[str], "instance_labels": pd.Series,
         "instance_sources": pd.Series | None, "features": NDArray[np.double],
         "algorithms": NDArray[np.double], "parallel_options": O.ParallelOptions,
         "perf_options": O.PerformanceOptions, "auto_options": O.AutoOptions,
         "bound_options": O.BoundOptions, "norm_options": O.NormOptions,
         "selvars_options": O.SelvarsOptions, "sifted_options": O.SiftedOptions,
         "pilot_options": O.PilotOptions, "cloister_options": O.CloisterOptions,
         "pythia_options": O.PythiaOptions, "trace_options": O.TraceOptions,
         "outputs_options": O.OutputOptions, "prelim_options": O.PrelimOptions}
GROUPS = ["parallel", "perf", "auto", "bound", "norm", "selvars", "sifted", "pilot", "cloister",
          "pythia", "trace", "outputs"]
MODEL_OUTPUTS = (
    "inst_labels feat_labels algo_labels x y x_raw y_raw y_bin y_best p num_good_algos beta s idx "
    "med_val iq_range hi_bound lo_bound min_x lambda_x mu_x sigma_x min_y lambda_y sigma_y mu_y selvars "
    "rho pval silhouette_scores clust X0 alpha eoptim perf a z c b error r2 pilot_summary z_edge z_ecorr "
    "mu sigma cp svm cvcmat y_sub y_hat pr0_sub pr0_hat box_consnt k_scale precision recall accuracy "
    "selection0 selection1 pythia_summary space good best hard trace_summary").split()


class Boom(Exception):
    pass


def make_metadata(rng, tag):
    n, f, a = rng.randint(1, 4), rng.randint(1, 3), rng.randint(1, 3)
    src = pd.Series([f"s{tag}{i}" for i in range(n)], name="Source") if rng.random() < 0.6 else None
    return Metadata([f"feature_{tag}_{i}" for i in range(f)], [f"algo_{tag}_{i}" for i in range(a)],
                    pd.Series([f"i{tag}{i}" for i in range(n)], name="Instances"), src,
                    np.arange(n * f, dtype=float).reshape(n, f) + 100 * tag,
                    np.arange(n * a, dtype=float).reshape(n, a) + 1000 * tag + 0.5)


def make_options(rng, tag):
    """Every group of every facade differs from the other facade's where it has room to."""
    b = [rng.random() < 0.5 for _ in range(20)]
    t = tag
    return O.InstanceSpaceOptions.default(
        parallel=O.ParallelOptions(b[0], 2 + t),
        perf=O.PerformanceOptions(b[1], b[2], 0.1 * t, 0.5 + 0.1 * t),
        auto=O.AutoOptions(b[3]), bound=O.BoundOptions(b[4]), norm=O.NormOptions(b[5]),
        selvars=O.SelvarsOptions.default(feats=[f"q{t}"], min_distance=0.5 + t),
        sifted=O.SiftedOptions.default(k=3 + t, flag=b[6]),
        pilot=O.PilotOptions.default(analytic=b[7], n_tries=3 + t),
        cloister=O.CloisterOptions(0.01 * t, 0.5 + 0.1 * t),
        pythia=O.PythiaOptions.default(cv_folds=2 + t, use_weights=b[8]),
        trace=O.TraceOptions(b[9], 0.5 + 0.1 * t), outputs=O.OutputOptions(b[10], b[11], b[12]))


def initial_values(m, o):
    v = {"feature_names": m.feature_names, "algorithm_names": m.algorithm_names,
         "instance_labels": m.instance_labels, "instance_sources": m.instance_sources,
         "features": m.features, "algorithms": m.algorithms}
    for g in GROUPS:
        v[f"{g}_options"] = getattr(o, g)
    v["prelim_options"] = O.PrelimOptions(
        max_perf=o.perf.max_perf, abs_perf=o.perf.abs_perf, epsilon=o.perf.epsilon,
        beta_threshold=o.perf.beta_threshold, bound=o.auto.preproc and o.bound.flag,
        norm=o.auto.preproc and o.norm.flag)
    return v


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and bool(np.array_equal(a, b, equal_nan=True))
    if isinstance(a, pd.Series):
        return a.equals(b) and a.name == b.name
    if dataclasses.is_dataclass(a):
        return all(same(getattr(a, f.name), getattr(b, f.name)) for f in dataclasses.fields(a))
    return a == b


def spoil(v):
    if isinstance(v, np.ndarray) and v.size:
        v.flat[0] = -7
    elif isinstance(v, list):
        v.append("spoiled")
    elif isinstance(v, pd.Series) and len(v):
        v.iloc[0] = "spoiled"


class World:
    def __init__(self, rng, values):
        self.rng, self.values = rng, values   # values[i]: name -> object
        self.log, self.clock, self.fail_at, self.current = [], 1000, None, 0
        self.spoil = rng.random() < 0.4

    def read(self, name, v):
        if isinstance(v, list) and len(v) == 1 and isinstance(v[0], int):
            return v[0]
        if name in TYPES:
            for i in (self.current, 1 - self.current):
                if same(v, self.values[i][name]):
                    return (i + 1) * 100 + list(TYPES).index(name) + 1
        return -1

    def stage(self, sid, inp, out, types):
        In = NamedTuple("In", [(n, types[n]) for n in inp])
        Out = NamedTuple("Out", [(n, types[n]) for n in out])

        def run(inputs):
            ev = {"s": sid, "ins": {n: self.read(n, v) for n, v in inputs._asdict().items()},
                  "outs": {}, "fail": False}
            self.log.append(ev)
            if self.spoil:
                for v in inputs:
                    spoil(v)
            if self.fail_at == sid:
                self.fail_at = None
                ev["fail"] = True
                raise Boom
            outs = {}
            for n in out:
                self.clock += 1
                ev["outs"][n] = self.clock
                outs[n] = [self.clock]
            return Out(**outs)
        return type(f"Stub{sid}", (Stage,), {"_inputs": staticmethod(lambda: In),
                                             "_outputs": staticmethod(lambda: Out),
                                             "_run": staticmethod(run)})


def random_stages(rng):
    n = rng.randint(2, 7)
    outs = [[] for _ in range(n)]
    pool = MODEL_OUTPUTS[:]
    rng.shuffle(pool)
    extra = [f"plug{i}" for i in range(rng.choice([0, 0, 1, 2]))]
    for name in pool + extra:
        outs[rng.randrange(n)].append(name)
    inps, avail = [], []
    for s in range(n):
        k = rng.choice([1, 2, 4, 8, 19])
        pick_init = rng.sample(list(TYPES), min(k, 19))
        pick_prev = rng.sample(avail, min(len(avail), rng.choice([0, 1, 3, 6])))
        inps.append(pick_init + pick_prev)
        avail = avail + outs[s]
    types = {**TYPES, **{m: list[int] for m in MODEL_OUTPUTS + extra}}
    return n, inps, outs, types, MODEL_OUTPUTS + extra


def model_ids(world, model):
    res = {}
    for g in ("data", "feat_sel", "prelim", "sifted", "pilot", "cloister", "pythia", "trace"):
        part = getattr(model, g)
        for f in dataclasses.fields(part):
            res[f"{g}.{f.name}"] = world.read("", getattr(part, f.name))
    return res


def history(rng, nops):
    n, inps, outs, types, names = random_stages(rng)
    metas = [make_metadata(rng, 1), make_metadata(rng, 2)]
    opts = [make_options(rng, 1), make_options(rng, 2)]
    if rng.random() < 0.2:
        metas[1] = metas[0]
    if rng.random() < 0.2:
        opts[1] = opts[0]
    values = [initial_values(m, o) for m, o in zip(metas, opts)]
    keep = copy.deepcopy(values)
    world = World(rng, keep)
    stages = [world.stage(s + 1, inps[s], outs[s], types) for s in range(n)]
    order = stages[:]
    rng.shuffle(order)
    spaces, created, probes = [], [], []
    probe = world.stage(n + 1, ["unused_extra", "features"], ["probed"], types | {"unused_extra": int, "probed": list[int]})

    def construct(i, extra, probing):
        """Other spaces of the same stages, with or without further initial inputs or a stage that needs one."""
        mine = order + [probe] if probing else list(order)
        if rng.random() < 0.5:
            rng.shuffle(mine)
        given = list(mine)
        ty = NamedTuple("Extra", [("unused_extra", int)]) if extra else None
        try:
            return InstanceSpace(metas[i], opts[i], stages=given, additional_initial_inputs_type=ty), given == mine
        except StageResolutionError:
            return None, given == mine
        except Exception:  # noqa: BLE001
            return None, False

    def probe_some():
        for _ in range(rng.choice([0, 0, 1, 2])):
            extra, probing = rng.random() < 0.5, rng.random() < 0.7
            sp, kept = construct(rng.randrange(2), extra, probing)
            probes.append({"extra": extra, "probing": probing, "got": sp is not None, "kept": kept})

    for i in range(2):
        probe_some()
        sp, kept = construct(i, rng.random() < 0.3, False)
        spaces.append(sp)
        created.append(sp is not None and kept)
    probe_some()
    start = []
    for i in range(2):
        world.current = i
        start.append({nm: world.read(nm, keep[i][nm]) for nm in TYPES})
    ops = []
    cid = {id(s): k + 1 for k, s in enumerate(stages)}
    for _ in range(nops if all(created) else 0):
        i = rng.randrange(2)
        sp = spaces[i]
        world.current, world.log = i, []
        kind = rng.choices(["build", "model", "iter", "until", "stage"], [4, 3, 1, 1, 3])[0]
        o: dict[str, Any] = {"f": i + 1, "op": kind, "stage": 0, "over": {}, "take": -1, "yields": [],
                             "err": "none", "res": {}, "model": {}, "opts_ok": True}
        world.fail_at = rng.randint(1, n) if rng.random() < 0.15 else None
        try:
            with limit(10):
                if kind == "build":
                    m = sp.build()
                    o["model"], o["opts_ok"] = model_ids(world, m), same(m.opts, opts[i])
                elif kind == "model":
                    m = sp.model
                    o["model"], o["opts_ok"] = model_ids(world, m), same(m.opts, opts[i])
                elif kind == "until":
                    o["stage"] = rng.randint(1, n)
                    r = sp.run_until_stage(stages[o["stage"] - 1])
                    o["res"] = {k: world.read(k, v) for k, v in r.items()}
                elif kind == "iter":
                    o["take"] = -1 if rng.random() < 0.6 else rng.randint(1, n)
                    it = sp.run_iter()
                    while o["take"] < 0 or len(o["yields"]) < o["take"]:
                        try:
                            y = next(it)
                        except StopIteration:
                            break
                        o["yields"].append({"s": cid.get(id(y.stage), 99), "outs": {
                            k: world.read("", v) for k, v in y.output._asdict().items()}})
                    it.close()
                else:
                    s = rng.randint(1, n)
                    o["stage"] = s
                    over = {}
                    if rng.random() < 0.4:
                        for nm in rng.sample(inps[s - 1], min(len(inps[s - 1]), rng.choice([1, 2, 30]))):
                            world.clock += 1
                            over[nm], o["over"][nm] = [world.clock], world.clock
                    if world.fail_at:
                        world.fail_at = s
                    sp.run_stage(stages[s - 1], **over)
        except StageRunningError:
            o["err"] = "gate"
        except Boom:
            o["err"] = "stage"
        except Exception as e:  # noqa: BLE001
            o["err"], o["what"] = "other", f"{type(e).__name__}: {e}"[:160]
        o["execs"] = world.log
        o["dirty"] = not all(same(values[j][nm], keep[j][nm]) for j in range(2) for nm in TYPES)
        ops.append(o)
    return {"n": n, "inp": inps, "out": outs, "names": names, "start": start, "created": created, "probes": probes,
            "ops": ops}


CSV = "Instances,Source,feature_a,feature_b,feature_c,algo_x,algo_y\ni1,s,1,2,3,0.5,0.25\ni2,t,2,3,5,0.5,1\n"


def files_case(rng):
    d = Path(tempfile.mkdtemp(prefix="facade-"))
    try:
        meta = rng.choice(["good", "missing", "empty", "dir"])
        opt = rng.choice(["good", "missing", "json", "field", "dir"])
        if rng.random() < 0.4:
            meta = opt = "good"
        mp, op = d / "metadata.csv", d / "options.json"
        if meta == "good":
            mp.write_text(CSV)
        elif meta == "empty":
            mp.write_text("")
        elif meta == "dir":
            mp.mkdir()
        given = {"perf": {"MaxPerf": rng.random() < 0.5, "epsilon": 0.25}, "trace": {"PI": 0.75}}
        if opt == "good":
            op.write_text(json.dumps(given))
        elif opt == "json":
            op.write_text('{"perf": {"MaxPerf": tr')
        elif opt == "field":
            op.write_text('{"perf": {"nonsense": 1}}')
        elif opt == "dir":
            op.mkdir()
        r = {"meta_ok": meta == "good", "opts_ok": opt == "good", "got": "error", "same": False,
             "how": f"{meta}/{opt}"}
        try:
            sp = instance_space_from_directory(d) if rng.random() < 0.5 else instance_space_from_files(mp, op)
            r["got"] = "none" if sp is None else "space"
            if sp is not None and meta == "good" and opt == "good":
                r["same"] = (same(sp.metadata, from_csv_file(mp))
                             and same(sp.options, O.InstanceSpaceOptions.from_dict(given)))
        except Exception as e:  # noqa: BLE001
            r["what"] = f"{type(e).__name__}: {e}"[:160]
        return {"files": r}
    finally:
        shutil.rmtree(d, ignore_errors=True)


RULE = ("two facades with different metadata and options (sometimes shared) over one random list of 2-7 stub "
        "stages that together produce every output the model needs; random histories of builds, failing "
        "builds, iterated, partial and single-stage runs and model requests; every value carries a unique id; "
        "other spaces constructed in between, some with further initial inputs and a stage that needs one; "
        "plus construction from readable and unreadable files; non-trivial: at least one complete build")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("FacadeMC", pick("FacadeMC.cfg", "FacadeMC_big.cfg"))
    recs = []
    with quiet():
        for _ in range(pick(1200, 8000)):
            recs.append(history(ck.rng, ck.rng.randint(2, 9)))
        for _ in range(pick(150, 600)):
            recs.append(files_case(ck.rng))
    ck.nontrivial = sum(any(o["op"] == "build" and o["err"] == "none" for o in r.get("ops", [])) for r in recs)
    ck.samples.append({k: v for k, v in recs[0].items() if k in ("n", "inp", "created")})
    ck.note(calls=sum(len(r.get("ops", [])) for r in recs),
            builds=sum(o["op"] == "build" for r in recs for o in r.get("ops", [])))
    ck.validate("FacadeTrace", recs)
    return ck.finish()
