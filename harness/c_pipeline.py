"""C80: complete runs, against spec/Pipeline.tla."""
from __future__ import annotations

import csv
import hashlib
import json
import multiprocessing
import os
import random
import subprocess
import sys
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from shapely.geometry import Point

from common import PY, REPO, SEED, Checker, limit, parallel, pick, quiet
from c_export import Place, digest

from instancespace.data.metadata import Metadata
from instancespace.data.options import InstanceSpaceOptions
from instancespace.instance_space import InstanceSpace, instance_space_from_directory
from instancespace.stages.cloister import CloisterStage
from instancespace.stages.pilot import PilotStage
from instancespace.stages.prelim import PrelimStage
from instancespace.stages.preprocessing import PreprocessingStage
from instancespace.stages.pythia import PythiaStage
from instancespace.stages.sifted import SiftedStage
from instancespace.stages.trace import TraceStage

STAGES = [PreprocessingStage, PrelimStage, SiftedStage, PilotStage, PythiaStage, CloisterStage, TraceStage]
MISSING = -99999999
ODD = -77777777


# ---------------------------------------------------------------- inputs
def distinct(m, rng, base):
    """Integers in the order of m's values, all different."""
    flat = np.argsort(np.argsort(m.ravel(), kind="stable"), kind="stable")
    steps = np.cumsum([rng.randint(1, 9) for _ in range(flat.size)])
    return (base + steps[flat]).reshape(m.shape)


def inputs(rng):
    g = np.random.default_rng(rng.randrange(2 ** 31))
    search = rng.random() < 0.35            # many features: the search for a combination takes part
    dense = search and rng.random() < 0.5   # and is followed by a second density filter
    n, nf, na = rng.choice([26, 30, 36, 44]), rng.choice([6, 7, 8]) if search else rng.choice([2, 3, 4, 5]), rng.choice([2, 2, 3, 4])
    blur = rng.choice([0.1, 0.1, 0.5])      # how far performances are from what the features say
    t = g.random((n, 2))
    f = np.c_[t, t @ g.uniform(-1, 1, (2, nf - 2)) + 0.15 * g.random((n, nf - 2))] if nf > 2 else t
    f = f[:, g.permutation(nf)]
    f = np.column_stack([distinct(f[:, j], rng, 0) for j in range(nf)]) * nf + np.arange(nf) + 1
    a = np.column_stack([t @ w + blur * g.random(n) for w in ([1, 0], [-1, 0], [0, 1], [0, -1])])[:, :na]
    a = np.argsort(np.argsort(a, axis=0), axis=0)       # same scale for every algorithm
    a = np.column_stack([distinct(a[:, j], rng, 0) for j in range(na)]) * na + np.arange(na) + 1
    absolute = rng.random() < 0.7
    maximise = rng.random() < 0.5
    middle = int(np.median(a))
    if not absolute:
        a = a + middle
    fx, fy = f.astype(int).tolist(), a.astype(int).tolist()
    if rng.random() < 0.3:
        for i in rng.sample(range(n), 2):
            fx[i] = [MISSING] * nf
    if rng.random() < 0.3:
        for i in rng.sample(range(n), 2):
            fy[i] = [MISSING] * na
    holes = rng.random() < 0.3
    if holes:
        for i in rng.sample(range(n), 2):
            fy[i][rng.randrange(na)] = MISSING
    if nf > 3 and rng.random() < 0.3:
        j = rng.randrange(nf)
        for i in rng.sample(range(n), n // 3):
            fx[i][j] = MISSING
    wish = {"has_feats": False, "feats": [], "has_algos": False, "algos": []}
    if nf > 3 and rng.random() < 0.3:
        wish.update(has_feats=True, feats=rng.sample(range(1, nf + 1), rng.randint(3, nf)))
    if na > 2 and rng.random() < 0.3:
        wish.update(has_algos=True, algos=rng.sample(range(1, na + 1), 2))
    labels = rng.choice([[f"inst {i}" for i in range(n)], [f"{i:04d}x" for i in range(n)], [str(3 * i + 2) for i in range(n)]])
    order = list(range(n))
    rng.shuffle(order)
    labels = [labels[i] for i in order]
    kind = "density" if dense else rng.choice(["none", "none", "fraction", "file", "density", "density"])
    o = {"kind": kind, "a": 1, "b": 1, "list": []}
    sel = {}
    if kind == "fraction":
        o.update(a=rng.choice([3, 7]), b=rng.choice([8]))
        o["a"] = 6 if o["a"] == 3 else 7
        sel = {"small_scale_flag": True, "small_scale": o["a"] / o["b"]}
    elif kind == "file":
        o["list"] = rng.sample(range(1, n + 1), n - rng.randint(1, 6))
        sel = {"file_idx_flag": True, "file_idx": "index.csv"}
    elif kind == "density":
        sel = {"density_flag": True, "min_distance": rng.choice([0.5, 0.8, 1.1] if dense else [0.1, 0.2, 0.35]), "selvars_type": rng.choice(["Ftr", "Ftr&Good"])}
    opts = {
        "perf": {"max_perf": maximise, "abs_perf": absolute,
                 "epsilon": float(middle) if absolute else rng.choice([0.25, 0.375, 0.5]), "beta_threshold": rng.choice([0.5, 0.25, 0.75])},
        "auto": {"preproc": rng.random() < 0.8}, "bound": {"flag": rng.random() < 0.7}, "norm": {"flag": rng.random() < 0.85},
        "selvars": sel,
        "sifted": {"flag": rng.random() < 0.8 or search, "rho": 0.1, "k": rng.choice([3, 4]), "num_generations": 1, "sol_per_pop": 4,
                   "keep_elitism": 1, "k_tournament": 2, "replicates": 5},
        "pilot": {"analytic": rng.random() < 0.5 and not holes, "n_tries": rng.choice([1, 2])},
        "pythia": {"cv_folds": 3, "use_grid_search": True, "use_weights": rng.random() < 0.3, "is_poly_krnl": rng.random() < 0.2},
        "trace": {"use_sim": rng.random() < 0.6, "purity": 0.55},
        "parallel": {"flag": rng.random() < 0.3, "n_cores": rng.choice([1, 2, 3])}}
    if rng.random() < 0.25 and not opts["pythia"]["is_poly_krnl"]:
        k = len(wish["algos"]) if wish["has_algos"] else na
        opts["pythia"]["params"] = [[rng.choice([0.5, 1.0, 4.0]), rng.choice([0.5, 1.0])] for _ in range(k)]
    return {"fx": fx, "fy": fy, "wish": wish, "labels": labels, "has_s": rng.random() < 0.5, "o": o, "options": opts,
            "files": rng.random() < 0.5, "names": rng.choice(["plain", "odd"])}


def names(c):
    nf, na = len(c["fx"][0]), len(c["fy"][0])
    odd = ["alpha", "z9", "Beta two", "b", "x_1", "10", "gamma,ray", "a"]
    pick_ = (lambda k, p: odd[k]) if c["names"] == "odd" else (lambda k, p: f"{p}{k}")
    return [f"feature_{pick_(j, 'f')}" for j in range(nf)], [f"algo_{pick_(na - 1 - a, 'a')}" for a in range(na)]


def gaps(m):
    return [[np.nan if v == MISSING else float(v) for v in r] for r in m]


def construct(c, d, shuffled=None):
    """The instance space of a case; d holds the files of the case."""
    fn, an = names(c)
    n = len(c["fx"])
    opts = json.loads(json.dumps(c["options"]))
    if c["o"]["kind"] == "file":
        (d / "index.csv").write_text(",".join(map(str, c["o"]["list"])) + "\n")
        opts["selvars"]["file_idx"] = str(d / "index.csv")
    if c["wish"]["has_feats"]:
        opts["selvars"]["feats"] = [fn[j - 1] for j in c["wish"]["feats"]]
    if c["wish"]["has_algos"]:
        opts["selvars"]["algos"] = [an[j - 1] for j in c["wish"]["algos"]]
    stages = list(STAGES)
    if shuffled is not None:
        shuffled.shuffle(stages)
    sources = [f"src{i}" for i in range(n)]
    if c["files"]:
        cols = {"instances": c["labels"], **({"source": sources} if c["has_s"] else {})}
        x, y = np.array(gaps(c["fx"])), np.array(gaps(c["fy"]))
        cols |= {fn[j]: x[:, j] for j in range(len(fn))} | {an[j]: y[:, j] for j in range(len(an))}
        pd.DataFrame(cols).to_csv(d / "metadata.csv", index=False)
        (d / "options.json").write_text(json.dumps(opts))
        space = instance_space_from_directory(d)
        return space if shuffled is None else InstanceSpace(space.metadata, space.options, stages)
    if "params" in opts["pythia"]:
        opts["pythia"]["params"] = np.array(opts["pythia"]["params"])
    md = Metadata(feature_names=fn, algorithm_names=an, instance_labels=pd.Series(c["labels"]),
                  instance_sources=pd.Series(sources) if c["has_s"] else None, features=np.array(gaps(c["fx"])), algorithms=np.array(gaps(c["fy"])))
    return InstanceSpace(md, InstanceSpaceOptions.from_dict(opts), stages)


# ---------------------------------------------------------------- projections
def ranks(m):
    m = np.round(np.asarray(m, dtype=float), 7)
    out = np.full(m.shape, MISSING, dtype=int)
    for j in range(m.shape[1]):
        ok = ~np.isnan(m[:, j])
        u = np.unique(m[ok, j])
        out[ok, j] = np.searchsorted(u, m[ok, j])
    return out.tolist()


def whole(m, unit=1):
    m = np.asarray(m, dtype=float)

    def one(v):
        if np.isnan(v):
            return MISSING
        w = round(v * unit)
        return int(w) if abs(w) < 10 ** 7 and (unit != 1 or w == v) else ODD
    return [[one(v) for v in r] for r in m] if m.ndim == 2 else [one(v) for v in m]


def near(m, unit, top=2 * 10 ** 9):
    return [[int(max(-top, min(top, round(float(v) * unit)))) if np.isfinite(v) else ODD for v in r] for r in np.asarray(m, dtype=float)]


def number(v, seq):
    return seq.index(v) + 1 if v in seq else 0


def view(cur, c):
    fn, an = view.names
    v = {"labels": [number(str(q), c["labels"]) for q in cur["inst_labels"]], "xraw": whole(cur["x_raw"]), "yraw": whole(cur["y_raw"]),
         "x": ranks(cur["x"]), "y": ranks(cur["y"]), "s": [] if cur["s"] is None else [number(q, [f"src{i}" for i in range(len(c["labels"]))]) for q in cur["s"]],
         "feats": [number(q, fn) for q in cur["feat_labels"]], "algos": [number(q, an) for q in cur["algo_labels"]]}
    v["searched"] = cur.get("clust") is not None
    if "y_bin" in cur:
        v |= {"ybin": np.asarray(cur["y_bin"]).astype(int).tolist(), "ybest": whole(np.ravel(cur["y_best"])), "p": [int(q) for q in cur["p"]],
              "count": [int(q) for q in cur["num_good_algos"]], "beta": [int(q) for q in cur["beta"]]}
    return v


def prints(cur):
    """Fingerprints of every output; models by what they predict."""
    out = []
    for k in sorted(cur):
        if k.endswith("_options") or k in ("cp",):
            continue
        v = cur[k]
        if k == "svm":
            grid = np.array([[a, b] for a in (-1.5, 0.0, 1.0) for b in (-1.0, 0.5)])
            v = [m.decision_function(grid).tolist() for m in v]
        out.append([k, hashlib.sha256(digest(v).encode()).hexdigest()[:12]])
    return out


def part(f, z):
    g = f.polygon
    inside = [] if g is None else [i + 1 for i, q in enumerate(z) if g.contains(Point(q))]
    return {"elements": int(f.elements), "hits": int(f.good_elements), "inside": inside}


def final(cur, c, model, d):
    fn, an = view.names
    v = view(cur, c)
    z = np.asarray(cur["z"], dtype=float)
    zn = (z - z.mean(axis=0)) / z.std(axis=0, ddof=1)
    sel0 = np.ravel(cur["selection0"])
    ux, ua = (10 ** 4 / max(1e-9, float(np.abs(np.asarray(cur[k], dtype=float)).max())) for k in ("x", "a"))
    v |= {"idx": [int(q) for q in cur["idx"]], "z": near(z, ux * ua), "x2": near(cur["x"], ux), "a": near(cur["a"], ua),
          "yhat": np.asarray(cur["y_hat"]).astype(int).tolist(),
          "yhatagain": np.column_stack([np.asarray(m.predict(zn)).astype(int) for m in cur["svm"]]).tolist(),
          "sel0": [int(q) for q in sel0],
          "pilotnames": [number(q, fn) for q in cur["pilot_summary"].columns[1:]],
          "pythianames": [number(q, an) for q in list(cur["pythia_summary"].iloc[:, 0])[:-2]],
          "tracenames": [number(q, an) for q in cur["trace_summary"].iloc[:, 0]],
          "good": [part(f, z) for f in cur["good"]], "best": [part(f, z) for f in cur["best"]],
          "hard": part(cur["hard"], z), "space": part(cur["space"], z),
          "lens": [[k, len(cur[k])] for k in ("x", "y", "x_raw", "y_raw", "y_bin", "y_best", "p", "num_good_algos", "beta", "z", "y_hat", "y_sub",
                                              "pr0_hat", "pr0_sub", "selection0", "selection1", "w")],
          "widths": [[k, int(np.asarray(cur[k]).shape[1])] for k in ("y", "y_raw", "y_bin", "y_hat", "y_sub", "pr0_hat", "pr0_sub", "w")]
          + [[k, len(cur[k])] for k in ("svm", "box_consnt", "k_scale", "accuracy", "precision", "recall", "cvcmat", "good", "best")]}
    model.save_to_csv(d)
    t = {}
    for k in ("feature_raw", "algorithm_raw", "coordinates"):
        with (d / f"{k}.csv").open(newline="", encoding="utf-8") as fh:
            t[k] = list(csv.reader(fh))
    body = {k: [[float(q) if q else np.nan for q in r[1:]] for r in t[k][1:]] for k in t}
    same = [r[0] for r in t["feature_raw"][1:]] == [r[0] for r in t["coordinates"][1:]] == [r[0] for r in t["algorithm_raw"][1:]]
    v["csv"] = {"labels": [number(r[0], c["labels"]) for r in t["feature_raw"][1:]] if same else [],
                "feats": [number(q, fn) for q in t["feature_raw"][0][1:]], "xraw": whole(body["feature_raw"]),
                "yraw": whole(body["algorithm_raw"]), "z": near(body["coordinates"], ux * ua)}
    return v


def model_prints(m):
    out = []
    for f, o in (("data", m.data), ("pilot", m.pilot), ("cloister", m.cloister), ("trace", m.trace), ("prelim", m.prelim)):
        out.append([f, digest(o)[:12]])
    return out


def balanced(cur, folds):
    yb = np.asarray(cur["y_bin"])
    return len(yb) and all(folds <= int(yb[:, a].sum()) <= len(yb) - folds for a in range(yb.shape[1]))


def walk(space):
    cur, after = {"x_raw": None}, []
    seen = []
    for o in space.run_iter():
        cur |= o.output._asdict()
        seen.append(o.stage.__name__)
        if o.stage in (PreprocessingStage, PrelimStage, SiftedStage):
            after.append(dict(cur))
    return cur, after


def case(rng):
    c = inputs(rng)
    rec = {k: c[k] for k in ("fx", "fy", "wish", "has_s", "o")}
    r = c["options"]["perf"]
    rec |= {"rule": {"max": r["max_perf"], "abs": r["abs_perf"], "en": int(r["epsilon"]) if r["abs_perf"] else int(r["epsilon"] * 8),
                     "ed": 1 if r["abs_perf"] else 8}, "bn": int(r["beta_threshold"] * 4), "bd": 4, "usesim": c["options"]["trace"]["use_sim"],
            "status": "ok", "options": c["options"]}
    with Place() as d:
        try:
            with limit(300):
                c["options"]["parallel"]["flag"] &= not multiprocessing.current_process().daemon
                space = construct(c, d)
                view.names = (list(space.metadata.feature_names), list(space.metadata.algorithm_names))
                cur = {}
                after = []
                for o in space.run_iter():
                    cur |= o.output._asdict()
                    if o.stage in (PreprocessingStage, PrelimStage, SiftedStage):
                        after.append(view(cur, c))
                rec["prints"] = prints(cur)
                model = space.build()
                kept = next((v for v in vars(space).values() if isinstance(v, dict) and set(cur) <= set(v)), cur)
                rec["again"] = prints({k: v for k, v in kept.items() if k in cur})
                rec["samemodel"] = all(digest(getattr(model.data, k)) == digest(cur[k]) for k in
                                       ("inst_labels", "feat_labels", "algo_labels", "x", "y", "x_raw", "y_raw", "y_bin", "p", "beta"))
                other, _ = walk(construct(c, d, shuffled=random.Random(1)))
                rec["fresh"] = prints({k: v for k, v in other.items() if k in cur})
                rec["after"] = [*after, final(cur, c, model, d)]
        except Exception as ex:  # noqa: BLE001
            import traceback
            rec |= {"status": "refused", "why": traceback.format_exc()[-3000:]}
            if "y_bin" in locals().get("cur", {}) and not balanced(cur, c["options"]["pythia"]["cv_folds"]):
                rec["status"] = "skipped"
            if type(ex).__name__ == "NotEnoughFeatureError":
                rec["status"] = "skipped"
    return rec


def elsewhere(tag, numbers):
    """The same cases in this process, one after the other, in another order and with other workers."""
    out = {}
    for i in numbers:
        c = inputs(random.Random(f"{SEED}-{tag}-{i}"))
        c["options"]["parallel"] = {"flag": not c["options"]["parallel"]["flag"], "n_cores": 2}
        with Place() as d:
            try:
                with limit(300), quiet():
                    out[i] = prints({k: v for k, v in walk(construct(c, d))[0].items() if k != "x_raw" or v is not None})
            except Exception as ex:  # noqa: BLE001
                out[i] = [["refused", repr(ex)[:100]]]
    return out


def other_processes(tag, recs):
    todo = [i for i, r in enumerate(recs) if r["status"] == "ok"]
    procs = []
    for k in range(8):
        mine = todo[k::8][::-1]
        env = {**os.environ, "PYTHONHASHSEED": str(1000 + k), "PYTHONPATH": str(REPO)}
        out = tempfile.NamedTemporaryFile(prefix="elsewhere-", delete=False)
        procs.append((out, subprocess.Popen([PY, __file__, tag, out.name, *map(str, mine)], env=env,
                                            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for out, p in procs:
        p.wait(timeout=700)
        out.close()
        raw = Path(out.name).read_text()
        os.unlink(out.name)
        for i, v in (json.loads(raw) if raw else {}).items():
            recs[int(i)]["elsewhere"] = v
    for i in todo:
        recs[i].setdefault("elsewhere", [["refused", "no answer"]])


RULE = ("complete runs on random data sets (26-44 instances, 2-8 features, 2-4 algorithms, all values different) with missing "
        "values, column selection, every subset option, both performance rules, with and without normalisation, bounding, feature "
        "selection, true or simulated labels, from objects or from files; each run three times in one process (stage by stage, "
        "whole on the same object, on a fresh object with the stages in another order) and once in another process with another "
        "hash seed and number of workers; non-trivial: some instances or features are left out")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("PipelineMC", pick("PipelineMC.cfg", "PipelineMC_big.cfg"))
    from common import CheckError, tlc
    if "AlwaysAligned is violated" not in tlc("PipelineMC", "PipelineMC_forget.cfg", allow_violation=True).out:
        raise CheckError("a forgotten restriction is not noticed by the specification")
    with quiet(), limit(800):
        recs = parallel(pid, pick(64, 640), case)
        other_processes(pid, recs)
    ok = [r for r in recs if r["status"] == "ok"]
    ck.nontrivial = sum(len(r["after"][3]["labels"]) < len(r["fx"]) or len(r["after"][3]["feats"]) < len(r["fx"][0]) for r in ok)
    ck.note(statuses={k: sum(r["status"] == k for r in recs) for k in ("ok", "skipped", "refused")},
            searched=sum(r["after"][2]["searched"] for r in ok), filtered_twice=sum(r["after"][1]["labels"] != r["after"][2]["labels"] for r in ok),
            kinds={k: sum(r["o"]["kind"] == k for r in ok) for k in ("none", "fraction", "file", "density")})
    ck.samples.append({k: recs[0][k] for k in ("o", "options", "status")})
    if len(ok) * 2 < len(recs):
        for r in recs:
            if r["status"] == "skipped":
                r["status"] = "refused"
    ck.validate("PipelineTrace", recs)
    return ck.finish()


if __name__ == "__main__":
    import warnings
    warnings.filterwarnings("ignore")
    from loguru import logger
    logger.remove()
    Path(sys.argv[2]).write_text(json.dumps(elsewhere(sys.argv[1], [int(q) for q in sys.argv[3:]])))
