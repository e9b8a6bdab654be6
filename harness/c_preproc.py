"""C12, C13: selecting columns and removing missing data, against spec/Preproc.tla."""
from __future__ import annotations

import itertools

import numpy as np
import pandas as pd

from common import Checker, limit, pick, quiet

from instancespace.data.options import SelvarsOptions
from instancespace.stages.preprocessing import PreprocessingInput, PreprocessingStage

MISSING = -99999999


def scaled(m):
    return [[MISSING if np.isnan(v) else int(v * 4) for v in row] for row in np.asarray(m)]


def index_of(rng, n):
    kind = rng.choice(["plain", "plain", "shifted", "shuffled", "text", "same"])
    if kind == "shifted":
        return list(range(3, 3 + n))
    if kind == "shuffled":
        p = list(range(n))
        rng.shuffle(p)
        return p
    if kind == "text":
        return [f"r{i}" for i in range(n)]
    if kind == "same":
        return [0] * n
    return list(range(n))


def observe(x, y, labels, sources, index, wish, feat_names, algo_names, has_s):
    nr, nf, na = x.shape[0], x.shape[1], y.shape[1]
    ids = {}

    def text_id(v):
        return ids.setdefault(str(v), len(ids) + 1)
    lab = pd.Series(labels, index=index, dtype=object, name="Instances")
    src = pd.Series(sources, index=index, dtype=object, name="Source") if has_s else None

    def number(names, name):
        return names.index(name) + 1 if name in names else len(names) + 1
    w = {"has_feats": wish[0] is not None, "feats": [number(feat_names, v) for v in wish[0] or []],
         "has_algos": wish[1] is not None, "algos": [number(algo_names, v) for v in wish[1] or []]}
    rec = {"nr": nr, "nf": nf, "na": na, "x": scaled(x), "y": scaled(y), "labels": [text_id(v) for v in labels],
           "has_s": has_s, "s": [text_id(v) for v in sources] if has_s else [], "w": w}
    got = {"status": "ok", "feats": [], "algos": [], "x": [], "y": [], "x_raw": [], "y_raw": [], "labels": [],
           "has_s": False, "s": []}
    try:
        out = PreprocessingStage._run(PreprocessingInput(
            feature_names=list(feat_names), algorithm_names=list(algo_names), instance_labels=lab,
            instance_sources=src, features=x.copy(), algorithms=y.copy(),
            selvars_options=SelvarsOptions.default(feats=wish[0], algos=wish[1])))
        got["feats"] = [feat_names.index(v) + 1 if v in feat_names else 0 for v in out.feat_labels]
        got["algos"] = [algo_names.index(v) + 1 if v in algo_names else 0 for v in out.algo_labels]
        got["x"], got["y"], got["x_raw"], got["y_raw"] = map(scaled, (out.x, out.y, out.x_raw, out.y_raw))
        got["labels"] = [ids.get(str(v), 0) for v in out.inst_labels]
        got["has_s"] = out.s is not None
        got["s"] = [ids.get(str(v), 0) for v in out.s] if out.s is not None else []
    except Exception as e:  # noqa: BLE001
        got["status"], got["what"] = "error", f"{type(e).__name__}: {e}"[:160]
    rec["got"] = got
    return rec


def random_wish(rng, names, p):
    if rng.random() > p:
        return None
    pool = names + ["unknown", "Feature_A", names[0].upper() + "x", ""]
    k = rng.choice([0, 1, 1, 2, 3, len(names)])
    return [rng.choice(pool) for _ in range(k)] if rng.random() < 0.7 else rng.sample(names, min(k, len(names)))


def one(rng, pid):
    nr = rng.choice([1, 2, 3, 4, 5, 5, 6, 9, 10, 10, 11, 15, 20])
    nf, na = rng.randint(1, 5), rng.randint(1, 4)
    x = np.array([[rng.randint(-40, 40) / 4 for _ in range(nf)] for _ in range(nr)])
    y = np.array([[rng.randint(-40, 40) / 4 for _ in range(na)] for _ in range(nr)])
    if rng.random() < 0.3 and nr > 1:
        x[rng.randrange(nr)] = x[rng.randrange(nr)]
    miss = rng.choice([0, 0.05, 0.3, 0.7]) if pid == "C13" or rng.random() < 0.3 else 0
    if miss:
        for m in (x, y):
            for i, j in itertools.product(range(m.shape[0]), range(m.shape[1])):
                if rng.random() < miss:
                    m[i, j] = np.nan
        for j in range(nf):   # columns missing in about a fifth of the rows
            if rng.random() < 0.5:
                x[:, j] = [rng.randint(-40, 40) / 4 for _ in range(nr)]
                k = max(0, min(nr, nr // 5 + rng.choice([-1, 0, 0, 1])))
                x[rng.sample(range(nr), k), j] = np.nan
        for i in range(nr):
            if rng.random() < 0.15:
                x[i] = np.nan
            if rng.random() < 0.1:
                y[i] = np.nan
    stems = rng.sample(["a", "b", "feature_c", "A", "d e", "f_1", "Z"], nf)
    feat_names = [s if s.startswith("feature_") else "feature_" + s for s in stems]
    algo_names = ["algo_" + s for s in rng.sample(["x", "y", "X", "z_1", "w"], na)]
    p = 0.85 if pid == "C12" else 0.25
    wish = (random_wish(rng, feat_names, p), random_wish(rng, algo_names, p))
    labels = [f"i{i if rng.random() < 0.9 else 0}" for i in range(nr)]
    sources = [f"s{rng.randint(0, 2)}" for _ in range(nr)]
    return observe(x, y, labels, sources, index_of(rng, nr), wish, feat_names, algo_names, rng.random() < 0.6)


def patterns(nr, nf, na):
    """Every pattern of missing cells of one shape."""
    cells = nr * (nf + na)
    base = np.arange(cells, dtype=float).reshape(nr, nf + na)
    for bits in itertools.product([False, True], repeat=cells):
        m = base.copy()
        m[np.array(bits).reshape(nr, nf + na)] = np.nan
        yield m[:, :nf], m[:, nf:]


RULE = ("random tables (1-20 rows, 1-5 features, 1-4 algorithms, rows and columns around the 20% bound, rows "
        "without any value, repeated labels, unusual row indices, with and without sources) and selection lists "
        "(any order, repeated, unknown, empty); for C13 also every pattern of missing cells of small tables; "
        "non-trivial: something is selected or missing")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("PreprocMC", pick("PreprocMC.cfg", "PreprocMC_big.cfg"))
    with quiet(), limit(700):
        recs = [one(ck.rng, pid) for _ in range(pick(6000, 40000))]
        if pid == "C13":
            for shape in pick([(2, 2, 1), (3, 2, 1), (1, 2, 2)], [(2, 2, 1), (3, 2, 1), (1, 2, 2), (3, 2, 2), (4, 2, 1)]):
                for x, y in patterns(*shape):
                    recs.append(observe(x, y, [f"i{i}" for i in range(shape[0])], [f"s{i}" for i in range(shape[0])],
                                        list(range(shape[0])), (None, None), [f"feature_{j}" for j in range(shape[1])],
                                        [f"algo_{j}" for j in range(shape[2])], True))
        else:   # every selection list of length up to two on one table
            names = ["feature_a", "feature_b", "feature_c"]
            algos = ["algo_x", "algo_y"]
            x, y = np.arange(6.0).reshape(2, 3), np.arange(4.0).reshape(2, 2)
            lists = lambda ns: [None, []] + [list(p) for k in (1, 2, 3) for p in itertools.product(ns + ["no"], repeat=k)]  # noqa: E731
            for fw in lists(names):
                for aw in lists(algos)[:8]:
                    recs.append(observe(x, y, ["i0", "i1"], ["s0", "s1"], [0, 1], (fw, aw), names, algos, True))
    ck.nontrivial = sum(r["w"]["has_feats"] or r["w"]["has_algos"] or any(MISSING in row for row in r["x"] + r["y"])
                        for r in recs)
    ck.samples.append(recs[0])
    ck.validate("PreprocTrace", recs)
    return ck.finish()
