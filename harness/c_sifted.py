"""C30, C31: screening and selecting features, against spec/Sifted.tla."""
from __future__ import annotations

from types import SimpleNamespace

import numpy as np
import pandas as pd
from sklearn.model_selection import KFold
from sklearn.neighbors import KNeighborsClassifier

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.model import DataDense
from instancespace.data.options import ParallelOptions, SelvarsOptions, SiftedOptions
from instancespace.stages.pilot import PilotStage
from instancespace.stages.sifted import NotEnoughFeatureError, SiftedInput, SiftedStage

FIELDS = ["y", "y_bin", "x_raw", "y_raw", "beta", "num_good_algos", "y_best", "p", "s"]


def keys(v):
    a = v.to_numpy() if isinstance(v, pd.Series) else np.asarray(v)
    return [str(np.asarray(r).tolist()) for r in a]


class Watch:
    """Replaces the projection by a cheap one and notes which columns are evaluated; notes
    how the instances are split for cross-validation."""

    def __init__(self):
        self.tables, self.splits = [], []

    def __enter__(self):
        self.pilot = PilotStage.__dict__["pilot"]
        self.kinit = KFold.__init__
        watch = self

        def pilot(*args, **kw):
            x = np.asarray(kw["x"] if "x" in kw else args[0])
            watch.tables.append(x)
            return SimpleNamespace(z=project(x))

        def init(self, *args, **kw):
            watch.kinit(self, *args, **kw)
            watch.splits.append(self)
        PilotStage.pilot = staticmethod(pilot)
        KFold.__init__ = init
        return self

    def __exit__(self, *a):
        PilotStage.pilot = self.pilot
        KFold.__init__ = self.kinit
        return False


def project(x):
    w = np.array([[1, 0.5 * (j % 3) - 0.5 * (j % 2)] for j in range(x.shape[1])])
    w[::2, 0] *= -1
    return x[:, np.lexsort(x)] @ w     # whatever the order of the columns


def error(x, yb, split):
    """The largest mean squared prediction error over the algorithms."""
    z = project(x)
    worst = 0.0
    for a in range(yb.shape[1]):
        t = yb[:, a].astype(int)
        e = []
        for tr, te in split.split(z):
            m = KNeighborsClassifier(n_neighbors=3).fit(z[tr], t[tr])
            e.append(np.mean((m.predict(z[te]) - t[te]) ** 2))
        worst = max(worst, float(np.mean(e)))
    return int(round(worst * 1e6))


def options(rng, **kw):
    base = {"n_trees": 5, "max_iter": 50, "replicates": 2, "num_generations": rng.choice([1, 3, 5]),
            "num_parents_mating": 2, "sol_per_pop": rng.choice([4, 6]), "k_tournament": 2,
            "keep_elitism": rng.choice([0, 1, 2]), "mutation_probability": rng.choice([0.05, 0.5])}
    return SiftedOptions.default(**(base | kw))


def table(rng, n, nf, na, signal):
    y = np.array([[rng.randint(0, 6) for _ in range(na)] for _ in range(n)])
    x = np.zeros((n, nf), dtype=int)
    for j in range(nf):
        kind = rng.random()
        if kind < signal:       # follows an algorithm, with either sign
            a, s = rng.randrange(na), rng.choice([1, -1])
            noise = rng.choice([0, 1, 1, 2])
            x[:, j] = [min(4, max(0, round((y[i, a] if s > 0 else 6 - y[i, a]) * 4 / 6) + rng.randint(-noise, noise)))
                       for i in range(n)]
        elif kind < signal + 0.12 and j:
            x[:, j] = x[:, rng.randrange(j)]
        elif kind < signal + 0.2 and j:
            x[:, j] = 4 - x[:, rng.randrange(j)]
        else:
            x[:, j] = [rng.randint(0, 4) for _ in range(n)]
        if len(set(x[:, j])) == 1:
            x[0, j] = (x[0, j] + 1) % 5
    return x, y


def lose(rng, y):
    """Runs without a result, marked -1."""
    y = y.copy()
    for i in range(y.shape[0]):
        for a in range(y.shape[1]):
            if rng.random() < 0.2 and (y[:, a] >= 0).sum() > 4:
                y[i, a] = -1
    return y


def call(x, y, yb, names, labels, s, opts, sopt, dense, rows):
    fx, fy = x.astype(float), np.where(y < 0, np.nan, y)
    per = {"y": fy, "y_bin": yb, "x_raw": fx * 10 + 1, "y_raw": fy * 2, "beta": yb.any(axis=1),
           "num_good_algos": yb.sum(axis=1).astype(float), "y_best": fy.max(axis=1), "p": fy.argmax(axis=1) + 1}
    dd = DataDense(x=fx, inst_labels=labels, s=s, **per) if dense else None
    sub = {k: v[rows] for k, v in per.items()}
    inp = SiftedInput(x=fx[rows], inst_labels=labels.iloc[rows], s=None if s is None else s.iloc[rows], feat_labels=list(names),
                      sifted_options=opts, selvars_options=sopt, data_dense=dd,
                      parallel_options=ParallelOptions.default(), **sub)
    full = {k: keys(v) for k, v in per.items()} | ({"s": keys(s)} if s is not None else {})
    return SiftedStage._run(inp), full


def number(names, wanted):
    names = list(names)
    return [names.index(str(v)) + 1 if str(v) in names else 0 for v in wanted]


def describe(out, names, labels, s):
    lab = list(labels)
    got = {"status": "ok", "chosen": number(names, out.feat_labels), "selvars": [int(v) + 1 for v in out.selvars],
           "idx": [int(v) + 1 for v in out.idx],
           "x": [[int(v) if v == int(v) else -1 for v in row] for row in out.x],
           "rows": [lab.index(v) + 1 if v in lab else 0 for v in out.inst_labels],
           "fields": {k: keys(getattr(out, k)) for k in FIELDS if k != "s" or s is not None},
           "has_clust": out.clust is not None,
           "clust": [[int(i) + 1 for i in np.where(np.asarray(out.clust)[:, c])[0]]
                     for c in range(np.asarray(out.clust).shape[1])] if out.clust is not None else [],
           "has_tried": False, "tried": []}
    return got


def screen(rng):
    n, nf, na = rng.randint(4, 12), rng.randint(4, 7), rng.randint(1, 3)
    x, y = table(rng, n, nf, na, rng.choice([0, 0.3, 0.6, 0.9]))
    if rng.random() < 0.3:
        y = lose(rng, y)
    yb = np.array([[rng.random() < 0.5 for _ in range(na)] for _ in range(n)])
    rn, rd = rng.choice([(1, 10), (1, 4), (1, 2), (3, 5), (3, 4), (9, 10), (1, 1)])
    names = [f"feature_{c}" for c in rng.sample("abcdefghij", nf)]
    labels = pd.Series([f"i{i}" for i in range(n)])
    rec = {"kind": "screen", "x": x.tolist(), "y": y.tolist(), "rn": rn, "rd": rd}
    thr = rn / rd
    try:
        with Watch():
            if rng.random() < 0.4:      # a threshold that is exactly one of the correlations
                out, _ = call(x, y, yb, names, labels, None, options(rng, rho=0.01, k=nf), SelvarsOptions.default(),
                              False, np.arange(n))
                rho = np.abs(np.asarray(out.rho))
                vals = sorted({0.0, *rho.ravel().tolist()})
                thr = rng.choice(vals[1:])
                rec |= {"kind": "at", "rank": [[vals.index(v) for v in row] for row in rho.tolist()],
                        "thr": vals.index(thr)}
            out, _ = call(x, y, yb, names, labels, None, options(rng, rho=thr, k=nf), SelvarsOptions.default(),
                          False, np.arange(n))
        rec["got"] = describe(out, names, labels, None)
    except NotEnoughFeatureError:
        rec["got"] = {"status": "few"}
    except Exception as e:  # noqa: BLE001
        rec["got"] = {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}
    return rec


def select(rng):
    n, nf, na = rng.randint(10, 12), rng.randint(2, 8), rng.choice([1, 1, 2, 2, 3, 4])
    x, y = table(rng, n, nf, na, rng.choice([0.5, 0.8]))
    if rng.random() < 0.15:
        y = lose(rng, y)
    g = rng.choice([0.3, 0.5, 0.7])
    yb = np.array([[rng.random() < g for _ in range(na)] for _ in range(n)])
    names = [f"feature_{c}" for c in rng.sample("abcdefghij", nf)]
    labels = pd.Series([f"i{i}" for i in range(n)], index=rng.choice([range(n), range(5, 5 + n)]))
    s = pd.Series([f"s{i % 3}" for i in range(n)], index=labels.index) if rng.random() < 0.5 else None
    k, flag = rng.choice([2, 2, 3, 3, 4, 5]), rng.random() < 0.9
    density = rng.random() < 0.3
    md, kind = rng.choice([0.0, 1.0, 1, 1.0, 2, 2.0]), rng.choice(["Ftr", "Ftr&Good"])
    rows = sorted(rng.sample(range(n), rng.randint(8, n))) if density else list(range(n))
    sub = x[rows]
    for j in range(nf):      # no constant features
        if len(set(sub[:, j])) == 1:
            x[rows[0], j] = (x[rows[0], j] + 1) % 5
    sub = x[rows]
    sopt = SelvarsOptions.default(density_flag=True, min_distance=md, selvars_type=kind) if density else SelvarsOptions.default()
    rho = rng.choice([0.05, 0.05, 0.5])
    rec = {"kind": "select", "x": x.tolist(), "y": y.tolist(), "yb": yb.tolist(), "flag": flag, "k": k, "screened": [],
           "inrows": [r + 1 for r in rows], "density": density, "type": kind, "md2": int(md * md), "rn": 0, "rd": 1, "elite": 0,
           "full": {}}
    args = (x, y, yb, names, labels, s)
    try:
        with Watch() as w:
            out, _ = call(*args, options(rng, rho=rho, k=nf), SelvarsOptions.default(), False, np.array(rows))
            rec["screened"] = number(names, out.feat_labels)
            w.tables.clear()
            w.splits.clear()
            o = options(rng, rho=rho, k=k, flag=flag)
            rec["elite"] = o.keep_elitism
            out, rec["full"] = call(*args, o, sopt, density, np.array(rows))
            got = describe(out, names, labels, s)
            tables, splits = list(w.tables), list(w.splits)
        first = {}
        got["alias"] = [first.setdefault(tuple(sub[:, j]), j + 1) for j in range(nf)]
        if tables and splits:
            seen = {}
            for t in tables:
                if t.shape[0] != len(rows):
                    ids = (0,)
                else:
                    ids = tuple(sorted(first.get(tuple(int(v) for v in t[:, j]), 0) for j in range(t.shape[1])))
                if (ids, t.shape) not in seen:
                    seen[ids, t.shape] = error(t, yb[rows], splits[-1]) if t.shape[0] == len(rows) else -1
            got["tried"] = [{"ids": list(i), "err": e} for (i, _), e in seen.items()]
            got["has_tried"] = True
        rec["got"] = got
    except NotEnoughFeatureError:
        if nf > 1 and rec["screened"]:
            rec["got"] = {"status": "few"}
        else:
            return None
    except Exception as e:  # noqa: BLE001
        rec["got"] = {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}
    return rec


RULE = ("random integer tables (4-12 instances, 2-8 features following an algorithm with either sign, repeated, mirrored or "
        "unrelated; 1-3 algorithms, some results missing) under thresholds met exactly or nearly, cluster counts on both sides of the number of "
        "features, selection on and off, with and without the density option; the projection inside the search is replaced "
        "by a cheap linear one so that every combination evaluated is seen; non-trivial: something is dropped")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("SiftedMC", pick("SiftedMC.cfg", "SiftedMC_big.cfg"))
    with quiet(), limit(700):
        if pid == "C30":
            recs = parallel(pid, pick(3000, 40000), screen)
        else:
            recs = [r for r in parallel(pid, pick(480, 6000), select) if r]
    ck.nontrivial = sum(r["got"]["status"] == "ok" and len(r["got"]["chosen"]) < len(r["x"][0]) for r in recs)
    ck.note(statuses={k: sum(r["got"]["status"] == k for r in recs) for k in ("ok", "few", "error")},
            searched=sum(r["got"].get("has_tried", False) for r in recs))
    ck.samples.append(recs[0])
    ck.validate("SiftedTrace", recs)
    return ck.finish()
