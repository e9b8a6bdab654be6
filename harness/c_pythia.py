"""C50, C51: predictions and recommendations, against spec/Pythia.tla."""
from __future__ import annotations

import hashlib

import numpy as np
import sklearn.model_selection
import sklearn.svm
import skopt
from sklearn.base import clone

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.options import ParallelOptions, PythiaOptions
from instancespace.stages.pythia import PythiaInput, PythiaStage

NONE = -999999


def bit(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=4).digest()


class Cheap:
    """Stands in for scikit-learn's training: the same interface, predictions that are an
    arbitrary fixed function of the training labels, the hyper-parameters and the point."""

    def __init__(self, on, lean, script=None):
        self.on, self.lean, self.script = on, lean, script or {}

    def __enter__(self):
        if not self.on:
            return self
        svc, rs, bs = sklearn.svm.SVC, sklearn.model_selection.RandomizedSearchCV, skopt.BayesSearchCV
        self.saved = [(svc, "fit", svc.fit), (svc, "predict", svc.predict), (svc, "predict_proba", svc.predict_proba),
                      (rs, "fit", rs.fit), (bs, "fit", bs.fit)]
        lean, script = self.lean, self.script

        def fit(m, X, y, sample_weight=None):
            m.classes_ = np.unique(y)
            m.memory_ = (np.asarray(y).astype(int).tolist(), round(float(m.C), 9), round(float(m.gamma), 9))
            m.truth_ = {tuple(np.round(r, 6)): bool(v) for r, v in zip(X, y)}
            m.place_ = {tuple(np.round(r, 6)): i for i, r in enumerate(X)}
            return m

        def score(m, row):
            if tuple(m.memory_[0]) in script:
                return 0.9 if m.place_.get(tuple(np.round(row, 6)), -1) in script[tuple(m.memory_[0])] else 0.1
            b = bit(m.memory_, np.round(row, 6).tolist())
            t = m.truth_.get(tuple(np.round(row, 6)))
            mode = bit(m.memory_)[0] % 4
            if mode == 0:
                return 0.0                                       # never
            if mode == 1 or t is None:
                return b[0] / 256
            if mode == 2:
                return 0.9 if t == (b[1] > 40) else 0.1          # mostly right
            return 0.9 if t and b[1] > lean else 0.1

        def predict_proba(m, X):
            p = np.array([score(m, r) for r in np.asarray(X)])
            return np.column_stack([1 - p, p])

        def predict(m, X):
            return m.classes_[(predict_proba(m, X)[:, 1] > 0.5).astype(int)]

        def search(s, X, y, sample_weight=None, **kw):
            space = getattr(s, "param_distributions", None) or s.search_spaces
            s.best_params_ = {k: v[-1] for k, v in space.items()}
            s.best_estimator_ = clone(s.estimator).set_params(**s.best_params_).fit(X, y)
            return s
        svc.fit, svc.predict, svc.predict_proba, rs.fit, bs.fit = fit, predict, predict_proba, search, search
        return self

    def __exit__(self, *a):
        if self.on:
            for cls, name, old in self.saved:
                setattr(cls, name, old)
        return False


def col(values, scale=1000):
    out = []
    for v in values:
        out.append(NONE if isinstance(v, str) and v.strip() == "" or v is None or v != v else int(round(float(v) * scale)))
    return out


def key(a):
    return repr(np.round(np.asarray(a, dtype=float), 9).tolist())


def rivals(rng):
    """Two track records that differ by less than a thousandth."""
    while True:
        q1, q2 = rng.randint(40, 64), rng.randint(40, 64)
        p1 = rng.randint(1, q1)
        for p2 in (p1 * q2 // q1, p1 * q2 // q1 + 1):
            if 0 < p2 <= q2 and 0 < abs(p1 / q1 - p2 / q2) < 1e-3:
                return (p1, q1), (p2, q2)


def close_race(rng):
    n, na = 130, rng.choice([2, 3])
    yb = np.zeros((n, na), dtype=bool)
    script = {}
    for a, (p, q) in enumerate([*rivals(rng), (rng.randint(1, 10), 30)][:na]):
        good = rng.sample(range(n), 65)
        bad = [i for i in range(n) if i not in good]
        yb[good, a] = True
        script[tuple(yb[:, a].astype(int).tolist())] = {*rng.sample(good, p), *rng.sample(bad, q - p)}
    return n, na, yb, script


def case(rng, cheap, slow=False, one_class=False):
    n = rng.randint(10, 16) if cheap else rng.randint(14, 24)
    script = None
    na = 1 if slow else rng.choice([1, 2, 2, 3, 3, 4]) if cheap else rng.randint(1, 2)
    race = cheap and rng.random() < 0.02
    if race:
        n, na, yb, script = close_race(rng)
    z = np.array([[rng.randint(-6, 6), i if race else rng.randint(-6, 6)] for i in range(n)], dtype=float)
    z[0], z[1] = (-1, 2), (2, -1)
    if not race and rng.random() < 0.3:
        z[n - 1] = z[0]
    y = np.array([[rng.randint(0, 9) for _ in range(na)] for _ in range(n)], dtype=float)
    for _ in range(rng.choice([0, 0, 2, 5])):
        i, a = rng.randrange(n), rng.randrange(na)
        if np.isnan(y[i]).sum() < na - 1 and np.isnan(y[:, a]).sum() < n - 3:
            y[i, a] = np.nan
    if not race:
        yb = np.zeros((n, na), dtype=bool)
    for a in range(na):
        p = rng.choice([0.2, 0.5, 0.8])
        while not 2 <= yb[:, a].sum() <= n - 2:
            yb[:, a] = [rng.random() < p or (not cheap and z[i, 0] > 2) for i in range(n)]
    if na > 1 and not race and rng.random() < 0.3:
        yb[:, 1] = yb[:, 0]
    if one_class:
        yb[:, rng.randrange(na)] = rng.random() < 0.5
    ybest = np.nanmax(y, axis=1)
    labels = [f"algo_{c}" for c in rng.sample("dcbae", na)]
    folds = rng.choice([2, 3, 5])
    given = np.array([[2.0 ** rng.randint(-3, 4), 2.0 ** rng.randint(-3, 2)] for _ in range(na)]) if rng.random() < 0.3 else None
    weights = rng.random() < 0.4
    form = given.tolist() if given is not None and rng.random() < 0.4 else given
    o = PythiaOptions(cv_folds=folds, is_poly_krnl=rng.random() < 0.4, use_weights=weights,
                      use_grid_search=not slow and (not cheap or rng.random() < 0.5), params=form)
    rec = {"y": [[NONE if np.isnan(v) else int(v) for v in r] for r in y], "yb": yb.tolist(), "ybest": ybest.astype(int).tolist(),
           "weights": weights, "folds": folds, "given": [] if given is None else [key(g) for g in given],
           "case": {"one_class": one_class}}
    before = (key(z), key(np.nan_to_num(y, nan=-1)), yb.tolist(), key(ybest))
    with Cheap(cheap, rng.choice([20, 128, 230]), script):
        try:
            with limit(170):
                out = PythiaStage._run(PythiaInput(z, y, yb, ybest, labels, o, ParallelOptions(flag=False, n_cores=1)))
        except Exception as e:  # noqa: BLE001
            return rec | {"got": {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}}
        try:
            got = describe(out, z, y, yb, ybest, labels, before, cheap)
            got["kernel"] = all(m.kernel == ("poly" if o.is_poly_krnl else "rbf") for m in out.svm)
        except (ValueError, IndexError, TypeError, AttributeError, KeyError) as e:
            got = {"status": "shape", "what": f"{type(e).__name__}: {e}"[:200]}
    return rec | {"got": got}


def describe(out, z, y, yb, ybest, labels, before, cheap):
    n, na = yb.shape
    zn = (z - z.mean(axis=0)) / z.std(axis=0, ddof=1)
    ysub, yhat = np.asarray(out.y_sub, dtype=bool), np.asarray(out.y_hat, dtype=bool)
    if ysub.shape != yb.shape or yhat.shape != yb.shape:
        raise ValueError("shape")
    trained = True
    sub, subp, hat, hatp = np.zeros((n, na), bool), np.zeros((n, na)), np.zeros((n, na), bool), np.zeros((n, na))
    tested = np.zeros(n, dtype=int)
    for a in range(na):
        m = out.svm[a]
        hat[:, a] = m.predict(zn)
        hatp[:, a] = m.predict_proba(zn)[:, 1]
        if not cheap:       # training again, with the reported weights, gives the reported model
            again = clone(m).fit(zn, yb[:, a], sample_weight=np.ascontiguousarray(np.asarray(out.w, dtype=float)[:, a]))
            trained = trained and key(again.decision_function(zn)) == key(m.decision_function(zn))
        for tr, te in out.cp.split(zn, yb[:, a]):
            f = clone(m).fit(zn[tr], yb[tr, a])
            sub[te, a] = f.predict(zn[te])
            subp[te, a] = f.predict_proba(zn[te])[:, 1]
            if a == 0:
                tested[te] += 1
    t = out.pythia_summary
    names = [*labels, "Oracle", "Selector"]
    rows = [str(v) for v in t["Algorithms"]]
    sel0, sel1 = np.asarray(out.selection0), np.asarray(out.selection1)
    if sel0.shape != (n,) or sel1.shape != (n,):
        raise ValueError("selection")
    six = lambda v: [int(round(float(x) * 1e6)) for x in v]  # noqa: E731
    return {"status": "ok", "yhat": yhat.tolist(), "ysub": ysub.tolist(), "cvc": np.asarray(out.cvcmat).astype(int).tolist(),
            "acc": six(out.accuracy), "prec": six(out.precision), "rec": six(out.recall),
            "sel0": [int(v) + 1 for v in sel0], "sel1": [int(v) + 1 for v in sel1],
            "params": [key([m.C, m.gamma]) for m in out.svm], "box": [key(v) for v in zip(out.box_consnt, out.k_scale)],
            "hatagain": hat.tolist(), "subagain": sub.tolist(),
            "probs": [key(out.pr0_hat), key(out.pr0_sub)], "probsagain": [key(hatp), key(subp)],
            "trained": trained, "searched": all(2.0 ** -10 <= v <= 16 for m in out.svm for v in (m.C, m.gamma)),
            "tested": tested.tolist(), "folds": int(out.cp.get_n_splits()), "w": [col(r) for r in np.asarray(out.w, dtype=float)],
            "untouched": before == (key(z), key(np.nan_to_num(y, nan=-1)), yb.tolist(), key(ybest)),
            "rows": [names.index(v) + 1 if v in names else 0 for v in rows],
            "box3": col(out.box_consnt), "scale3": col(out.k_scale),
            "table": {"ap": col(t["Avg_Perf_all_instances"]), "sp": col(t["Std_Perf_all_instances"]),
                      "pg": col(t["Probability_of_good"]), "aps": col(t["Avg_Perf_selected_instances"]),
                      "sps": col(t["Std_Perf_selected_instances"]), "tacc": col(t["CV_model_accuracy"]),
                      "tprec": col(t["CV_model_precision"]), "trec": col(t["CV_model_recall"]),
                      "tbox": col(t["BoxConstraint"]), "tscale": col(t["KernelScale"])}}


RULE = ("random coordinates, goodness tables (every algorithm good on 2 to n-2 instances), performances with missing values, "
        "1-4 algorithms, 2-5 folds, both kernels, with and without weights and given hyper-parameters. Most records replace "
        "scikit-learn's training by arbitrary fixed predictions (so that every pattern of predictions, including none, occurs); "
        "and in some two algorithms' track records are all but equal; others train for real with both searches. non-trivial: some instance gets no recommendation and some does")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("PythiaMC", pick("PythiaMC.cfg", "PythiaMC_big.cfg"))
    with quiet(), limit(850):
        recs = parallel(pid, pick(2400, 30000), lambda rng: case(rng, True))
        recs += parallel(pid + "-real", pick(64, 800), lambda rng: case(rng, False))
        if pid == "C51":
            recs += parallel(pid + "-bayes", pick(8, 48), lambda rng: case(rng, False, slow=True))
            recs += parallel(pid + "-one", pick(16, 100), lambda rng: case(rng, False, one_class=True))
    ck.nontrivial = sum(r["got"]["status"] == "ok" and 0 in r["got"]["sel0"] and any(r["got"]["sel0"]) for r in recs)
    ck.note(statuses={k: sum(r["got"]["status"] == k for r in recs) for k in ("ok", "error", "shape")},
            whats=sorted({r["got"].get("what", "") for r in recs})[:6])
    ck.samples.append(recs[0])
    ck.validate("PythiaTrace", recs)
    return ck.finish()
