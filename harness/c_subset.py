"""C23: restricting a run to some instances, against spec/Subset.tla."""
from __future__ import annotations

import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from c_preproc import index_of
from common import Checker, limit, parallel, pick, quiet

from instancespace.data.options import PrelimOptions, SelvarsOptions
from instancespace.stages.prelim import PrelimInput, PrelimStage

NAMES = {"x": "x", "y": "y", "x_raw": "x_raw", "y_raw": "y_raw", "y_bin": "y_bin", "y_best": "y_best", "p": "p",
         "num_good_algos": "count", "beta": "easy", "inst_labels": "labels", "s": "s"}


class Keys:
    """Numbers for values: equal number, equal value."""

    def __init__(self):
        self.seen = {}

    def rows(self, name, v):
        if v is None:
            return []
        a = v.to_numpy() if isinstance(v, pd.Series) else np.asarray(v)
        return [self.seen.setdefault((name, str(np.asarray(r).tolist())), len(self.seen) + 1) for r in a]

    def fields(self, out):
        return {short: self.rows(short, getattr(out, name, None)) for name, short in NAMES.items()}


def run(x, y, xr, yr, labels, s, popt, sopt):
    return PrelimStage._run(PrelimInput(x=x.copy(), y=y.copy(), x_raw=xr.copy(), y_raw=yr.copy(),
                                        s=None if s is None else s.copy(), inst_labels=labels.copy(),
                                        prelim_options=popt, selvars_options=sopt))


def one(rng, d):
    n = rng.choice([3, 4, 5, 6, 7, 8, 9, 10, 15])
    nf, na = rng.randint(1, 3), rng.randint(1, 3)
    kind = rng.choice(["none", "fraction", "file", "file", "density", "density"])
    top = 3 if kind == "density" else 40
    far = kind == "density" and rng.random() < 0.4      # outliers that bounding brings back
    x = np.array([[rng.randint(-top, top) for _ in range(nf)] for _ in range(n)], dtype=float)
    if far:
        for i in rng.sample(range(n), rng.choice([1, 2])):
            x[i] = [rng.choice([-60, 40, 60]) for _ in range(nf)]
    y = np.array([[rng.randint(0, 12) for _ in range(na)] for _ in range(n)], dtype=float)
    xr, yr = 3 * x + 0.5, y.copy()     # the raw tables are data of their own
    norm = kind != "density" and rng.random() < 0.4 and all(len(set(c)) > 2 for m in (x, y) for c in m.T)
    popt = PrelimOptions(max_perf=rng.random() < 0.5, abs_perf=kind == "density" or rng.random() < 0.5,
                         epsilon=rng.choice([0.25, 0.5]) if kind != "density" else float(rng.randint(2, 9)),
                         beta_threshold=0.5, bound=rng.random() < 0.5 and not norm, norm=norm)
    index = index_of(rng, n)
    labels = pd.Series([f"inst{i}" for i in range(n)], index=index, name="Instances")
    s = pd.Series([f"s{rng.randint(0, 2)}" for _ in range(n)], index=index, name="Source") if rng.random() < 0.6 else None
    o = {"kind": kind, "a": 1, "b": 1, "list": []}
    t = {"x": [], "y": [], "yb": [], "type": "Ftr", "md2": 0}
    kw = {}
    if kind == "fraction":
        o["b"] = rng.choice([2, 4, 8])
        o["a"] = rng.randint(1, o["b"] - 1)
        if -(-n * o["a"] // o["b"]) >= n:
            o["a"], o["b"] = 1, 2
        kw = {"small_scale_flag": True, "small_scale": o["a"] / o["b"]}
    elif kind == "file":
        pool = list(range(1, n + 1)) * 3 + [n, n, 1, 0, -1, n + 1, n + 2, 10 * n]
        o["list"] = [rng.choice(pool) for _ in range(rng.choice([1, 1, 2, 3, 5, n]))]
        path = os.path.join(d, f"index{os.getpid()}.csv")
        sep = "," if rng.random() < 0.5 else "\n"
        with open(path, "w") as f:
            f.write(sep.join(map(str, o["list"])) + ("\n" if rng.random() < 0.5 else ""))
        kw = {"file_idx_flag": True, "file_idx": path}
    elif kind == "density":
        md = rng.choice([0.0, 1.0, 1.0, 1, 2.0, 3, 3.0])    # an options file may say 1
        ftype = rng.choice(["Ftr", "Ftr&Good", "Ftr&AP", "Ftr&AP&Good"])
        if na != nf and ftype not in ("Ftr", "Ftr&Good"):
            ftype = "Ftr"
        kw = {"density_flag": True, "min_distance": md, "selvars_type": ftype}
    k = Keys()
    full_out = run(x, y, xr, yr, labels, s, popt, SelvarsOptions.default())
    full = k.fields(full_out)
    if kind == "density":
        # the table as processed, in quarters
        t = {"x": np.rint(4 * full_out.x).astype(int).tolist(), "y": (4 * y).astype(int).tolist(), "yb": full_out.y_bin.tolist(),
             "type": kw["selvars_type"], "md2": int(16 * kw["min_distance"] ** 2)}
    rec = {"n": n, "o": o, "has_s": s is not None, "t": t, "full": full, "options": {a: str(b) for a, b in kw.items()}}
    try:
        sopt = SelvarsOptions.default(**kw)
        out = run(x, y, xr, yr, labels, s, popt, sopt)
        again = run(x, y, xr, yr, labels, s, popt, sopt)
        dd = out.data_dense
        rec["got"] = {"status": "ok", "f": k.fields(out), "has_s": out.s is not None,
                      "again": k.rows("labels", getattr(again, "inst_labels", None)),
                      "has_dense": dd is not None, "dense": k.fields(dd) if dd is not None else {"labels": []}}
    except Exception as e:  # noqa: BLE001
        rec["got"] = {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}
    return rec


RULE = ("random data sets (3-15 instances, with and without sources, unusual row indices, with and without scaling) run "
        "with every kind of subset option - none, fractions, index files with first, last, repeated, single and "
        "out-of-range entries, density filters of every criterion - and compared with the run without one; "
        "non-trivial: some instances are left out")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("SubsetMC", pick("SubsetMC.cfg", "SubsetMC_big.cfg"))
    d = tempfile.mkdtemp(prefix="subset-")
    try:
        with quiet(), limit(700):
            recs = parallel(pid, pick(4000, 40000), lambda rng: one(rng, d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ck.nontrivial = sum(r["got"]["status"] == "ok" and len(r["got"]["f"]["labels"]) < r["n"] for r in recs)
    ck.note(kinds={k: sum(r["o"]["kind"] == k for r in recs) for k in ("none", "fraction", "file", "density")})
    ck.samples.append(recs[0])
    ck.validate("SubsetTrace", recs)
    return ck.finish()
