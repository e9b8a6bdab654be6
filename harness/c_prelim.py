"""C20, C21, C22: performance rule, bounding and standardisation, against spec/Prelim.tla."""
from __future__ import annotations

import itertools

import numpy as np
import pandas as pd
from scipy import special

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.options import InstanceSpaceOptions, PrelimOptions, SelvarsOptions
from instancespace.stages.prelim import PrelimInput, PrelimStage

MISSING = -99999999
ODD = -77777777    # a value that is not a multiple of the unit


INFINITE = {1: 0, 4: 2**20, 8: 2**27}    # beyond every other value and bound


def unit(v, scale):
    if np.isnan(v):
        return MISSING
    if np.isinf(v):
        return INFINITE[scale] if v > 0 else -INFINITE[scale]
    w = v * scale
    return int(w) if np.isfinite(w) and w == int(w) and abs(w) < 2**30 else ODD


def units(m, scale):
    return [[unit(v, scale) for v in row] for row in np.asarray(m, dtype=float)]


class Places:
    """Values that differ by next to nothing: each stands for its place among all of them."""

    def __init__(self, *tables):
        vals = {float(v) for t in tables for v in np.ravel(t) if not np.isnan(v)}
        self.place = {v: 4 * k + 4 for k, v in enumerate(sorted(vals))}

    def of(self, v):
        return MISSING if np.isnan(v) else self.place.get(float(v), ODD)

    def table(self, m):
        return [[self.of(v) for v in row] for row in np.asarray(m, dtype=float)]


def milli(v):
    if np.isnan(v):
        return MISSING
    return int(round(max(-2e6, min(2e6, v * 1000))))


def ranks(col):
    vals = sorted({v for v in col if not np.isnan(v)})
    return [MISSING if np.isnan(v) else vals.index(v) for v in col]


def back(col, low, lam, mu, sigma, shift):
    """The normalised column as the reported parameters give it."""
    t = special.boxcox(col - low + shift, lam)
    with np.errstate(all="ignore"):
        return [milli(v) if sigma > 0 else MISSING for v in (t - mu) / sigma]


def observe(x, y, rule, beta, switches, threshold=None):
    """threshold: given for tables of values that differ by next to nothing."""
    auto, bound, norm = switches
    fine = threshold is not None
    if fine:
        px, py = Places(x), Places(y, [threshold])
        ux, uy, vx, vy = px.table, py.table, px.of, py.of
        rule |= {"en": py.of(threshold) // 4, "ed": 1}
    else:
        threshold = rule["en"] / rule["ed"]
        ux, uy, vx, vy = (lambda m: units(m, 8)), (lambda m: units(m, 4)), (lambda v: unit(v, 8)), (lambda v: unit(v, 4))
    opts = PrelimOptions.from_options(InstanceSpaceOptions.from_dict({
        "auto": {"preproc": auto}, "bound": {"flag": bound}, "norm": {"flag": norm},
        "perf": {"MaxPerf": rule["max"], "AbsPerf": rule["abs"], "epsilon": threshold,
                 "betaThreshold": beta[0] / beta[1]}}))
    bound, norm = auto and bound, auto and norm
    n, nf = x.shape
    na = y.shape[1]
    xin, yin, xr, yr = x.copy(), y.copy(), x.copy(), y.copy()
    rec = {"nr": n, "nf": nf, "na": na, "fine": fine, "x": ux(x), "y": uy(y), "rule": rule, "bn": beta[0], "bd": beta[1],
           "bound": bound, "norm": norm, "switches": list(switches)}
    got = {"status": "ok"}
    try:
        out = PrelimStage._run(PrelimInput(x=xin, y=yin, x_raw=xr, y_raw=yr, s=None,
                                           inst_labels=pd.Series([f"i{i}" for i in range(n)]),
                                           prelim_options=opts, selvars_options=SelvarsOptions.default()))
        got |= {"ybin": [[bool(v) for v in row] for row in out.y_bin],
                "ybest": [0 if abs(v) < 1e-12 else vy(v) for v in out.y_best],
                "p": [int(v) for v in out.p], "count": [unit(v, 1) for v in out.num_good_algos],
                "easy": [bool(v) for v in out.beta],
                "med": [unit(v, 8) for v in out.med_val], "iqr": [unit(v, 8) for v in out.iq_range],
                "hi": [unit(v, 8) for v in out.hi_bound], "lo": [unit(v, 8) for v in out.lo_bound],
                "x": ux(out.x), "y": uy(out.y), "xraw": ux(out.x_raw), "yraw": uy(out.y_raw),
                "xin": ux(xin), "yin": uy(yin), "minx": [vx(v) for v in out.min_x]}
        if norm:
            lo, hi = np.asarray(out.lo_bound), np.asarray(out.hi_bound)
            bx = np.clip(x, lo, hi) if bound else x
            eps = np.finfo(float).eps
            got |= {"zx": [[milli(v) for v in c] for c in out.x.T], "zy": [[milli(v) for v in c] for c in out.y.T],
                    "rankx": [ranks(c) for c in out.x.T], "ranky": [ranks(c) for c in out.y.T],
                    "lamx": [milli(v) for v in out.lambda_x], "lamy": [milli(v) for v in out.lambda_y],
                    "backx": [back(bx[:, j], out.min_x[j], out.lambda_x[j], out.mu_x[j], out.sigma_x[j], 1)
                              for j in range(nf)],
                    "backy": [back(y[:, j], out.min_y, out.lambda_y[j], out.mu_y[j], out.sigma_y[j], eps)
                              for j in range(na)]}
    except Exception as e:  # noqa: BLE001
        got = {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}
    rec["got"] = got
    return rec


EPS = [(0, 1), (1, 20), (1, 10), (1, 5), (1, 4), (1, 2), (3, 4), (1, 8)]


def rules(rng):
    absolute = rng.random() < 0.5
    if absolute:
        d = rng.choice([1, 2, 4, 4, 10])
        en, ed = rng.randint(-20, 40), d
    else:
        en, ed = rng.choice(EPS)
    return {"max": rng.random() < 0.5, "abs": absolute, "en": en, "ed": ed}


def column(rng, n):
    kind = rng.choice(["plain", "plain", "wide", "outlier", "outlier", "ties", "negative", "edge"])
    if kind == "wide":
        c = [rng.randint(-4000, 4000) for _ in range(n)]
    elif kind == "ties":
        c = [rng.choice([0, 1, 2]) * 4 for _ in range(n)]
    elif kind == "negative":
        c = [rng.randint(-80, -1) for _ in range(n)]
    else:
        c = [rng.randint(-6, 6) for _ in range(n)]
        if kind in ("outlier", "edge"):
            for i in rng.sample(range(n), rng.randint(1, max(1, n // 5))):
                c[i] = rng.choice([-1, 1]) * (rng.randint(20, 900) if kind == "outlier" else rng.randint(15, 50))
    return np.array(c) / 4


def near(rng, pid):
    """Values that differ by next to nothing (for performances not next to the smallest one: a power flattens those)."""
    n, nf, na = rng.randint(3, 9), rng.randint(1, 2), rng.choice([1, 2, 3, 4])
    step = rng.choice([1e-10, 1e-8] if pid == "C22" else [1e-13, 1e-10, 1e-7])

    def cell(lo):
        base = rng.randint(lo, 10)
        return base + step * rng.randint(0, 3) if base > lo else float(base)

    x = np.array([[cell(rng.randint(0, 3)) for _ in range(nf)] for _ in range(n)])
    y = np.array([[cell(1) for _ in range(na)] for _ in range(n)])
    for i in range(n):      # rivals that are all but equal
        if na > 1 and rng.random() < 0.4:
            a, b = rng.sample(range(na), 2)
            if y[i, b] > 1:
                y[i, a] = round(y[i, b]) + step * rng.randint(0, 3)
    if rng.random() < 0.3 and na > 1:
        y[rng.randrange(n), rng.randrange(na)] = np.nan
    absolute = rng.random() < 0.7
    eps = y[rng.randrange(n), rng.randrange(na)] if absolute else 0.125
    if np.isnan(eps):
        eps = 2.0
    if absolute and rng.random() < 0.5:
        eps = round(eps) + step * rng.randint(-2, 3)
    return observe(x, y, {"max": rng.random() < 0.5, "abs": absolute, "en": 0, "ed": 1}, (1, 2),
                   (True, False, rng.random() < (0.8 if pid == "C22" else 0.1)), float(eps))


def table(rng, pid):
    if rng.random() < 0.12:
        return near(rng, pid)
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 20])
    nf, na = rng.randint(1, 3), rng.choice([1, 2, 2, 3, 4, 5])
    x = np.column_stack([column(rng, n) for _ in range(nf)])
    rule = rules(rng)
    top = rng.choice([3, 8, 40])
    low = 0 if not rule["abs"] else rng.choice([0, 0, -top])
    y = np.array([[rng.randint(low, top) / 4 for _ in range(na)] for _ in range(n)])
    if rng.random() < 0.3:
        y[rng.randrange(n)] = 0
    if rng.random() < 0.3:
        y[rng.randrange(n)] = y[rng.randrange(n), 0]
    if rng.random() < 0.35:
        for i, j in itertools.product(range(n), range(na)):
            if rng.random() < 0.2:
                y[i, j] = np.nan
    if rng.random() < 0.25:
        for i, j in itertools.product(range(n), range(nf)):
            if rng.random() < 0.15:
                x[i, j] = np.nan
    bd = rng.choice([1, 2, 3, 4, 5, 20])
    beta = (rng.randint(0, bd), bd)
    p_norm = {"C20": 0.1, "C21": 0.3, "C22": 0.75}[pid]
    switches = (rng.random() < 0.85, rng.random() < 0.7, rng.random() < p_norm)
    # Infinite values: a feature far out of every bound, a run that never ended
    if n >= 9 and rng.random() < 0.2 and (switches[1] or not switches[2]):
        i, j = rng.randrange(n), rng.randrange(nf)
        if not np.isnan(x[:, j]).any():
            x[i, j] = rng.choice([-np.inf, np.inf])
    if na > 1 and not (switches[0] and switches[2]) and rng.random() < 0.2:
        for i in range(n):
            if rng.random() < 0.3 and not np.isnan(y[i]).any():
                y[i, rng.randrange(na)] = -np.inf if rule["max"] else np.inf
            if rng.random() < 0.1 and not np.isnan(y[i]).any():     # every run failed, or one succeeded beyond measure
                y[i] = -np.inf if rule["max"] else np.inf
            elif rng.random() < 0.05 and not np.isnan(y[i]).any():
                y[i, rng.randrange(na)] = np.inf if rule["max"] else -np.inf
    return observe(x, y, rule, beta, switches)


def ties_of_fraction(bn, bd, na):
    """Is the easiness bound a number binary arithmetic cannot hold exactly?"""
    return (bn * na) % bd == 0 and bn / bd * na != bn * na // bd


RULE = ("random tables (1-20 instances, 1-3 features, 1-5 algorithms; ties, zeros, outliers, heavy repetition, values "
        "exactly on thresholds and bounds, missing cells, infinite features and failed runs; one in eight with values that differ by less than a millionth to a ten-billionth) under random performance rules and all combinations of the "
        "automatic, bounding and normalisation switches, read from option dictionaries; for C20 also every performance "
        "row of small values under a grid of rules; non-trivial: several algorithms or a value is clipped or scaled")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("PrelimMC", pick("PrelimMC.cfg", "PrelimMC_big.cfg"))
    with quiet(), limit(700):
        recs = parallel(pid, pick({"C20": 5000, "C21": 5000, "C22": 2500}[pid],
                                  {"C20": 60000, "C21": 60000, "C22": 30000}[pid]), lambda rng: table(rng, pid))
        if pid == "C20":
            vals = pick([np.nan, 0, 0.25, 0.5, 1], [np.nan, 0, 0.25, 0.5, 0.75, 1, 2])
            for na in (1, 2, 3):
                y = np.array([r for r in itertools.product(vals, repeat=na) if not all(np.isnan(r))])
                x = np.arange(len(y), dtype=float)[:, None]
                for mx, ab, (en, ed), beta in itertools.product([True, False], [True, False], EPS,
                                                                [(0, 1), (1, 2), (2, 3), (1, 1)]):
                    recs.append(observe(x, y, {"max": mx, "abs": ab, "en": en, "ed": ed}, beta, (True, False, False)))
        recs = [r for r in recs if not ties_of_fraction(r["bn"], r["bd"], r["na"])]
    ck.nontrivial = sum(r["na"] > 1 or r["norm"] or r["bound"] for r in recs)
    ck.note(refused=sum(r["got"]["status"] != "ok" for r in recs), normalised=sum(r["norm"] for r in recs))
    ck.samples.append(recs[0])
    ck.validate("PrelimTrace", recs)
    return ck.finish()
