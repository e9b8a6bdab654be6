"""C24: similarity filtering, against spec/Filter.tla."""
from __future__ import annotations

import itertools

import numpy as np

from common import Checker, limit, parallel, pick, quiet

from instancespace.utils.filter import do_filter

TYPES = ["Ftr", "Ftr&AP", "Ftr&Good", "Ftr&AP&Good"]


def observe(x, y, yb, kind, md, scale=1):
    """md: the distance in units of 1/scale, possibly half-integral."""
    md2 = int(md * md)   # integer squared distances: floor decides the same
    rec = {"x": x, "y": y, "yb": yb, "type": kind, "md2": md2}
    got = {"status": "ok"}
    try:
        ex, dis, visa, u = do_filter(np.array(x) / scale, np.array(y) / scale, np.array(yb, dtype=bool), kind, md / scale)
        got |= {"excluded": [bool(v) for v in ex], "dissimilar": [bool(v) for v in dis], "visa": [bool(v) for v in visa],
                "u": int(round(max(-1e6, min(1e6, u * 1000)))) if np.isfinite(u) else -99999999}
    except Exception as e:  # noqa: BLE001
        got = {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}
    rec["got"] = got
    return rec


def one(rng):
    n = rng.randint(1, 8)
    nf, na = rng.randint(1, 4), rng.randint(1, 4)
    top = rng.choice([1, 2, 4, 8])
    x = [[rng.randint(-top, top) for _ in range(nf)] for _ in range(n)]
    ytop = rng.choice([1, 2, 6])
    y = [[rng.randint(0, ytop) for _ in range(na)] for _ in range(n)]
    for i in range(n):
        if i and rng.random() < 0.15:
            x[i] = list(x[rng.randrange(i)])
        if i and rng.random() < 0.15:
            y[i] = list(y[rng.randrange(i)])
    g = rng.choice([0.5, 0.8, 0.95])
    yb = [[rng.random() < g for _ in range(na)] for _ in range(n)]
    md = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])     # a whole number of units: performance distances are decided exactly
    return observe(x, y, yb, rng.choice(TYPES), md, rng.choice([1, 1, 4]))


RULE = ("random point sets (1-8 instances on a small grid, 1-4 features, 1-4 algorithms, duplicates, distances met "
        "exactly) under every criterion, and every set of four points on a line with every labelling for each criterion; "
        "non-trivial: some instance is similar to an earlier one")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("FilterMC", pick("FilterMC.cfg", "FilterMC_big.cfg"))
    with quiet(), limit(700):
        recs = parallel(pid, pick(6000, 60000), one)
        for kind in TYPES:
            for xs in itertools.product(range(3), repeat=4):
                for bits in itertools.product([0, 1], repeat=4):
                    recs.append(observe([[v] for v in xs], [[b] for b in bits], [[not b] for b in bits], kind, 1))
    for r in recs:     # uniformity in hundredths has to stay small
        assert all(abs(v) <= 10 for row in r["x"] for v in row)
    ck.nontrivial = sum(r["got"]["status"] == "ok" and not all(r["got"]["dissimilar"]) for r in recs)
    ck.samples.append(recs[0])
    ck.validate("FilterTrace", recs)
    return ck.finish()
