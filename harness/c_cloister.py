"""C42: the boundary estimate, against spec/Cloister.tla."""
from __future__ import annotations

import numpy as np

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.options import CloisterOptions
from instancespace.stages.cloister import CloisterInput, CloisterStage


def table(rng):
    nf = rng.choice([6, 7]) if rng.random() < 0.01 else rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 5])
    n = rng.choice([3, 4, 6, 8, 10, 12])
    x = np.zeros((n, nf), dtype=int)
    for j in range(nf):
        kind = rng.random()
        if j and kind < 0.55:
            src = x[:, rng.randrange(j)]
            noise = rng.choice([0, 1, 1, 2])
            x[:, j] = rng.choice([1, -1]) * src + [rng.randint(-noise, noise) for _ in range(n)]
        elif kind < 0.6:
            x[:, j] = rng.randint(-2, 2)
        else:
            x[:, j] = [rng.randint(-3, 3) for _ in range(n)]
        x[:, j] = np.clip(x[:, j], -3, 3)
        if rng.random() < 0.3:     # all of one sign
            x[:, j] += rng.choice([4, -4])
    a = np.array([[rng.randint(-3, 3) for _ in range(nf)] for _ in range(2)])
    if rng.random() < 0.05:
        a[1] = a[0]
    return x, a


def points(z):
    z = np.asarray(z, dtype=float)
    if z.size == 0:
        return [], True
    if z.ndim != 2 or z.shape[1] != 2 or not np.all(np.isfinite(z)):
        return [], False
    return np.rint(z).astype(int).tolist(), bool(np.max(np.abs(z - np.rint(z))) < 1e-6)


def case(rng):
    x, a = table(rng)
    rn, rd = rng.choice([(7, 10), (7, 10), (1, 2), (9, 10), (3, 10), (0, 1), (1, 1)])
    allsig = rng.random() < 0.3
    rec = {"x": x.tolist(), "A": a.tolist(), "rn": rn, "rd": rd, "all": allsig}
    try:
        with limit(60):
            out = CloisterStage._run(CloisterInput(x.astype(float), a.astype(float),
                                                   CloisterOptions(p_val=1.0 if allsig else 0.05, c_thres=rn / rd)))
        (e, e_ok), (k, k_ok) = points(out.z_edge), points(out.z_ecorr)
        rec["got"] = {"status": "ok", "exact": e_ok and k_ok, "edge": e, "corr": k}
    except Exception as ex:  # noqa: BLE001
        rec["got"] = {"status": "error", "what": f"{type(ex).__name__}: {ex}"[:200]}
    return rec


RULE = ("random integer tables (3-12 instances, 1-5 features; features following or mirroring others, constant or one-signed "
        "features) and integer projections, thresholds on both sides of the correlations, with and without the significance "
        "rule; non-trivial: the tighter boundary differs from the outer one")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("CloisterMC", pick("CloisterMC.cfg", "CloisterMC_big.cfg"))
    with quiet(), limit(700):
        recs = parallel(pid, pick(4000, 60000), case)
    ck.nontrivial = sum(r["got"]["status"] == "ok" and r["got"]["edge"] != r["got"]["corr"] for r in recs)
    ck.samples.append(recs[0])
    ck.validate("CloisterTrace", recs)
    return ck.finish()
