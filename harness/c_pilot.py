"""C40, C41, C90: the projection, against spec/Pilot.tla."""
from __future__ import annotations

import numpy as np

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.options import PilotOptions
from instancespace.stages.pilot import PilotInput, PilotStage

BIG = 2 * 10**9


def ints(a, scale):
    """Nearest integers at that scale; None when they do not fit."""
    a = np.asarray(a, dtype=np.double) * scale
    if not np.all(np.isfinite(a)) or np.any(np.abs(a) > BIG):
        return None
    return np.rint(a).astype(int).tolist()


def key(*vs):
    return "|".join(str(None if v is None else (np.asarray(v).dtype.kind, np.asarray(v).tolist())) for v in vs)


def rest(a, coarse):
    """What the ten-thousandths leave of a, in billionths."""
    return np.rint((np.asarray(a, dtype=np.double) - np.asarray(coarse) / 1e4) * 1e9).astype(int).tolist()


def error_of(alpha, x, y):
    n, m = x.shape[1], x.shape[1] + y.shape[1]
    bar = np.hstack([x, y])
    a, b = alpha[:2 * n].reshape(2, n), alpha[2 * n:].reshape(m, 2)
    return float(np.mean((bar - (x @ a.T) @ b.T) ** 2))


def table(rng, n, nf, na):
    while True:
        x = np.array([[rng.randint(-3, 3) for _ in range(nf)] for _ in range(n)])
        if rng.random() < 0.3 and nf > 1:      # correlated features
            x[:, 1] = np.clip(x[:, 0] + [rng.randint(-1, 1) for _ in range(n)], -3, 3)
        if rng.random() < 0.2:                 # coincident instances
            x[n - 1] = x[0]
        w = np.array([[rng.randint(-1, 1) for _ in range(na)] for _ in range(nf)])
        y = np.clip(x @ w + np.array([[rng.randint(-1, 1) for _ in range(na)] for _ in range(n)]), -3, 3)
        bar = np.hstack([x, y])
        if np.linalg.matrix_rank(x) == nf and all(len(set(bar[:, j])) > 1 for j in range(nf + na)):
            return x, y


def run(x, y, names, o):
    return PilotStage._run(PilotInput(x.astype(float), y.astype(float), list(names), o))


def describe(out, x, y, names):
    n, na = x.shape[1], y.shape[1]
    m = n + na
    a, z, b, c = (np.asarray(v) for v in (out.a, out.z, out.b, out.c))
    got = {"status": "ok", "shapes_ok": bool(
        a.shape == (2, n) and z.shape == (len(x), 2) and b.shape == (n, 2) and c.shape == (2, na)
        and np.size(out.error) == 1 and np.shape(out.r2) == (m,))}
    if not got["shapes_ok"]:
        return got
    if any(np.iscomplexobj(v) for v in (a, z, b, c)):
        return got | {"shapes_ok": False}
    B = np.vstack([b, c.T]).astype(float)
    cols = list(out.pilot_summary.columns)
    head = [names.index(v) + 1 if v in names else 0 for v in cols[1:]]
    got |= {"A": ints(a, 1e4), "B": ints(B, 1e4), "z": ints(z, 1e4), "err": ints(float(np.asarray(out.error)), 1e4),
            "r2": ints(np.nan_to_num(np.asarray(out.r2, dtype=float), nan=-9), 1e3), "head": head,
            "table": ints(out.pilot_summary.iloc[:, 1:], 1e4),
            "labels": [str(v) for v in out.pilot_summary.iloc[:, 0]]}
    if any(got[k] is None for k in ("A", "B", "z", "err", "table")):
        return None
    got |= {"Alo": rest(a, got["A"]), "zlo": rest(z, got["z"])}
    if np.max(np.abs(z)) * np.max(np.abs(B)) > 90 or np.max(np.abs(z)) > 60 or np.max(np.abs(B)) > 60:
        return None             # would not fit the specification's integers
    return got


def stiff(rng):
    """A feature that all but repeats another: what tells them apart is small, and the performances follow it."""
    n, nf, na = rng.randint(5, 9), rng.randint(2, 4), rng.randint(1, 3)
    while True:
        u = np.array([[rng.randint(-3, 3) for _ in range(nf - 1)] for _ in range(n)])
        e = np.array([rng.randint(-1, 1) for _ in range(n)])
        space = np.column_stack([u, e])
        y = np.array([[rng.choice([1, 2, 3]) * v + rng.randint(-1, 1) for _ in range(na)] for v in e])
        if np.linalg.matrix_rank(space) == nf and all(len(set(y[:, j])) > 1 for j in range(na)):
            break
    twin, s = rng.randrange(nf - 1), 2 ** rng.choice([5, 8, 11, 14])
    x = np.column_stack([u, u[:, twin] + e / s])
    rec = {"x": np.column_stack([u, u[:, twin]]).tolist(), "y": y.tolist(), "e": e.tolist(), "part": s,
           "space": space.tolist(), "method": "stiff", "start": []}
    try:
        with limit(60):
            out = run(x, y, [f"feature_{j}" for j in range(nf)], PilotOptions(x0=None, alpha=None, analytic=True, n_tries=1))
    except Exception as err:  # noqa: BLE001
        return rec | {"got": {"status": "error", "what": f"{type(err).__name__}: {err}"[:200]}}
    z, b, c = (np.asarray(v) for v in (out.z, out.b, out.c))
    if z.shape != (n, 2) or b.shape != (nf, 2) or c.shape != (2, na):
        return rec | {"got": {"status": "ok", "shapes_ok": False}}
    B = np.vstack([b, c.T])
    if np.iscomplexobj(z) or np.max(np.abs(z)) > 60 or np.max(np.abs(B)) > 60:
        return None
    return rec | {"got": {"status": "ok", "shapes_ok": True, "B": ints(B, 1e4), "z": ints(z, 1e4)}}


def slope(rng):
    """Where the search ends, for every attempt; performances may be missing."""
    n, nf, na = rng.randint(4, 9), rng.randint(1, 4), rng.randint(1, 3)
    n = max(n, nf + 1)
    x, y = table(rng, n, nf, na)
    m = nf + na
    dim = 2 * m + 2 * nf
    known = np.ones((n, m), dtype=int)
    if rng.random() < 0.3:
        for i in range(n):
            for j in range(na):
                if rng.random() < 0.15:
                    known[i, nf + j] = 0
    tries, start = rng.randint(1, 3), None
    if rng.random() < 0.5:
        start = np.array([[rng.randint(-8, 8) / 8 for _ in range(tries)] for _ in range(dim)])
    rec = {"x": x.tolist(), "y": y.tolist(), "known": known.tolist(), "method": "slope", "start": []}
    seen = np.where(known[:, nf:] == 1, y, np.nan)
    try:
        with limit(60):
            out = run(x, seen, [f"feature_{j}" for j in range(nf)], PilotOptions(x0=start, alpha=None, analytic=False, n_tries=tries))
    except Exception as err:  # noqa: BLE001
        return rec | {"got": {"status": "error", "what": f"{type(err).__name__}: {err}"[:200]}}
    cols, a, b, c = (np.asarray(v, dtype=float) for v in (out.alpha, out.a, out.b, out.c))
    if cols.shape != (dim, tries) or a.shape != (2, nf) or b.shape != (nf, 2) or c.shape != (2, na):
        return rec | {"got": {"status": "ok", "shapes_ok": False}}
    data = np.hstack([x, y])
    for v in cols.T:
        pa, pb = np.abs(v[:2 * nf].reshape(2, nf)), np.abs(v[2 * nf:].reshape(m, 2))
        z = x @ v[:2 * nf].reshape(2, nf).T
        left = np.max(np.abs(z @ v[2 * nf:].reshape(m, 2).T - data))
        if np.max(np.abs(x) @ pa.T) > 15 or np.max(pb) > 10 or left > 10:
            return None         # would not fit the specification's integers
    return rec | {"got": {"status": "ok", "shapes_ok": True, "cols": ints(cols.T, 1e4), "A": ints(a, 1e4),
                          "B": ints(np.vstack([b, c.T]), 1e4)}}


def case(rng, pid):
    if pid == "C90":
        return slope(rng)
    if pid == "C40" and rng.random() < 0.15:
        return stiff(rng)
    n, nf, na = rng.randint(4, 9), rng.randint(1, 4), rng.randint(1, 3)
    n = max(n, nf + 1)
    x, y = table(rng, n, nf, na)
    m = nf + na
    names = [f"feature_{w}" for w in rng.sample(["b", "a", "d", "c", "ä e", "0", "f"], nf)]
    method = rng.choices(["analytic", "tries", "given"], [0, 1, 0] if pid == "C41" else [5, 2, 2])[0]
    dim = 2 * m + 2 * nf
    start, alpha, n_tries = None, None, rng.randint(1, 4)
    if method == "given":
        alpha = np.array([[rng.randint(-12, 12) / 8] for _ in range(dim)])
    elif method == "tries" and rng.random() < 0.5:
        k = rng.randint(1, 4)
        start = np.array([[rng.randint(-8, 8) / 8 for _ in range(k)] for _ in range(dim)])
        if rng.random() < 0.25:
            start[:, rng.randrange(k)] = 0         # stays where it is: every instance on one spot
    form = (lambda v: v) if rng.random() < 0.5 else (lambda v: None if v is None else v.tolist())
    o = PilotOptions(x0=form(start), alpha=form(alpha), analytic=method == "analytic", n_tries=n_tries)
    rec = {"x": x.tolist(), "y": y.tolist(), "method": method, "start": [], "got": {}}
    try:
        with limit(60):
            out = run(x, y, names, o)
    except Exception as e:  # noqa: BLE001
        return rec | {"got": {"status": "error", "what": f"{type(e).__name__}: {e}"[:200]}}
    got = describe(out, x, y, names)
    if got is None:
        return None
    rec["got"] = got
    if method == "analytic" or not got["shapes_ok"]:
        return rec
    cols = np.asarray(out.alpha, dtype=float) if method == "tries" else alpha
    if cols.ndim != 2 or cols.shape[0] != dim:
        got["shapes_ok"] = False
        return rec
    got["cols"] = ints(cols.T, 1e4)
    if method == "given":
        return rec
    if start is not None:
        rec["start"] = [key(start[:, i]) for i in range(start.shape[1])]
    x0 = np.asarray(out.X0)
    if x0.ndim != 2 or x0.shape[0] != dim or x0.shape[1] != cols.shape[1] or got["cols"] is None:
        got["shapes_ok"] = False
        return rec
    perf = np.asarray(out.perf, dtype=float).ravel()
    order = sorted(set(perf[~np.isnan(perf)]))
    got |= {"x0": [key(x0[:, i].astype(float)) for i in range(x0.shape[1])],
            "perf": ints(np.nan_to_num(perf, nan=5), 1e3), "rank": [0 if np.isnan(v) else order.index(v) + 1 for v in perf],
            "eopt": ints(out.eoptim, 1e4), "begin": ints([error_of(x0[:, i], x, y) for i in range(x0.shape[1])], 1e4)}
    k = cols.shape[1]
    if max(np.max(np.abs(x @ c[:nf])) for c in cols.T) > 60 or max(np.max(np.abs(x @ c[nf:2 * nf])) for c in cols.T) > 60 or \
            max(np.max(np.abs(x @ cols[:2 * nf, i].reshape(2, nf).T)) * np.max(np.abs(cols[2 * nf:, i])) for i in range(k)) > 90:
        return None
    got["colkeys"] = [key(cols[:, i]) for i in range(k)]
    got["first"] = key(*out[:-1]) + out.pilot_summary.to_csv()
    np.random.seed(rng.randint(0, 10**6))
    alone = []
    for i in range(k):
        one = run(x, y, names, PilotOptions(x0=x0[:, i:i + 1], alpha=None, analytic=False, n_tries=n_tries))
        alone.append(key(np.asarray(one.alpha, dtype=float)[:, 0]))
    got["alone"] = alone
    out = run(x, y, names, o)
    got["again"] = key(*out[:-1]) + out.pilot_summary.to_csv()
    return rec


RULE = ("random integer tables (4-9 instances, 1-4 features of full rank, 1-3 algorithms; correlated features, coincident "
        "instances), analytic (also with a feature that all but repeats another) and numerical, random and user-defined starting points (arrays or lists, another number than the "
        "number of tries, starts that cannot move), given solutions; numerical runs repeated and every start tried by itself; "
        "non-trivial: more than one attempt, or a solution that does not come from random starts")

SLOPES = ("random integer tables (4-9 instances, 1-4 features of full rank, 1-3 algorithms, performances missing), 1-3 attempts "
          "from random or given starting points; non-trivial: any search")


def main(pid):
    ck = Checker(pid, "model_checking", SLOPES if pid == "C90" else RULE)
    ck.model("PilotMC", pick("PilotMC.cfg", "PilotMC_big.cfg"))
    n = pick(1200, 12000) if pid != "C41" else pick(320, 3000)
    with quiet(), limit(800):
        drawn = parallel(pid, n, lambda rng: case(rng, pid))
    recs = [r for r in drawn if r]
    ck.nontrivial = sum(r["method"] != "tries" or len(r["got"].get("perf", [])) > 1 for r in recs)
    ck.note(methods={k: sum(r["method"] == k for r in recs) for k in ("analytic", "tries", "given", "stiff", "slope")},
            refused=sum(r["got"]["status"] != "ok" for r in recs), out_of_range=len(drawn) - len(recs))
    ck.samples.append(recs[0])
    ck.validate("PilotTrace", recs)
    return ck.finish()
