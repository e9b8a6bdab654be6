"""C60-C62, C64: footprints and their clustering, against spec/Footprints.tla and spec/Dbscan.tla."""
from __future__ import annotations

import math
from fractions import Fraction

import numpy as np
import pandas as pd
from scipy.spatial import Delaunay
from shapely.geometry import MultiPoint, MultiPolygon, Point, Polygon, box
from shapely.ops import triangulate, unary_union

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.model import Footprint
from instancespace.data.options import ParallelOptions, TraceOptions
from instancespace.stages.trace import TraceInputs, TraceStage

UNIT = 0.02
PURITY = [(0, 1), (1, 4), (1, 2), (11, 20), (3, 4), (1, 1)]


def failure(ex):
    return {"status": "error", "what": f"{type(ex).__name__}: {ex}"[:200]}


def whole(v, scale, top=10 ** 9):
    v = float(v)
    if not math.isfinite(v):
        return -1
    return int(max(-top, min(top, round(v * scale))))


# ---------------------------------------------------------------- clustering
def scatter(rng, n, kind, side=40):
    if kind == "line":
        a, b = rng.randint(-3, 3), rng.randint(1, 3)
        return [(t * b, t * a) for t in (rng.randint(-8, 8) for _ in range(n))]
    if kind == "axis":
        c = rng.randint(0, 9)
        return [(rng.randint(0, side), c) for _ in range(n)]
    if kind == "grid":
        return [(rng.randint(0, 5), rng.randint(0, 5)) for _ in range(n)]
    if kind == "blobs":
        cs = [(rng.randint(0, side), rng.randint(0, side)) for _ in range(rng.randint(1, 4))]
        return [(c[0] + rng.randint(-3, 3), c[1] + rng.randint(-3, 3)) for c in (rng.choice(cs) for _ in range(n))]
    if kind == "chain":
        x = y = 0
        out = []
        for _ in range(n):
            x, y = x + rng.randint(0, 2), y + rng.randint(-1, 2)
            out.append((x, y))
        rng.shuffle(out)
        return out
    return [(rng.randint(0, side), rng.randint(0, side)) for _ in range(n)]


def cluster_case(rng):
    kind = rng.choice(["line", "axis", "grid", "grid", "blobs", "blobs", "chain", "chain", "any"])
    n = rng.choice([1, 2, 3, 4, 6, 8, 10, 14, 18, 24])
    pts = scatter(rng, n, kind, rng.choice([6, 12, 30]))
    k = rng.choice([1, 2, 2, 3, 3, 3, 4, 5, 8])
    r2n, r2d = rng.choice([(1, 1), (2, 1), (5, 2), (4, 1), (9, 1), (21, 2), (25, 1), (1, 2), (0, 1), (101, 4)])
    rec = {"kind": "cluster", "pts": [list(p) for p in pts], "k": k, "r2n": r2n, "r2d": r2d}
    try:
        with limit(60):
            # attained exactly (the radius is included) or half a step away: squared distances are integers
            root = math.isqrt(r2n)
            eps = (math.sqrt(float(Fraction(r2n, r2d))) if r2d > 1 else
                   float(root) if root * root == r2n else math.sqrt(r2n + 0.25))
            got = TraceStage.dbscan(np.array(pts, dtype=float), k, eps)
        rec["got"] = labels(got)
    except Exception as ex:  # noqa: BLE001
        rec["got"] = failure(ex)
    return rec


def labels(got):
    got = np.asarray(got, dtype=float)
    if got.ndim != 1 or not np.all(np.isfinite(got)) or np.any(got != np.rint(got)):
        return {"status": "error", "what": "labels are no integers"}
    return {"status": "ok", "labels": got.astype(int).tolist()}


def k_of(marked):
    return max(min(-(-marked // 20), 50), 3)


def near_tie(pts, marked):
    """Whether some pair of points is too close to the radius to tell."""
    if len(pts) < 2:
        return False
    a = np.array(pts, dtype=float)
    w, h = np.ptp(a, axis=0)
    r2 = w * h * k_of(marked) / (math.pi * len(pts))
    d2 = ((a[:, None] - a[None]) ** 2).sum(-1)
    return bool(np.any((d2 > 0) & (np.abs(d2 - r2) <= 1e-5 * np.maximum(r2, d2))))


def radius_case(rng):
    while True:
        kind = rng.choice(["line", "axis", "grid", "blobs", "blobs", "chain", "any", "any"])
        pts = sorted(set(scatter(rng, rng.choice([3, 4, 5, 7, 10, 15, 22, 30]), kind, rng.choice([12, 40, 120]))))
        if rng.random() < 0.1:
            pts = sorted(set(scatter(rng, 90, "any", rng.choice([20, 40]))))
        rng.shuffle(pts)
        marked = rng.choice([3, len(pts), 21, 60, 61, 79, 80, 81, 100, 101, 150, 200, 999, 1001, 1500])
        if len(pts) >= 1 and not near_tie(pts, marked):
            break
    rec = {"kind": "radius", "pts": [list(p) for p in pts], "marked": marked}
    mask = np.array([True] * marked + [False] * rng.choice([0, 7, 300]))
    try:
        with limit(60):
            scale = rng.choice([1.0, UNIT, 3.0])
            got = TraceStage.run_dbscan(mask, np.array(pts, dtype=float) * scale)
        rec["got"] = labels(got)
    except Exception as ex:  # noqa: BLE001
        rec["got"] = failure(ex)
    return rec


# ---------------------------------------------------------------- footprints
def surfaces(poly):
    parts = [poly] if isinstance(poly, Polygon) else [g for g in getattr(poly, "geoms", [])]
    flat = []
    for g in parts:
        flat += list(g.geoms) if isinstance(g, MultiPolygon) else [g]
    return [g for g in flat if isinstance(g, Polygon) and not g.is_empty]


def outline(poly):
    """Closed rings in thousandths, outlines counter-clockwise and holes clockwise."""
    rings = []
    for g in surfaces(poly):
        for k, ring in enumerate([g.exterior, *g.interiors]):
            c = [[whole(x, 1000), whole(y, 1000)] for x, y in ring.coords]
            if (ring.is_ccw) != (k == 0):
                c.reverse()
            c = [p for i, p in enumerate(c) if i == 0 or p != c[i - 1]]
            if len(c) >= 4:
                rings.append(c)
    return rings


def describe(f, z, **kw):
    out = {"el": whole(f.elements, 1), "good": whole(f.good_elements, 1), "area": whole(f.area, 1e4),
           "dens": whole(f.density, 100), "pur": whole(f.purity, 1e6), "area6": whole(f.area, 1e6),
           "sharp": False, "clean": False, "apart": True, **kw}
    p = f.polygon
    if p is None or p.is_empty:
        return {**out, "empty": True, "rings": [], "inside": [False] * len(z), "close": [False] * len(z)}
    dots = [Point(*q) for q in z]
    return {**out, "empty": False, "rings": outline(p), "inside": [bool(p.contains(d)) for d in dots],
            "close": [any(g.boundary.distance(d) < 0.003 for g in surfaces(p)) for d in dots]}


def radius_of(a, b, c):
    la, lb, lc = math.dist(b, c), math.dist(a, c), math.dist(a, b)
    cr = abs((b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]))
    return math.inf if cr == 0 else la * lb * lc / (2 * cr)


def groups(u, marked):
    """Connected clusters, only used to tell which cases are free of borderline geometry."""
    n, k = len(u), k_of(marked)
    a = np.array(u, dtype=float)
    w, h = np.ptp(a, axis=0)
    near = ((a[:, None] - a[None]) ** 2).sum(-1) <= w * h * k / (math.pi * n)
    seen, out = set(), []
    for i in range(n):
        if i in seen or near[i].sum() < k + 1:
            continue
        comp, todo = {i}, [i]
        while todo:
            for j in np.flatnonzero(near[todo.pop()]):
                if j not in comp:
                    comp.add(int(j))
                    todo.append(int(j))
        seen |= comp
        out.append([u[j] for j in sorted(comp)])
    return out


def line_dist(p, a, b):
    return abs((b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])) / math.dist(a, b)


def clean(pts, mask):
    """No borderline geometry: the hulls of the clusters are the regions, and their pieces are unambiguous."""
    u = sorted({p for p, m in zip(pts, mask) if m})
    if len(u) < 3:
        return True, []
    hulls = []
    for c in groups(u, sum(mask)):
        hull = MultiPoint(c).convex_hull
        if not isinstance(hull, Polygon):
            hulls.append(hull)
            continue
        hulls.append(hull)
        ring = [tuple(map(int, q)) for q in hull.exterior.coords][:-1]
        if len(c) > 3:
            for s in Delaunay(np.array(c, dtype=float)).simplices:
                if radius_of(*(c[i] for i in s)) > 21.5:
                    return False, hulls
        m = len(ring)
        if m > 9 or any(line_dist(ring[i], ring[i - 1], ring[(i + 1) % m]) < 3.2 for i in range(m)):
            return False, hulls
        for q in c:
            if q not in ring and hull.exterior.distance(Point(q)) < 3.2:
                return False, hulls
        for t in triangulate(hull):
            tr = [tuple(map(int, q)) for q in t.exterior.coords][:3]
            if t.area < 20 or min(line_dist(tr[i], tr[i - 1], tr[i - 2]) for i in range(3)) < 3:
                return False, hulls
            for q in pts:      # on a piece's edge: belongs to neither side or to both
                if q not in tr and t.exterior.distance(Point(q)) < 1e-9:
                    return False, hulls
            (ax, ay), (bx, by), (cx, cy) = tr
            for d in ring:
                if d not in tr:
                    det = np.linalg.det(np.array([[p[0] - d[0], p[1] - d[1], (p[0] - d[0]) ** 2 + (p[1] - d[1]) ** 2]
                                                  for p in tr], dtype=float))
                    if abs(det) < 0.5:
                        return False, hulls
    for i, g in enumerate(hulls):
        if any(g.distance(o) < 3 for o in hulls[:i]):
            return False, hulls
    return True, hulls


def blob(rng, c, n, r):
    out = set()
    while len(out) < n:
        x, y = rng.randint(-r, r), rng.randint(-r, r)
        if x * x + y * y <= r * r:
            out.add((c[0] + x, c[1] + y))
    return sorted(out)


def gem(rng, c):
    """A few well-spread corners with some points well inside."""
    m = rng.choice([3, 4, 5, 5, 6])
    turn = rng.random() * 2 * math.pi
    out = []
    for i in range(m):
        t = turn + 2 * math.pi * (i + rng.uniform(-0.12, 0.12)) / m
        r = rng.uniform(13, 16)
        out.append((c[0] + round(r * math.cos(t)), c[1] + round(r * math.sin(t))))
    return list(dict.fromkeys(out + blob(rng, c, rng.randint(3, 5), {3: 2, 4: 3}.get(m, 5))))


def layout(rng, kind=None):
    kind = kind or rng.choice(["gems"] * 10 + ["dense"] * 3 + ["double"] * 3 + ["blobs", "line", "axis", "few", "grid", "any", "twice"])
    slots = [(x, y) for x in (0, 62, 124) for y in (0, 62)]
    if kind == "gems":
        out = []
        for c in rng.sample(slots, rng.choice([1, 2, 3, 4, 5, 6, 6])):
            out += gem(rng, (c[0] + rng.randint(-3, 3), c[1] + rng.randint(-3, 3)))
        for _ in range(rng.choice([0, 0, 0, 1, 2])):
            out.append((rng.randint(-10, 134), rng.randint(-10, 72)))
        rng.shuffle(out)
        return list(dict.fromkeys(out))
    if kind == "double":
        out = [(9 * x + g + rng.randint(-2, 2), 9 * y + rng.randint(-2, 2)) for x in range(4) for y in range(5) for g in (0, 70)]
        # a far instance for each algorithm makes it count places as dense
        out += [(165 + 20 * a, 110) for a in range(4)] if rng.random() < 0.8 else []
        rng.shuffle(out)
        return out
    if kind == "dense":
        w, h = rng.randint(4, 7), rng.randint(4, 6)
        out = [(9 * x + rng.randint(-2, 2), 9 * y + rng.randint(-2, 2)) for x in range(w) for y in range(h)]
        rng.shuffle(out)
        return out
    if kind in ("blobs", "twice"):
        out = []
        for c in rng.sample(slots, rng.randint(1, 4)):
            out += blob(rng, c, rng.randint(4, 9), rng.choice([8, 11, 14]))
        if kind == "twice":
            out += [rng.choice(out) for _ in range(rng.randint(1, 8))]
        return out
    n = rng.randint(5, 22)
    if kind == "few":
        return [(rng.randint(0, 20), rng.randint(0, 20)) for _ in range(rng.randint(1, 4))]
    if kind == "line":
        a, b = rng.randint(-3, 3), rng.randint(1, 3)
        return [(5 * t * b, 5 * t * a) for t in (rng.randint(-6, 6) for _ in range(n))]
    if kind == "axis":
        c = rng.randint(0, 50)
        return [(rng.randint(0, 60), c) for _ in range(n)]
    if kind == "grid":
        return [(10 * rng.randint(0, 4), 10 * rng.randint(0, 4)) for _ in range(n)]
    return [(rng.randint(0, 100), rng.randint(0, 100)) for _ in range(n)]


def marks(rng, pts, na):
    """A labelling: mostly the same within a place, with exceptions."""
    flip = rng.choice([0, 0.05, 0.15, 0.3, 0.5])
    home = {}
    out = []
    for p in pts:
        h = (round(p[0] / 62), round(p[1] / 62))
        home.setdefault(h, [rng.random() < 0.7 for _ in range(na)])
        out.append([b != (rng.random() < flip) for b in home[h]])
    return out


def winners(rng, pts, na, low=0):
    flip = rng.choice([0, 0.05, 0.15, 0.3, 0.6])
    home, out, deck = {}, [], []
    if (max(p[0] for p in pts) < 105 or max(p[1] for p in pts) == 110) and rng.random() < 0.8:    # algorithms that share a place only in pairs
        deck = rng.sample(range(na), na)
        half = (deck[:(na + 1) // 2], deck[(na + 1) // 2:] or deck)
        bias = rng.choice([0.3, 0.5, 0.7])
        return [h[0] if len(h) == 1 or rng.random() < bias else rng.choice(h[1:]) for h in ([(p[0] - 165) // 20 % na] if p[1] == 110 else half[p[0] > 48] for p in pts)]
    for p in pts:
        h = (round(p[0] / 62), round(p[1] / 62))
        if h not in home:
            deck = deck or rng.sample(range(na), na)
            home[h] = deck.pop() if rng.random() < 0.9 else rng.randint(low, na - 1)
        out.append(rng.randint(low, na - 1) if rng.random() < flip else home[h])
    return out


def run_trace(rec, usesim, pn, pd, cores=None, p_given=None):
    pts = [tuple(p) for p in rec["pts"]]
    z = np.array(pts, dtype=float) * UNIT
    n, na = len(pts), len(rec["ybin"][0])
    p0 = np.array(rec["p"])
    inp = TraceInputs(
        z=z, selection0=np.array(rec["sel0"]), p=p0 if p_given is None else p_given, beta=np.array(rec["beta"], dtype=bool),
        algo_labels=[f"algo{a}" for a in range(1, na + 1)], y_hat=np.array(rec["yhat"], dtype=bool),
        y_bin=np.array(rec["ybin"], dtype=bool), trace_options=TraceOptions(use_sim=usesim, purity=pn / pd),
        parallel_options=ParallelOptions(flag=cores is not None, n_cores=cores or 1))
    kept = [np.array(a, copy=True) for a in inp[:4]] + [list(inp[4])] + [np.array(a, copy=True) for a in inp[5:7]]
    try:
        with limit(120):
            out = TraceStage._run(inp)
    except Exception as ex:  # noqa: BLE001
        return failure(ex)
    same = all(np.array_equal(np.asarray(a), np.asarray(b)) for a, b in zip(kept, inp[:7]))
    foot, hulls, cl, sh = [], {}, {}, {}

    def judge(key, mask):
        u = sorted({q for q, m in zip(pts, mask) if m})
        sh[key] = not near_tie(u, sum(mask))
        cl[key], hulls[key] = clean(pts, mask) if sh[key] else (False, [])
        return {"sharp": sh[key], "clean": cl[key]}
    best_of = rec["sel0"] if usesim else rec["p"]
    good_of = rec["yhat"] if usesim else rec["ybin"]
    foot.append(describe(out.space, z, which="space", algo=0, **judge("s", [True] * n)))
    foot.append(describe(out.hard, z, which="hard", algo=0, **judge("h", [not b for b in rec["beta"]])))
    ev = [MultiPoint([q for q, v in zip(pts, best_of) if v == b] or [(-9999 * b - 9999, -9999)]).convex_hull for b in range(na)]
    # where its clusters lie (all of its instances when that cannot be told)
    reach = []
    for b in range(na):
        u = sorted({q for q, v in zip(pts, best_of) if v == b})
        if len(u) < 3:
            reach.append([])
        elif near_tie(u, sum(v == b for v in best_of)):
            reach.append([ev[b]])
        else:
            reach.append([MultiPoint(c).convex_hull for c in groups(u, sum(v == b for v in best_of))])
    own = [judge(("b", a), [v == a for v in best_of]) for a in range(na)]
    for a in range(len(out.good)):
        foot.append(describe(out.good[a], z, which="good", algo=a + 1,
                             **(judge(("g", a), [r[a] for r in good_of]) if a < na else {})))
    for a in range(len(out.best)):
        if a >= na:
            foot.append(describe(out.best[a], z, which="best", algo=a + 1))
            continue
        apart = all(g.distance(o) > 1 for b in range(na) if b != a for g in reach[a] for o in reach[b])
        foot.append(describe(out.best[a], z, which="best", algo=a + 1, apart=bool(apart), **own[a]))
    laps = []
    for i in range(min(na, len(out.best))):
        for j in range(i + 1, min(na, len(out.best))):
            a, b = out.best[i].polygon, out.best[j].polygon
            o = Polygon() if a is None or b is None else a.intersection(b)
            ins = [o.contains(Point(*q)) for q in z]
            alone = all(g.distance(o) > 1 for k in range(na) if k not in (i, j) for m in (i, j)
                        for g in reach[k] for o in reach[m])
            laps.append({"i": i + 1, "alone": bool(alone), "j": j + 1, "area6": whole(o.area, 1e6), "el": sum(map(int, ins)),
                         "gi": sum(1 for t, v in zip(ins, best_of) if t and v == i),
                         "gj": sum(1 for t, v in zip(ins, best_of) if t and v == j)})
    s = out.trace_summary
    names = [str(v) for v in s.iloc[:, 0]]
    rows = [int(v[4:]) if v.startswith("algo") and v[4:].isdigit() else 0 for v in names]
    want = [f"{c}_{g}{t}" for g in ("Good", "Best") for c, t in
            (("Area", ""), ("Area", "_Normalised"), ("Density", ""), ("Density", "_Normalised"), ("Purity", ""))]
    scale = [1e4, 1e4, 100, 1000, 1e6] * 2
    head = list(s.columns)
    table = [[whole(r[head.index(c)], k, 2 * 10 ** 8) if c in head else -1 for c, k in zip(want, scale)]
             for r in s.to_numpy().tolist()]
    return {"status": "ok", "foot": foot, "laps": laps, "rows": rows, "table": table, "untouched": bool(same)}


def draft(rng, kind=None, na=None):
    pts = layout(rng, kind)
    na = na or rng.choice([1, 2, 2, 2, 3, 3, 4])
    pn, pd = rng.choice(PURITY)
    return {"kind": "run", "pts": [list(p) for p in pts], "usesim": rng.random() < 0.5, "pn": pn, "pd": pd,
            "ybin": marks(rng, pts, na), "yhat": marks(rng, pts, na),
            "p": winners(rng, pts, na), "sel0": winners(rng, pts, na, -1),
            "beta": [r[0] for r in marks(rng, pts, 1)]}


def exactness(rec):
    """How many of a draft's regions can be told exactly."""
    pts = [tuple(p) for p in rec["pts"]]
    masks = [[not b for b in rec["beta"]]]
    for a in range(len(rec["ybin"][0])):
        masks.append([r[a] for r in rec["yhat" if rec["usesim"] else "ybin"]])
        masks.append([v == a for v in rec["sel0" if rec["usesim"] else "p"]])
    return sum(ok and bool(hulls) for ok, hulls in (clean(pts, m) for m in masks))


def pairs_case(rng):
    """Three or four algorithms that meet only in pairs."""
    return run_case(rng, [draft(rng, "double", rng.choice([3, 4, 4]))])


def run_case(rng, drafts=None):
    drafts = drafts or [draft(rng) for _ in range(rng.choice([1, 6, 12]))]
    rec = drafts[0] if len(drafts) == 1 else max(drafts, key=exactness)
    rec["got"] = run_trace(rec, rec["usesim"], rec["pn"], rec["pd"], rng.choice([None, 2, 3]))
    return rec


def prelim_case():
    """Truth as the pipeline delivers it: the best algorithms as numbered by the preliminary stage."""
    import random

    from instancespace.data.options import PrelimOptions, SelvarsOptions
    from instancespace.stages.prelim import PrelimInput, PrelimStage

    rng = random.Random(5)
    pts, own = [], []
    for a, c in [(0, (0, 0)), (0, (124, 62)), (1, (62, 0)), (1, (0, 62)), (2, (124, 0)), (2, (62, 62))]:
        pts += [(c[0] + x, c[1] + y) for x, y in ((-9, -8), (10, -9), (9, 11), (-10, 8), (1, 0), (3, -2), (-3, 3))]
        own += [a] * 7
    y = np.array([[1.0 if a == o else 2.0 + rng.random() for a in range(3)] for o in own])
    x = np.array([[rng.random(), rng.random()] for _ in own])
    rec = {"kind": "run", "pts": [list(p) for p in pts], "usesim": False, "pn": 1, "pd": 2,
           "ybin": [[a == o for a in range(3)] for o in own], "yhat": [[False] * 3 for _ in own],
           "p": own, "sel0": [-1] * len(own), "beta": [True] * len(own), "case": {"p_from": "prelim"}}
    try:
        with limit(120):
            out = PrelimStage._run(PrelimInput(
                x=x, y=y, x_raw=x.copy(), y_raw=y.copy(), s=None,
                inst_labels=pd.Series([str(i) for i in range(len(own))]),
                prelim_options=PrelimOptions(max_perf=False, abs_perf=True, epsilon=1.5, beta_threshold=0.3,
                                             bound=False, norm=False),
                selvars_options=SelvarsOptions.default()))
    except Exception as ex:  # noqa: BLE001
        rec["got"] = failure(ex)
        return rec
    rec["got"] = run_trace(rec, False, 1, 2, p_given=np.asarray(out.p))
    return rec


# ---------------------------------------------------------------- contradictions
def cells(rng, w, h):
    out = set()
    for _ in range(rng.choice([1, 1, 2, 3])):
        x0, y0 = rng.randrange(w), rng.randrange(h)
        x1, y1 = rng.randint(x0, w - 1), rng.randint(y0, h - 1)
        out |= {y * w + x + 1 for x in range(x0, x1 + 1) for y in range(y0, y1 + 1)}
    return sorted(out)


def contra_case(rng):
    w, h = rng.randint(1, 6), rng.randint(1, 5)
    A, B = cells(rng, w, h), cells(rng, w, h)
    at, owner = [], []
    bias = rng.choice([0.2, 0.5, 0.8])
    full = rng.random() < 0.6
    for c in range(1, w * h + 1):
        for _ in range(rng.choice([1, 1, 1, 2]) if full else rng.choice([0, 0, 1, 2])):
            at.append(c)
            owner.append(rng.choice([0, 1, 2]) if rng.random() < 0.3 else
                         1 if c in A and (c not in B or rng.random() < bias) else 2 if c in B else 0)
    for o, S in ((1, A), (2, B)):
        if o not in owner:
            at.append(rng.choice(S))
            owner.append(o)
    pn, pd = rng.choice([(0, 1), (0, 1), (1, 2), (3, 4), (1, 1)])
    rec = {"kind": "contra", "w": w, "h": h, "A": A, "B": B, "at": at, "owner": owner, "pn": pn, "pd": pd}
    s = 0.2
    sq = {c: box((c - 1) % w * s, (c - 1) // w * s, ((c - 1) % w + 1) * s, ((c - 1) // w + 1) * s)
          for c in range(1, w * h + 1)}
    z = np.array([[((c - 1) % w + 0.5) * s, ((c - 1) // w + 0.5) * s] for c in at])
    yb, yt = np.array([o == 1 for o in owner]), np.array([o == 2 for o in owner])
    try:
        with limit(120):
            st = TraceStage(z, np.column_stack([yb, yt]), np.array([o - 1 for o in owner]), np.ones(len(at), dtype=bool),
                            ["a", "b"], TraceOptions(use_sim=False, purity=pn / pd), ParallelOptions(False, 1))
            fa = Footprint.from_polygon(unary_union([sq[c] for c in A]).buffer(0), z, yb)
            fb = Footprint.from_polygon(unary_union([sq[c] for c in B]).buffer(0), z, yt)
            base, test = st.contra(fa, fb, yb, yt)
    except Exception as ex:  # noqa: BLE001
        rec["got"] = failure(ex)
        return rec
    rec["got"] = {"status": "ok", "base": describe(base, z), "test": describe(test, z)}
    return rec


RULES = {
    "C60": "random instance layouts (separated blobs, lines, single places, grids, duplicates) with random goodness, best "
           "algorithm and easiness; every footprint's numbers recomputed from its outline; non-trivial: some non-empty footprint",
    "C61": "the same runs; exact regions rebuilt from clusters, hulls and pure pieces where the geometry is not borderline; "
           "non-trivial: some exactly rebuilt footprint",
    "C62": "pairs of footprints made of cells with instances at cell centres, given to the contradiction rule, and complete "
           "runs; non-trivial: one side loses the overlap",
    "C64": "random integer point sets (lines, grids, chains, blobs, duplicates), radii between attained distances, counts, and "
           "the analytic radius; non-trivial: at least one cluster and one noise point",
}


def main(pid):
    ck = Checker(pid, "model_checking", RULES[pid])
    if pid == "C64":
        ck.model("DbscanMC", pick("DbscanMC.cfg", "DbscanMC_big.cfg"))
        with quiet(), limit(800):
            recs = parallel(pid, pick(3500, 60000), cluster_case) + parallel(pid + "r", pick(1500, 20000), radius_case)
        ck.nontrivial = sum(r["got"]["status"] == "ok" and min(r["got"]["labels"]) < 0 < max(r["got"]["labels"]) for r in recs)
    else:
        ck.model("FootprintsMC", pick("FootprintsMC.cfg", "FootprintsMC_big.cfg"))
        with quiet(), limit(800):
            recs = parallel(pid, pick(500, 5000) if pid != "C62" else pick(120, 1500), run_case)
            if pid == "C62":
                recs += parallel(pid + "p", pick(200, 2000), pairs_case)
                recs += parallel(pid + "c", pick(1200, 12000), contra_case)
            if pid == "C61":
                recs.append(prelim_case())
                recs += parallel(pid + "c", pick(400, 4000), contra_case)
        if pid == "C62":
            ck.nontrivial = sum(r["kind"] == "contra" and r["got"]["status"] == "ok" for r in recs)
        else:
            ok = [f for r in recs if r["kind"] == "run" and r["got"]["status"] == "ok" for f in r["got"]["foot"]]
            ck.nontrivial = sum(not f["empty"] and (pid == "C60" or f["clean"]) for f in ok)
            ck.note(footprints=len(ok), exact=sum(f["clean"] and f["sharp"] for f in ok),
                    refused=sum(r["got"]["status"] != "ok" for r in recs))
    ck.samples.append(recs[0])
    ck.validate("FootprintsTrace", recs, chunk=3000)
    return ck.finish()
