"""C70-C73: what the export formats write, against spec/Export.tla."""
from __future__ import annotations

import copy
import csv
import dataclasses
import hashlib
import os
import shutil
import tempfile
import zipfile
from pathlib import Path

import matplotlib
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
from matplotlib.backend_bases import FigureCanvasBase
from matplotlib.collections import PathCollection
from matplotlib.patches import Polygon as Patch
from scipy.io import loadmat
from shapely import GeometryCollection, MultiPolygon, Point, Polygon
from shapely.geometry.base import BaseGeometry

from common import Checker, limit, parallel, pick, quiet

from instancespace.data.model import CloisterOut, Data, FeatSel, Footprint, PilotOut, PrelimOut, PythiaOut, SiftedOut, TraceOut
from instancespace.data.options import InstanceSpaceOptions, TraceOptions
from instancespace.model import Model

UNIT = 1024
EMPTY, ODD = -2000000001, -2000000002
ODD_NAMES = ["a,b", 'q"u', "001", "1e5", "NA", "nan", "x y", "é", "semi;colon", "-7", "'s", "True", " pad ", "#9", "a\tb", "None", "line\nbreak"]
FILE_NAMES = ["algo_A", "CPLEX", "x1", "naïve bayes", "RF_2_b", "lda(1)", "5", "p%q", "a$b", "SVM poly", "a.b", "best", "NB-3", "_lead"]
NAMES = [f"{s}{k}" for k in ("", "7") for s in FILE_NAMES]


# ---------------------------------------------------------------- models
def numbers(rng, n, m, kind, lo, hi):
    if kind == "constant":
        return np.tile([rng.randint(lo, hi) for _ in range(m)], (n, 1))
    out = np.array([[rng.randint(lo, hi) for _ in range(m)] for _ in range(n)])
    if kind == "mixed":
        for j in range(m):
            if rng.random() < 0.5:
                out[:, j] = rng.choice([rng.randint(lo, hi), 0])
            if rng.random() < 0.3:
                out[:, j] = lo + (out[:, j] - lo) // 100000
    return out


def rect(rng, k):
    x, y = 40 * k, rng.randint(-30, 30)
    w, h = rng.randint(2, 8), rng.randint(2, 8)
    pts = rng.choice([[(x, y), (x + w, y), (x + w, y + h), (x, y + h)], [(x, y), (x + w, y + 1), (x + 1, y + h)],
                      [(x, y), (x + w, y), (x + w, y + h), (x + 1, y + h + 2), (x, y + h)]])
    holes = [[(x + 0.5, y + 0.5), (x + 1, y + 0.5), (x + 0.5, y + 1)]] if len(pts) == 4 and rng.random() < 0.3 else []
    k0 = rng.randint(0, len(pts) - 1)
    return Polygon(pts[k0:] + pts[:k0], holes)


def foot(rng, base):
    kind = rng.choice(["none", "empty", "poly", "poly", "poly", "multi", "multi", "multi1", "coll", "dust"])
    if kind == "none":
        g = None
    elif kind == "empty":
        g = Polygon()
    elif kind == "poly":
        g = rect(rng, base)
    elif kind == "multi1":
        g = MultiPolygon([rect(rng, base)])
    elif kind == "dust":
        g = GeometryCollection([Point(1, base)])
    else:
        parts = [rect(rng, base + i) for i in range(rng.randint(2, 3))]
        g = MultiPolygon(parts) if kind == "multi" else GeometryCollection([parts[0], Point(0, 0), *parts[1:]])
    area = 0 if g is None else g.area
    return Footprint(g, area, 1, 1, 1.0, 1.0)


def rings(f):
    g = f.polygon
    if g is None or g.is_empty:
        return []
    polys = [p for p in (g.geoms if hasattr(g, "geoms") else [g]) if isinstance(p, Polygon)]
    return [[[cell(x), cell(y)] for x, y in p.exterior.coords] for p in polys]


def unique_names(rng, n, pool):
    pool = list(pool)
    rng.shuffle(pool)
    return pool[:n]


class Scene:
    pass


def scene(rng, plain=False, top=2 ** 30, gaps=False, performance_floor=None):
    """A model with unmistakable values, and its description for the specification."""
    n, nf, na = rng.choice([2, 3, 4, 5, 7, 9]), rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 2, 3, 4])
    many = rng.random() < 0.08
    if many:    # more groups than a palette has colours, names with two-digit places
        n, nf, na = rng.choice([12, 25, 40]), rng.choice([2, 11]), rng.choice([2, 10, 11, 13])
    total = nf + rng.choice([0, 1, 3])
    idx = np.array(rng.sample(range(total), nf))
    kind = rng.choice(["any", "any", "any", "mixed", "constant"])
    lo = -top if performance_floor is None else performance_floor
    xraw = numbers(rng, n, total, kind, -top, top)
    x = numbers(rng, n, nf, kind, -top, top)
    yraw = numbers(rng, n, na, rng.choice([kind, "any"]), lo, top if performance_floor is None else 4 * UNIT * 50)
    y = numbers(rng, n, na, kind, -top, top)
    ybin = np.array([[rng.random() < d for _ in range(na)] for d in (rng.choice([0, 0.3, 0.5, 0.8, 1]) for _ in range(n))])
    yhat = np.array([[rng.random() < 0.5 for _ in range(na)] for _ in range(n)])
    if rng.random() < 0.3:
        yhat[:, rng.randint(0, na - 1)] = rng.random() < 0.5
    if rng.random() < 0.3:
        ybin[:, rng.randint(0, na - 1)] = rng.random() < 0.5
    spread = rng.choice([[1], [0, 1], list(range(na + 1)), list(range(na + 1)), list(range(1, na + 1)), [na]])
    p = np.array([rng.choice(spread) for _ in range(n)])
    spread = rng.choice([[0], [-1], list(range(-1, na)), list(range(-1, na)), list(range(na)), [na - 1]])
    sel0 = np.array([rng.choice(spread) for _ in range(n)])
    beta = np.array([rng.random() < rng.choice([0.5, 0.5, 0, 1]) for _ in range(n)])
    count = np.sum(ybin, axis=1)
    labels = unique_names(rng, n, [f"inst{k}" for k in range(max(9, n))] + ([] if plain else ODD_NAMES))
    if not plain and rng.random() < 0.2:
        labels[-1] = labels[0]
    feats, algos = unique_names(rng, nf, NAMES[:12]), unique_names(rng, na, NAMES[12:])
    if not plain and rng.random() < 0.4:
        feats[0] = rng.choice(["a,b", 'q"u', "x y", "é", "2"])
    where = rng.sample([(a, b) for a in range(-40, 40) for b in range(-40, 40)], n)
    z = np.array(where) * (UNIT // 8)
    amat = numbers(rng, 2, nf, "any", -top, top)
    edge, ecorr = numbers(rng, rng.choice([0, 3, 6]), 2, "any", -top, top), numbers(rng, rng.choice([0, 4]), 2, "any", -top, top)
    edge, ecorr = edge.reshape(-1, 2), ecorr.reshape(-1, 2)
    tsum = numbers(rng, na, 10, "any", 0, top)
    heads = ["Avg_Perf_all_instances", "Std_Perf_all_instances", "Probability_of_good", "BoxConstraint", "KernelScale"]
    psum = numbers(rng, na + 2, len(heads), "any", -top, top)
    hole = [[j >= 3 and i >= na or (i == na and j == 2) for j in range(len(heads))] for i in range(na + 2)]
    sources = rng.sample(["src b", "a", "c_c", "a ", " a", "A", "10", "9", "nan", "é"], 3)
    if many:
        sources += [f"s{k}" for k in range(rng.choice([0, 6, 8, 10, 18]))]
    s = [rng.choice(sources) for _ in range(n)] if rng.random() < 0.6 else None
    start = rng.choice([0, 0, 3])
    index = list(range(start, start + n))
    if rng.random() < 0.3:
        rng.shuffle(index)

    f = lambda m: m.astype(float) / UNIT  # noqa: E731
    xraw_f, x_f, yraw_f, y_f = f(xraw), f(x), f(yraw), f(y)
    if gaps:
        for ints, floats in ((xraw, xraw_f), (x, x_f), (yraw, yraw_f), (y, y_f)):
            share = rng.choice([0, 0.1, 0.3, 0.6])
            hit = np.array([[rng.random() < share for _ in row] for row in ints])
            if rng.random() < 0.1:
                hit[:, rng.randrange(hit.shape[1])] = True
            if hit.all():
                hit[0, :] = False
            ints[hit], floats[hit] = ODD, np.nan
    data = Data(inst_labels=pd.Series(labels, index=index), feat_labels=list(feats), algo_labels=list(algos), x=x_f, y=y_f,
                x_raw=xraw_f, y_raw=yraw_f, y_bin=ybin, y_best=np.max(y_f, axis=1), p=p,
                num_good_algos=count.astype(float) if rng.random() < 0.5 else count, beta=beta,
                s=None if s is None else pd.Series(s, index=index))
    good, best = [foot(rng, 10 * a) for a in range(na)], [foot(rng, 10 * a + 5) for a in range(na)]
    tdf = pd.concat([pd.DataFrame(list(algos), columns=["Algorithm"]), pd.DataFrame(f(tsum), columns=[
        "Area_Good", "Area_Good_Normalised", "Density_Good", "Density_Good_Normalised", "Purity_Good", "Area_Best",
        "Area_Best_Normalised", "Density_Best", "Density_Best_Normalised", "Purity_Best"])], axis=1)
    pdf = pd.DataFrame({"Algorithms": [*algos, "Oracle", "Selector"],
                        **{h: [("" if hole[i][j] else psum[i][j] / UNIT) for i in range(na + 2)] for j, h in enumerate(heads)}})
    pilot_summary = pd.DataFrame(["Z_{1}", "Z_{2}"]).join(pd.DataFrame(f(amat), columns=list(feats)))
    some = np.zeros((2, 2))
    usesim = rng.random() < 0.5
    sc = Scene()
    opts = dataclasses.replace(InstanceSpaceOptions.default(), trace=TraceOptions.default(use_sim=usesim))
    sc.model = Model(
        data=data, data_dense=data, feat_sel=FeatSel(idx=idx),
        prelim=PrelimOut(*[some] * 8, 0.0, some, some, some), sifted=SiftedOut(idx, idx, None, None, None, None),
        pilot=PilotOut(None, None, None, None, f(amat), f(z), some, some, some, some, pilot_summary),
        cloister=CloisterOut(f(edge), f(ecorr)),
        pythia=PythiaOut([0.0], [1.0], None, None, some, yhat, yhat, some, some, [1.0], [1.0], [1.0], [1.0], [1.0], sel0, sel0, pdf),
        trace=TraceOut(foot(rng, 90), good, best, foot(rng, 95), tdf), opts=opts)
    sc.m = {"labels": labels, "feats": feats, "algos": algos, "idx": idx.tolist(), "xraw": xraw.tolist(), "x": x.tolist(),
            "yraw": yraw.tolist(), "y": y.tolist(), "ybin": ybin.astype(int).tolist(), "yhat": yhat.astype(int).tolist(),
            "z": z.tolist(), "beta": beta.astype(int).tolist(), "p": p.tolist(), "sel0": sel0.tolist(),
            "count": count.tolist(), "s": [] if s is None else s, "usesim": usesim,
            "shown": [a.replace("_", " ") for a in algos]}
    sc.scaled = {"ngood": (count * UNIT).tolist(), "p": (p * UNIT).tolist(), "sel0": (sel0 * UNIT).tolist(),
                 "ybin": (ybin * UNIT).tolist(), "yhat": (yhat * UNIT).tolist(), "beta": (beta * UNIT).tolist(),
                 "edge": edge.tolist(), "ecorr": ecorr.tolist(), "amat": amat.tolist(), "tsum": tsum.tolist(),
                 "psumhead": heads, "psumrows": [*algos, "Oracle", "Selector"],
                 "psum": [[EMPTY if hole[i][j] else int(psum[i][j]) for j in range(len(heads))] for i in range(na + 2)]}
    sc.rgood, sc.rbest = [rings(q) for q in good], [rings(q) for q in best]
    return sc


# ---------------------------------------------------------------- tables
def cell(v, unit=UNIT):
    if isinstance(v, str):
        if v == "":
            return EMPTY
        if v in ("True", "False"):
            return unit if v == "True" else 0
        try:
            v = float(v)
        except ValueError:
            return ODD
    w = float(v) * unit
    return int(w) if np.isfinite(w) and w == int(w) and abs(w) <= 2 * 10 ** 9 else ODD


def tables(d, unit):
    out = []
    for path in sorted(Path(d).rglob("*")):
        if path.suffix != ".csv":
            continue
        with path.open(newline="", encoding="utf-8") as fh:
            rows = list(csv.reader(fh))
        rows = [r for r in rows if r]
        bare = path.name == "color_table.csv"
        body = rows[1:]
        skip = 0 if not bare else max(0, len(body[0]) - len(rows[0])) if body else 0
        out.append({"name": str(path.relative_to(d)), "head": rows[0] if rows else [],
                    "labels": [] if bare else [r[0] for r in body],
                    "v": [[cell(v, unit) for v in (r[skip:] if bare else r[1:])] for r in body]})
    return out


class Place:
    def __enter__(self):
        self.d = Path(tempfile.mkdtemp(prefix="export-"))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def csv_case(rng):
    sc = scene(rng)
    rec = {"kind": "csv", "m": {**sc.m, **sc.scaled, "rgood": sc.rgood, "rbest": sc.rbest}, "files": [], "done": True, "mat": []}
    with Place() as d:
        try:
            with limit(60):
                sc.model.save_to_csv(str(d) if rng.random() < 0.3 else d)
            rec["files"] = tables(d, UNIT)
            with limit(60):
                sc.model.save_to_mat(d)
            rec["mat"] = [str(v).rstrip() for v in np.ravel(loadmat(d / "model.mat")["data"]["algolabels"][0, 0])]
        except Exception as ex:  # noqa: BLE001
            rec.update(done=False, why=repr(ex)[:200])
    return rec


def web_case(rng):
    gaps = rng.random() < 0.35
    sc = scene(rng, top=rng.choice([3, 300, 40000, 2 ** 21]), gaps=gaps)
    rec = {"kind": "web", "m": {**sc.m, "ngood": sc.m["count"]}, "files": [], "done": True}
    with Place() as d:
        try:
            with limit(60):
                sc.model.save_for_web(str(d) if rng.random() < 0.3 else d)
            rec["files"] = tables(d, 1)
        except Exception as ex:  # noqa: BLE001
            rec.update(done=False, why=repr(ex)[:200])
    return rec


# ---------------------------------------------------------------- graphs
class Gallery:
    """Stands in for rendering: notes what a figure shows when it is saved."""

    def __init__(self, write=True):
        self.plots = {}
        self.write = write

    def __enter__(self):
        self.old = FigureCanvasBase.print_figure
        gallery = self

        def note(canvas, filename, *a, **kw):
            plot = describe(canvas.figure)
            if isinstance(filename, (str, os.PathLike)):
                gallery.plots[Path(filename).name] = plot
                if gallery.write:
                    Path(filename).write_text(repr(plot), encoding="utf-8")
        FigureCanvasBase.print_figure = note
        return self

    def __exit__(self, *a):
        FigureCanvasBase.print_figure = self.old
        plt.close("all")


def describe(fig):
    groups, dots, found = [], [], []
    for ax in fig.axes:
        for coll in ax.collections:
            if not isinstance(coll, PathCollection):
                continue
            pts = [[cell(x), cell(y)] for x, y in np.asarray(coll.get_offsets())]
            arr = coll.get_array()
            if arr is None:
                groups.append({"name": str(coll.get_label()), "pts": pts})
            else:
                shade = np.asarray(coll.norm(np.asarray(arr, dtype=float)))
                dots += [[*q, thousandth(v), thousandth(t)] for q, v, t in zip(pts, np.asarray(arr), shade, strict=True)]
        for patch in ax.patches:
            if isinstance(patch, Patch) and len(patch.get_xy()):
                found.append([[cell(x), cell(y)] for x, y in patch.get_xy()])
    title = fig.get_suptitle() if hasattr(fig, "get_suptitle") else fig._suptitle.get_text()
    titles = [title or ""] + [ax.get_title() for ax in fig.axes]
    return {"groups": groups, "dots": dots, "rings": sorted(found), "title": " ".join(t for t in titles if t)}


def thousandth(v):
    return int(round(min(3.0, max(-3.0, float(v))) * 1000)) if np.isfinite(v) else ODD


def graph_case(rng):
    sc = scene(rng, plain=True, top=rng.choice([3, 300, 40000, 2 ** 19]), performance_floor=rng.choice([0, 0, -UNIT + 1]))
    m = {**sc.m, "good": sc.rgood, "best": sc.rbest}
    rec = {"kind": "graph", "m": m, "plots": [], "done": True}
    named = {f"distribution_feature_{f}.png": f for f in m["feats"]}
    for a in m["algos"]:
        for kind in ("distribution_performance_global_normalized", "distribution_performance_individual_normalized",
                     "binary_performance", "binary_svm", "footprint"):
            named[f"{kind}_{a}.png"] = a
    with Place() as d, Gallery(write=False) as g:
        try:
            with limit(60):
                sc.model.save_graphs(str(d) if rng.random() < 0.3 else d)
            rec["plots"] = [{"name": k, **{q: p[q] for q in ("groups", "dots", "rings")},
                             "titled": named.get(k, "").replace("_", " ").strip() in p["title"].replace("_", " ")}
                            for k, p in g.plots.items()]
        except Exception as ex:  # noqa: BLE001
            rec.update(done=False, why=repr(ex)[:200])
    return rec


# ---------------------------------------------------------------- histories
def digest(o, h=None):
    top = h is None
    h = h or hashlib.sha256()
    if dataclasses.is_dataclass(o) and not isinstance(o, type):
        h.update(type(o).__name__.encode())
        for fl in dataclasses.fields(o):
            h.update(fl.name.encode())
            digest(getattr(o, fl.name), h)
    elif isinstance(o, (pd.DataFrame, pd.Series)):
        h.update(repr((list(o.columns) if isinstance(o, pd.DataFrame) else o.name, list(o.index), o.shape)).encode())
        for v in np.asarray(o, dtype=object).ravel():
            h.update(repr(v).encode())
    elif isinstance(o, np.ndarray):
        h.update(repr((o.shape, str(o.dtype))).encode())
        h.update(repr(o.tolist()).encode())
    elif isinstance(o, BaseGeometry):
        h.update(o.wkb)
    elif isinstance(o, dict):
        for k in o:
            h.update(repr(k).encode())
            digest(o[k], h)
    elif isinstance(o, (list, tuple)):
        h.update(f"{type(o).__name__}{len(o)}".encode())
        for v in o:
            digest(v, h)
    else:
        h.update(repr(o).encode())
    return h.hexdigest() if top else None


def content(name, raw):
    """What a file says; a mat file carries the time of writing as well."""
    if name.endswith(".mat") and raw[:6] == b"MATLAB":
        with Place() as d:
            q = d / "m.mat"
            q.write_bytes(raw)
            m = loadmat(q, squeeze_me=False)
        raw = repr({k: np.asarray(v).tolist() if not k.startswith("__") else "" for k, v in sorted(m.items())}).encode()
    return hashlib.sha256(raw).hexdigest()[:12]


def snapshot(d):
    return [[str(q.relative_to(d)), content(q.name, q.read_bytes())] for q in sorted(d.rglob("*")) if q.is_file()]


def save(model, op, where):
    {"csv": model.save_to_csv, "web": model.save_for_web, "graphs": model.save_graphs, "mat": model.save_to_mat}[op](where)


def history_case(rng):
    sc = scene(rng, plain=True, performance_floor=0, top=40000)
    rec = {"kind": "history", "m": {**sc.m, **{k: sc.scaled[k] for k in ("ngood", "edge", "ecorr", "amat", "tsum", "psum", "psumhead", "psumrows")},
                                    "good": [[]] * len(sc.rgood), "best": [[]] * len(sc.rbest)},
           "ref": {}, "refdone": True, "steps": [], "case": {"clash": False}}
    with Place() as root, Gallery():
        for op in ("csv", "web", "graphs", "mat"):
            sub = root / f"ref-{op}"
            sub.mkdir()
            try:
                save(copy.deepcopy(sc.model), op, sub)
            except Exception as ex:  # noqa: BLE001
                rec.update(refdone=False, why=f"{op}: {ex!r}"[:200])
                return rec
            rec["ref"][op] = snapshot(sub)
        d = root / "out"
        d.mkdir()
        pool = ["notes.txt", "notes2.txt", ".gitignore", "old.csv", "feature_raw.csv", "footprint_portfolio.png", "deep/more.txt", "deep/er/x.bin",
                "deep/.gitignore", "deep/notes.txt", "deep/er/coordinates.csv", ".hidden", "results.zip", "footprint_none_best.csv", "model2.mat", "deep/old2.zip", "empty.dat"]
        for name in rng.sample(pool, rng.randint(0, 6)):
            q = d / name
            q.parent.mkdir(parents=True, exist_ok=True)
            q.write_bytes(b"" if name == "empty.dat" else f"{name} {rng.random()}".encode())
        if rng.random() < 0.3:
            (d / "deep" / "er").mkdir(parents=True, exist_ok=True)
        for _ in range(rng.randint(3, 9)):
            op = rng.choice(["csv", "web", "graphs", "mat", "zip", "zip", "stray", "nowhere"])
            if op == "stray":
                q = d / rng.choice(["notes.txt", "feature_raw.csv", "new.txt", "deep/other.txt", "coordinates.csv", "color_table.csv", "model.mat"])
                q.parent.mkdir(parents=True, exist_ok=True)
                q.write_bytes(f"stray {rng.random()}".encode())
                continue
            before = snapshot(d)
            was = digest(sc.model)
            step = {"op": op, "before": before, "done": True, "name": "", "bases": [], "members": []}
            where = str(d) if rng.random() < 0.4 else d
            try:
                with limit(60):
                    if op == "zip":
                        step["name"] = rng.choice(["output.zip", "output.zip", "results.zip", "archive", "notes.txt"]
                                                  + (["deep/inner.zip"] if (d / "deep").is_dir() else []))
                        step["bases"] = [Path(b[0]).name for b in before]
                        live = [b for b in before if b[0] != step["name"] and Path(b[0]).name != ".gitignore"]
                        if len({Path(b[0]).name for b in live}) < len(live):
                            rec["case"]["clash"] = True
                        sc.model.save_zip(step["name"], where)
                        with zipfile.ZipFile(d / step["name"]) as zf:
                            step["members"] = [[i.filename, content(i.filename, zf.read(i))] for i in zf.infolist()]
                    elif op == "nowhere":
                        gone = root / rng.choice(["missing", "out/absent/dir"])
                        if rng.random() < 0.3:
                            gone = root / "afile"
                            gone.write_text("x")
                        save(sc.model, rng.choice(["csv", "web", "graphs"]), gone)
                    else:
                        save(sc.model, op, where)
            except Exception as ex:  # noqa: BLE001
                step.update(done=False, why=repr(ex)[:200])
            step["after"] = snapshot(d)
            step["unchanged"] = digest(sc.model) == was
            rec["steps"].append(step)
    return rec


KINDS = {
    "C70": (csv_case, 600, 8000, "models with odd labels, any selected features, empty, missing and multi-part footprints, and recognisable "
            "values saved as csv and read back; non-trivial: at least one non-empty footprint and two algorithms",
            lambda r: len(r["m"]["algos"]) > 1 and any(r["m"]["rgood"] + r["m"]["rbest"])),
    "C71": (web_case, 700, 9000, "models with constant, negative, widely scaled and incomplete columns saved for the web and read back; "
            "non-trivial: at least three instances and two algorithms",
            lambda r: len(r["m"]["labels"]) > 2 and len(r["m"]["algos"]) > 1),
    "C72": (history_case, 160, 2500, "sequences of csv, web, graph, mat and archive saves of one model into one directory with other "
            "files, subdirectories and older archives; non-trivial: at least two saves of a format and one archive",
            lambda r: any(s["op"] == "zip" for s in r["steps"]) and len(r["steps"]) > 3),
    "C73": (graph_case, 320, 4000, "models saved as graphs, the figures inspected when they are written; non-trivial: at least two "
            "algorithms and a non-empty footprint",
            lambda r: len(r["m"]["algos"]) > 1 and any(r["m"]["good"] + r["m"]["best"])),
}


def main(pid):
    fn, quick, thorough, rule, nontrivial = KINDS[pid]
    ck = Checker(pid, "model_checking", rule)
    ck.model("ExportMC", pick("ExportMC.cfg", "ExportMC_big.cfg"))
    with quiet(), limit(800):
        recs = parallel(pid, pick(quick, thorough), fn)
    ck.nontrivial = sum(bool(nontrivial(r)) for r in recs)
    ck.samples.append({k: v for k, v in recs[0].items() if k != "files"})
    if pid == "C72":
        ck.note(saves=sum(len(r["steps"]) for r in recs), archives=sum(s["op"] == "zip" for r in recs for s in r["steps"]))
    ck.validate("ExportTrace", recs, chunk=2000)
    return ck.finish()
