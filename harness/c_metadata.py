"""C11: reading tables of instances, against spec/Metadata.tla."""
from __future__ import annotations

import hashlib
import shutil
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd

from common import Checker, limit, pick, quiet

from instancespace.data.metadata import Metadata, from_csv_file

MISSING = -99999999
STEMS = ["a", "density", "x_1", "", "B b", "algo_z", "feature_q", "source", "instances", "é"]


def case(rng, w):
    return [w, w.upper(), w.capitalize(), "".join(rng.choice([c.lower(), c.upper()]) for c in w)][rng.randrange(4)]


def random_columns(rng):
    cols = [case(rng, "instances")]
    if rng.random() < 0.6:
        cols.append(case(rng, "source"))
    for stem, kw, lo in ((rng.choice([0, 1, 2, 3, 6]), "feature_", 0), (rng.choice([0, 1, 2, 4]), "algo_", 0)):
        for _ in range(stem):
            cols.append(case(rng, kw) + rng.choice(STEMS) + rng.choice(["", "1", "_2"]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        cols.append(rng.choice(["note", "featur", "feature", "algo", "myfeature_a", "instance", "sources",
                                "source2", " feature_a", "algorithm_x", "instances_2", "1", "x_algo_"]))
    seen, out = set(), []
    for c in cols:
        if c not in seen:
            seen.add(c)
            out.append(c)
    rng.shuffle(out)
    return out


def kind(c):
    """Only used to fill the table with sensible values, never to judge."""
    low = c.lower()
    return ("number" if low.startswith(("feature_", "algo_")) else "label" if low == "instances"
            else "source" if low == "source" else "note")


class Texts:
    def __init__(self):
        self.ids = {}

    def __call__(self, v):
        if v is None or (isinstance(v, float) and np.isnan(v)):
            return MISSING
        return self.ids.setdefault((type(v).__name__ if not isinstance(v, (np.generic, int, float)) else "number",
                                    str(v)), len(self.ids) + 1)


def scaled(v):
    v = float(v)
    if np.isnan(v):
        return MISSING
    if np.isinf(v):
        return 88888888 if v > 0 else 88888889
    if v * 4 == int(v * 4) and abs(v) < 5e6:
        return int(v * 4)
    # a number of many digits stands for itself: equal number, equal digits (the csv reader may miss the last ones)
    return 300000000 + int.from_bytes(hashlib.blake2b(f"{v:.12g}".encode(), digest_size=4).digest()) % 2**28


def one(rng, scratch):
    cols = random_columns(rng)
    n = rng.choice([0, 1, 1, 2, 3, 5, 9]) if rng.random() < 0.9 else 30
    miss = rng.choice([0, 0, 0.1, 0.5])
    via = rng.choice(["frame", "csv"]) if n else "frame"
    data, texts = {}, Texts()
    numeric_labels = rng.choice(["no", "no", "int", "float"])
    text_of_label = {}
    for c in cols:
        k = kind(c)
        if k == "number":
            style = rng.choice(["int", "float", "mixed", "int", "float", "mixed", "digits", "large"])
            v = [rng.randint(-50, 50) if style == "int" else rng.randint(-80, 80) / 4 for _ in range(n)]
            if style == "digits":
                v = [float(f"{rng.choice([1, -1, 1000, 1e-7]) * rng.random():.12g}") if rng.random() < 0.9 else rng.choice([np.inf, -np.inf])
                     for _ in range(n)]
            elif style == "large":
                v = [rng.choice([16777217, 123456789, 10**12 + 1, 9007199254740993 - 2]) * rng.choice([1, -1]) for _ in range(n)]
            if style != "int" or via == "csv":
                v = [np.nan if rng.random() < miss else x for x in v]
            if style == "mixed" and via == "frame" and rng.random() < 0.5:
                data[c] = pd.array([None if isinstance(x, float) and np.isnan(x) else x for x in v],
                                   dtype="Float64")
                continue
            data[c] = v
        elif k == "label":
            if numeric_labels == "int":
                data[c] = [rng.choice([rng.randint(0, 99), rng.randint(0, 99), rng.randint(-9, 10**15)]) for _ in range(n)]
            elif numeric_labels == "float":
                data[c] = [rng.randint(0, 99) + 0.5 for _ in range(n)]
            else:
                data[c] = [rng.choice(["i", "inst ", "Ünst", "x,y", 'q"'])
                           + str(i if rng.random() < 0.8 else 0) for i in range(n)]
            for v in data[c]:
                text_of_label[v] = str(v)
        elif k == "source":
            if rng.random() < 0.3:
                data[c] = [rng.randint(0, 3) for _ in range(n)]
            else:
                data[c] = ["S" + str(rng.randint(0, 3)) for _ in range(n)]
        else:
            data[c] = [rng.choice(["u", "v"]) for _ in range(n)]
    df = pd.DataFrame(data, columns=cols)
    index = rng.choice(["plain", "plain", "shifted", "shuffled", "text"])
    if via == "frame" and n:
        if index == "shifted":
            df.index = range(5, 5 + n)
        elif index == "shuffled":
            p = list(range(n))
            rng.shuffle(p)
            df.index = p
        elif index == "text":
            df.index = [f"r{i % 2}" for i in range(n)]
    cells = []
    for r in range(n):
        row = []
        for c in cols:
            v = data[c][r]
            k = kind(c)
            if k == "number":
                row.append(MISSING if v is None or v is pd.NA or (isinstance(v, float) and np.isnan(v)) else scaled(v))
            elif k == "label":
                row.append(texts(text_of_label[v]))
            else:
                row.append(texts(v))
        cells.append(row)
    rec = {"cols": [[ord(ch) for ch in c] for c in cols], "cells": cells, "readable": True, "status": "ok",
           "feat_names": [], "algo_names": [], "features": [], "algorithms": [], "labels": [],
           "has_source": False, "sources": [], "text": True, "doubles": True, "dirty": False}
    try:
        if via == "csv":
            f = scratch / "m.csv"
            df.to_csv(f, index=False)
            m = from_csv_file(f if rng.random() < 0.5 else str(f))
        else:
            before = df.copy(deep=True)
            m = Metadata.from_data_frame(df)
            rec["dirty"] = not (df.equals(before) and list(df.columns) == list(before.columns))
        project(rec, m, texts)
    except Exception as e:  # noqa: BLE001
        rec["status"], rec["what"] = "error", f"{type(e).__name__}: {e}"[:160]
    return rec


def project(rec, m, texts):
    if m is None:
        rec["status"] = "none"
        return
    rec["feat_names"] = [[ord(ch) for ch in c] for c in m.feature_names]
    rec["algo_names"] = [[ord(ch) for ch in c] for c in m.algorithm_names]
    rec["features"] = [[scaled(v) for v in row] for row in np.asarray(m.features)]
    rec["algorithms"] = [[scaled(v) for v in row] for row in np.asarray(m.algorithms)]
    rec["doubles"] = m.features.dtype == np.double and m.algorithms.dtype == np.double
    lab = list(m.instance_labels) if isinstance(m.instance_labels, pd.Series) else ["not a series"]
    rec["text"] = all(isinstance(v, str) for v in lab)
    rec["labels"] = [texts(v) for v in lab]
    rec["has_source"] = m.instance_sources is not None
    if rec["has_source"]:
        s = m.instance_sources
        rec["sources"] = [texts(v) for v in s] if isinstance(s, pd.Series) else [0]


def bad_file(rng, scratch):
    f = scratch / "bad.csv"
    if f.is_dir():
        f.rmdir()
    f.unlink(missing_ok=True)
    good = "Instances,feature_a,algo_b\ni1,1,2\n"
    what = rng.choice(["missing", "dir", "empty", "ragged", "bytes", "nodir", "quote", "blank"])
    if what == "dir":
        f.mkdir()
    elif what == "empty":
        f.write_text("")
    elif what == "blank":
        f.write_text("\n\n")
    elif what == "ragged":
        f.write_text(good + "i2,1,2,3,4\n")
    elif what == "bytes":
        f.write_bytes(good.encode() + b"\xff\xfe,1,2\n")
    elif what == "quote":
        f.write_text(good + '"i2,1,2\n')
    elif what == "nodir":
        f = scratch / "nowhere" / "m.csv"
    rec = {"readable": False, "what": what}
    try:
        rec["status"] = "none" if from_csv_file(f) is None else "ok"
    except Exception as e:  # noqa: BLE001
        rec["status"], rec["why"] = "error", f"{type(e).__name__}: {e}"[:160]
    return rec


RULE = ("random tables (0-30 rows, any column order, keywords in any case, near-miss names, missing cells, "
        "integer/real/nullable columns, numeric and repeated labels, unusual row indices) as data frames and as "
        "csv files; unreadable files; non-trivial: at least one row and one feature")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("MetadataMC", pick("MetadataMC.cfg", "MetadataMC_big.cfg"))
    scratch = Path(tempfile.mkdtemp(prefix="meta-"))
    try:
        with quiet(), limit(700):
            recs = [one(ck.rng, scratch) for _ in range(pick(3000, 30000))]
            recs += [bad_file(ck.rng, scratch) for _ in range(80)]
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.nontrivial = sum(r["readable"] and len(r["cells"]) > 0 and len(r["feat_names"]) > 0 for r in recs)
    ck.samples.append(recs[0])
    ck.note(rows=sum(len(r.get("cells", [])) for r in recs), single_row=sum(len(r.get("cells", [])) == 1 for r in recs))
    ck.validate("MetadataTrace", recs)
    return ck.finish()
