"""C10: loading options, against spec/Config.tla."""
from __future__ import annotations

import copy
import dataclasses
import json
import shutil
import tempfile
from pathlib import Path

from common import Checker, limit, pick, quiet

from instancespace.data import options as O

CLS = {"parallel": O.ParallelOptions, "perf": O.PerformanceOptions, "auto": O.AutoOptions,
       "bound": O.BoundOptions, "norm": O.NormOptions, "selvars": O.SelvarsOptions,
       "sifted": O.SiftedOptions, "pilot": O.PilotOptions, "cloister": O.CloisterOptions,
       "pythia": O.PythiaOptions, "trace": O.TraceOptions, "outputs": O.OutputOptions}
# Documented names (README and the classes' fields), with values a user could write
B, I, R, S = "bool", "int", "real", "text"
KIND = {"parallel": {"flag": B, "n_cores": I},
        "perf": {"max_perf": B, "abs_perf": B, "epsilon": R, "beta_threshold": R},
        "auto": {"preproc": B}, "bound": {"flag": B}, "norm": {"flag": B},
        "selvars": {"small_scale_flag": B, "small_scale": R, "file_idx_flag": B, "file_idx": S,
                    "feats": "names", "algos": "names", "selvars_type": S, "min_distance": R,
                    "density_flag": B},
        "sifted": {"flag": B, "rho": R, "k": I, "n_trees": I, "max_iter": I, "replicates": I,
                   "num_generations": I, "num_parents_mating": I, "sol_per_pop": I,
                   "parent_selection_type": S, "k_tournament": I, "keep_elitism": I,
                   "crossover_type": S, "cross_over_probability": R, "mutation_type": S,
                   "mutation_probability": R, "stop_criteria": S},
        "pilot": {"x0": "matrix", "alpha": "matrix", "analytic": B, "n_tries": I},
        "cloister": {"p_val": R, "c_thres": R},
        "pythia": {"cv_folds": I, "is_poly_krnl": B, "use_weights": B, "use_grid_search": B,
                   "params": "matrix"},
        "trace": {"use_sim": B, "purity": R}, "outputs": {"csv": B, "web": B, "png": B}}
ALIAS = {"parallel": {"n_cores": "ncores"},
         "perf": {"max_perf": "MaxPerf", "abs_perf": "AbsPerf", "beta_threshold": "betaThreshold"},
         "selvars": {"small_scale_flag": "smallscaleflag", "small_scale": "smallscale",
                     "file_idx_flag": "fileidxflag", "file_idx": "fileidx", "density_flag": "densityflag",
                     "min_distance": "mindistance", "selvars_type": "type"},
         "sifted": {"n_trees": "NTREES", "max_iter": "MaxIter"}, "pilot": {"n_tries": "ntries"},
         "cloister": {"p_val": "pval", "c_thres": "cthres"},
         "pythia": {"cv_folds": "cvfolds", "is_poly_krnl": "ispolykrnl", "use_weights": "useweights",
                    "use_grid_search": "uselibsvm"},
         "trace": {"purity": "PI", "use_sim": "usesim"}}


def value(rng, kind):
    if rng.random() < 0.06:
        return rng.choice([None, None, "1", 2, [], True])   # loading does not judge what is given
    if kind == B:
        return rng.random() < 0.5
    if kind == I:
        return rng.choice([0, 1, 2, 3, 7, 10, 50, 1000, -1])
    if kind == R:
        return rng.choice([0, 0.0, 0.05, 0.1, 0.2, 0.25, 0.55, 0.7, 1, 1.0, 5.5, 1e-9])
    if kind == S:
        return rng.choice(["", "Ftr", "Ftr&AP", "x.csv", "random", "Über", " ", "None", "False"])
    if kind == "names":
        return rng.choice([None, [], ["a"], ["feature_b", "A"]])
    return rng.choice([None, [], [1.5, 2], [[1, 2], [3, 4.5]]])


def spell(rng, g, f):
    """One of the ways to write a field's name."""
    key = ALIAS.get(g, {}).get(f, f) if rng.random() < 0.5 else f
    how = rng.randrange(4)
    return [key, key.lower(), key.upper(), "".join(rng.choice([c.lower(), c.upper()]) for c in key)][how]


def text(v):
    return repr(v)


def values_of(o):
    return {g: {f: text(getattr(getattr(o, g), f)) for f in KIND[g]} for g in CLS}


def random_file(rng):
    table = {}
    for g in rng.sample(list(CLS), rng.choice([0, 1, 1, 2, 3, 6, 12])):
        entries = {}
        p = rng.choice([0.2, 0.5, 1.0])
        fs = [f for f in KIND[g] if rng.random() < p]
        rng.shuffle(fs)
        for f in fs:
            entries[spell(rng, g, f)] = value(rng, KIND[g][f])
        if rng.random() < 0.15:
            entries["_"] = "a comment"
        r = rng.random()
        if r < 0.05 and fs:   # twice under different spellings
            f = rng.choice(fs)
            for _ in range(6):
                k = spell(rng, g, f)
                if k not in entries:
                    entries[k] = value(rng, KIND[g][f])
                    break
        elif r < 0.10:
            entries[rng.choice(["nonsense", "flag2", "", "n cores", "__", "_x", "purity_", "default", "__init__"])] = 1
        elif r < 0.13:
            g2 = rng.choice([x for x in CLS if x != g])
            entries[spell(rng, g2, rng.choice(list(KIND[g2])))] = True
        items = list(entries.items())
        rng.shuffle(items)
        table[g] = dict(items)
    r = rng.random()
    if r < 0.05:
        table[rng.choice(["nonsense", "Perf", "general", "options", "prelim", "opts"])] = {}
    return table


def as_record(table):
    return [{"group": g, "entries": [{"low": k.lower(), "val": text(v)} for k, v in e.items()]}
            for g, e in table.items()]


def load(rng, scratch, table):
    via = rng.choice(["dict", "file"])
    ev = {"kind": "load", "via": via, "file": as_record(table), "vals": {}, "dirty": False}
    before = copy.deepcopy(table)
    try:
        if via == "dict":
            o = O.InstanceSpaceOptions.from_dict(table)
        else:
            f = scratch / "options.json"
            f.write_text(json.dumps(table))
            o = O.from_json_file(f if rng.random() < 0.5 else str(f))
        ev["status"] = "none" if o is None else "ok"
        if o is not None:
            ev["vals"] = values_of(o)
    except ValueError:
        ev["status"] = "rejected"
    except Exception as e:  # noqa: BLE001
        ev["status"], ev["what"] = "error", f"{type(e).__name__}: {e}"[:160]
        o = None
    ev["dirty"] = text(before) != text(table)
    return ev, (o if ev["status"] == "ok" else None)


def fault(rng, scratch):
    good = json.dumps({"perf": {"epsilon": 0.5}, "sifted": {"k": 3}})
    f = scratch / "bad.json"
    if f.is_dir():
        f.rmdir()
    f.unlink(missing_ok=True)
    strict = True
    what = rng.choice(["missing", "directory", "cut", "junk", "bytes", "empty", "list", "group", "nodir", "trailing"])
    if what == "directory":
        f.mkdir()
    elif what == "cut":
        f.write_text(good[:rng.randint(1, len(good) - 1)])
    elif what == "junk":
        f.write_text(rng.choice(["{perf: 1}", "MaxPerf = TRUE", "{'perf': {}}", '{"perf": {"epsilon": .5}}']))
    elif what == "bytes":
        f.write_bytes(b"\xff\xfe\x00{}\x9c" + good.encode())
    elif what == "empty":
        f.write_text("")
    elif what == "trailing":
        f.write_text(good + rng.choice(["}", "{}", "x"]))
    elif what == "list":
        f.write_text(rng.choice(["[]", "3", "null", '["perf"]', '"perf"']))
        strict = False
    elif what == "group":
        f.write_text(json.dumps({"perf": rng.choice([None, 3, [], "x", [1]]), "trace": {"PI": 0.5}}))
        strict = False
    elif what == "nodir":
        f = scratch / "nowhere" / "x.json"
    ev = {"kind": "fault", "what": what, "strict": strict, "dirty": False}
    try:
        ev["status"] = "none" if O.from_json_file(f) is None else "ok"
    except Exception as e:  # noqa: BLE001
        ev["status"], ev["why"] = "error", f"{type(e).__name__}: {e}"[:160]
    return ev


def handmade(rng, g):
    kw = {f: value(rng, k) for f, k in KIND[g].items()
          if rng.random() < 0.5 and not (g == "pythia" and f == "params")}
    return kw, CLS[g].default(**kw)


def defaults(rng):
    given = {}
    ev = {"kind": "default", "dirty": False, "vals": {}, "given": {}}
    try:
        for g in rng.sample(list(CLS), rng.choice([0, 0, 1, 3, 12])):
            kw, o = handmade(rng, g)
            given[g] = o
            ev["given"][g] = {f: text(v) for f, v in kw.items()}
        ev["vals"] = values_of(O.InstanceSpaceOptions.default(**given))
        ev["status"] = "ok"
    except Exception as e:  # noqa: BLE001
        ev["status"], ev["what"] = "error", f"{type(e).__name__}: {e}"[:160]
    return ev


def group(rng):
    g = rng.choice(list(CLS))
    ev = {"kind": "group", "group": g, "dirty": False, "vals": {}, "given": {}}
    try:
        kw, o = handmade(rng, g)
        ev["given"] = {f: text(v) for f, v in kw.items()}
        ev["vals"] = {f: text(getattr(o, f)) for f in KIND[g]}
        ev["status"] = "ok"
    except Exception as e:  # noqa: BLE001
        ev["status"], ev["what"] = "error", f"{type(e).__name__}: {e}"[:160]
    return ev


def prelim(o):
    ev = {"kind": "prelim", "vals": values_of(o), "pre": {}, "dirty": False}
    try:
        p = O.PrelimOptions.from_options(o)
        ev["pre"] = {f.name: text(getattr(p, f.name)) for f in dataclasses.fields(p)}
        ev["status"] = "ok"
    except Exception as e:  # noqa: BLE001
        ev["status"], ev["what"] = "error", f"{type(e).__name__}: {e}"[:160]
    return ev


def spoil(table):
    for e in table.values():
        for k in list(e):
            if isinstance(e[k], list):
                e[k].append("later")
            e[k] = "later"
        e["more"] = 1


def history(rng, scratch, n):
    evs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.6:
            t = random_file(rng)
            ev, o = load(rng, scratch, t)
            evs.append(ev)
            flags = o is not None and all(isinstance(q, bool) for q in (o.auto.preproc, o.bound.flag, o.norm.flag))
            if flags and rng.random() < 0.5:
                evs.append(prelim(o))
            if rng.random() < 0.3:
                spoil(t)
        elif r < 0.72:
            evs.append(fault(rng, scratch))
        elif r < 0.86:
            evs.append(defaults(rng))
        else:
            evs.append(group(rng))
    return {"events": evs}


RULE = ("random option tables: any subset of groups and fields, any case and alias, boundary values, comments, "
        "unknown and doubled names, as dictionaries and as files; unreadable and malformed files; defaults with "
        "any fields or groups given; histories of 1-8 such calls in one process with the given tables changed "
        "afterwards; non-trivial: at least one load with entries")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("ConfigMC", pick("ConfigMC.cfg", "ConfigMC_big.cfg"))
    scratch = Path(tempfile.mkdtemp(prefix="config-"))
    try:
        with quiet(), limit(600):
            recs = [history(ck.rng, scratch, ck.rng.randint(1, 8)) for _ in range(pick(1500, 20000))]
            # every field alone, in every spelling family, via both routes
            for g in KIND:
                for f in KIND[g]:
                    for name in {f, f.upper(), ALIAS.get(g, {}).get(f, f), ALIAS.get(g, {}).get(f, f).lower()}:
                        for v in {repr(v): v for v in (value(ck.rng, KIND[g][f]) for _ in range(6))}.values():
                            recs.append({"events": [load(ck.rng, scratch, {g: {name: v}})[0]]})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ck.nontrivial = sum(any(e["kind"] == "load" and any(x["entries"] for x in e["file"]) for e in r["events"])
                        for r in recs)
    ck.samples.append(recs[0])
    ck.note(events=sum(len(r["events"]) for r in recs))
    ck.validate("ConfigTrace", recs)
    return ck.finish()
