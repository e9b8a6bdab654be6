"""C63: footprints under controlled schedules of the worker pool, against spec/Pool.tla."""
from __future__ import annotations

import sys
import threading
import time

import numpy as np

import c_trace
from common import Checker, limit, parallel, pick, quiet

from instancespace.data.model import Footprint
from instancespace.data.options import ParallelOptions, TraceOptions
from instancespace.stages.trace import TraceInputs, TraceStage

GATES = ("build", "run_dbscan", "fit_poly")


class Injected(Exception):
    pass


class Conductor:
    """Lets one waiting worker at a time pass, in the order of its ranking."""

    def __init__(self, rank, rng):
        self.rank, self.rng = rank, rng
        self.cv = threading.Condition()
        self.waiting = {}
        self.granted = set()
        self.last = time.monotonic()
        self.open = False
        self.thread = threading.Thread(target=self.drive, daemon=True)
        self.thread.start()

    def drive(self):
        end = time.monotonic() + 60
        while not self.open and time.monotonic() < end:
            with self.cv:
                self.cv.wait(0.002)
                if self.waiting and time.monotonic() - self.last > 0.0015:
                    order = sorted(self.waiting, key=lambda t: (self.rank(self.waiting[t]), t))
                    t = order[0]
                    del self.waiting[t]
                    self.granted.add(t)
                    self.last = time.monotonic()
                    self.cv.notify_all()
        self.stop()

    def gate(self, task):
        me = threading.get_ident()
        with self.cv:
            if self.open:
                return
            self.waiting[me] = task
            self.last = time.monotonic()
            while me not in self.granted and not self.open:
                self.cv.wait(0.05)
            self.granted.discard(me)

    def stop(self):
        with self.cv:
            self.open = True
            self.cv.notify_all()


def same(a, b):
    if (a.polygon is None) != (b.polygon is None):
        return False
    if a.polygon is not None and not a.polygon.equals(b.polygon):
        return False
    return all(np.isclose(float(getattr(a, k)), float(getattr(b, k)))
               for k in ("area", "elements", "good_elements", "density", "purity"))


def which(f, refs, at):
    """Number of the reference footprint found here; its own slot first."""
    if at < len(refs) and same(f, refs[at]):
        return at + 1
    return next((k + 1 for k, r in enumerate(refs) if same(f, r)), 0)


def scene(rng):
    na = rng.choice([2, 3, 3, 4, 4, 5, 6])
    cells = [(x, y) for x in (0, 62, 124) for y in (0, 62, 124)]
    rng.shuffle(cells)
    pts, ybin, p = [], [], []
    for k, c in enumerate(cells[:max(6, na + 2)]):
        for q in c_trace.gem(rng, c):
            pts.append(q)
            p.append(k % na)
            ybin.append([a == k % na or rng.random() < 0.15 for a in range(na)])
    for a in range(na):     # a far instance of its own widens an algorithm's evidence
        pts.append((250 + 40 * a, 250 + 7 * a))
        p.append(a)
        ybin.append([b == a for b in range(na)])
    return pts, np.array(ybin), np.array(p)


def run(pts, ybin, p, cores):
    n = len(pts)
    return TraceStage._run(TraceInputs(
        z=np.array(pts, dtype=float) * c_trace.UNIT, selection0=p, p=p, beta=np.array([i % 3 > 0 for i in range(n)]),
        algo_labels=[f"a{k}" for k in range(ybin.shape[1])], y_hat=ybin, y_bin=ybin,
        trace_options=TraceOptions(use_sim=False, purity=0.55), parallel_options=ParallelOptions(True, cores)))


def case(rng):
    pts, ybin, p = scene(rng)
    na = ybin.shape[1]
    cores = rng.choice([1, 2, 2, 3, 4, 8, 8])
    fails = [{"a": rng.randint(1, na), "part": rng.choice(["good", "best"])} for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    rec = {"n": na, "cores": cores, "fails": fails, "log": []}
    masks = {}
    for a in range(na):
        masks.setdefault(ybin[:, a].tobytes(), (a + 1, "good"))
        masks.setdefault((p == a).tobytes(), (a + 1, "best"))
    try:
        with limit(100):
            ref = run(pts, ybin, p, 1)
    except Exception as ex:  # noqa: BLE001
        rec["got"] = c_trace.failure(ex)
        return rec
    mode = rng.choice(["first", "last", "shuffled", "random", "round"])
    prio = list(range(na + 1))
    rng.shuffle(prio)
    turn = {"n": 0}

    def rank(task):
        if mode == "random":
            return rng.random()
        if mode == "round":
            turn["n"] += 1
            return (task[0] + turn["n"]) % (na + 1)
        return {"first": task[0], "last": -task[0], "shuffled": prio[task[0] % (na + 1)]}[mode]

    con = Conductor(rank, rng)
    home = threading.main_thread()
    here = threading.local()
    saved = {g: TraceStage.__dict__.get(g) for g in GATES}

    def wrap(g, raw):
        fn = raw.__func__ if isinstance(raw, staticmethod) else raw

        def inner(*a, **kw):
            if threading.current_thread() is home:
                return fn(*a, **kw)
            arrays = [v for v in (*a, *kw.values()) if isinstance(v, np.ndarray) and v.dtype == bool and v.ndim == 1]
            task = masks.get(arrays[0].tobytes(), (0, "?")) if arrays else (0, "?")
            con.gate(task)
            if g == "build" and {"a": task[0], "part": task[1]} in fails:
                rec["log"].append({"a": task[0], "part": task[1]})
                raise Injected(f"no footprint for {task}")
            out = fn(*a, **kw)
            con.gate(task)
            if g == "build":
                rec["log"].append({"a": task[0], "part": task[1]})
            return out
        return staticmethod(inner) if isinstance(raw, staticmethod) else inner

    interval = sys.getswitchinterval()
    try:
        sys.setswitchinterval(2e-5)
        for g, raw in saved.items():
            if raw is not None:
                setattr(TraceStage, g, wrap(g, raw))
        with limit(100):
            out = run(pts, ybin, p, cores)
        rec["got"] = None
    except Exception as ex:  # noqa: BLE001
        rec["got"] = c_trace.failure(ex)
    finally:
        con.stop()
        sys.setswitchinterval(interval)
        for g, raw in saved.items():
            if raw is not None:
                setattr(TraceStage, g, raw)
    con.thread.join(5)
    if rec["got"] is None:
        rec["got"] = {"status": "ok", "good": [which(f, ref.good, k) for k, f in enumerate(out.good)],
                      "best": [which(f, ref.best, k) for k, f in enumerate(out.best)],
                      "space": same(out.space, ref.space), "hard": same(out.hard, ref.hard),
                      "summary": list(out.trace_summary.columns) == list(ref.trace_summary.columns)
                      and list(out.trace_summary.iloc[:, 0]) == list(ref.trace_summary.iloc[:, 0])
                      and bool(np.allclose(out.trace_summary.iloc[:, 1:].to_numpy(dtype=float),
                                           ref.trace_summary.iloc[:, 1:].to_numpy(dtype=float)))}
    rec["real"] = len({k for k in range(na) if ref.good[k].polygon is not None and not ref.good[k].polygon.is_empty})
    return rec


RULE = ("runs of several algorithms with 1-8 workers whose progress through the footprint computation is released one step "
        "at a time in chosen orders (first, last, shuffled, rotating, random), with failures put into single footprints; "
        "compared with the one-worker run; non-trivial: at least two workers and two non-empty footprints")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("PoolMC", pick("PoolMC.cfg", "PoolMC_big.cfg"))
    with quiet(), limit(800):
        recs = parallel(pid, pick(240, 3000), case)
    ck.nontrivial = sum(r["cores"] > 1 and r.get("real", 0) > 1 for r in recs)
    ck.note(failures_met=sum(r["got"]["status"] == "error" for r in recs),
            schedules=len({tuple((e["a"], e["part"]) for e in r["log"]) for r in recs}))
    ck.samples.append(recs[0])
    ck.validate("PoolTrace", recs)
    return ck.finish()
