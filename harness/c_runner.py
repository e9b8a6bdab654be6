"""C03-C07: histories of calls on the real StageRunner against spec/Runner.tla."""
from __future__ import annotations

import copy

import numpy as np
import pandas as pd

from common import Checker, CheckError, limit, pick, quiet
from pipes import ARGS, StageBuilder, StageRunningError, classes_for, init_type, prec_of, random_pipe

NA = 6
NAMES = {a: ARGS[a][0] for a in range(1, NA + 1)}
ID_OF = {n: a for a, n in NAMES.items()}


class Boom(Exception):
    pass


class Box:
    """A user-defined mutable value."""

    def __init__(self, v):
        self.inner = {"v": [v]}


EMPTY = {9991: None, 9992: 0, 9993: "", 9994: (), 9995: False}    # values that are easily taken for no value


def make_value(vid: int, kind: int):
    if kind == 0:
        return np.full(3, float(vid))
    if kind == 1:
        return [vid]
    if kind == 2:
        return {"id": vid, "more": [vid]}
    if kind == 3:
        return pd.Series([vid, vid], index=["a", "b"], name="s")
    if kind == 4:
        return Box(vid)
    if kind == 5:
        return pd.DataFrame({"a": [vid, vid], "b": [vid, vid]})
    if kind == 6:
        return ([vid], {vid})
    return vid


def read_value(v) -> int:
    """The id of a value, or -1 when it was changed in place, -2 when it came from a
    dictionary that had been handed out."""
    try:
        for vid, e in EMPTY.items():
            if type(v) is type(e) and v == e:
                return vid
        if isinstance(v, str) and v == "TAMPERED":
            return -2
        if isinstance(v, np.ndarray):
            ids = set(v.tolist())
            return int(ids.pop()) if v.shape == (3,) and len(ids) == 1 else -1
        if isinstance(v, list):
            return v[0] if len(v) == 1 else -1
        if isinstance(v, dict):
            return v["id"] if v == {"id": v["id"], "more": [v["id"]]} else -1
        if isinstance(v, pd.Series):
            ids = set(v.tolist())
            return int(ids.pop()) if len(v) == 2 and len(ids) == 1 and v.name == "s" else -1
        if isinstance(v, Box):
            d = v.inner
            return d["v"][0] if set(d) == {"v"} and len(d["v"]) == 1 and d["v"][0] > 0 else -1
        if isinstance(v, pd.DataFrame):
            ids = set(v.to_numpy().ravel().tolist())
            return int(ids.pop()) if v.shape == (2, 2) and len(ids) == 1 else -1
        if isinstance(v, tuple):
            a, b = v
            return a[0] if len(a) == 1 and b == {a[0]} else -1
        if isinstance(v, int):
            return v
    except Exception:  # noqa: BLE001
        return -1
    return -1


def spoil(v) -> None:
    """Changes a received object in place, as a careless stage would."""
    if isinstance(v, np.ndarray):
        v[0] = -7
    elif isinstance(v, list):
        v.append(-7)
    elif isinstance(v, dict):
        v["more"].append(-7)
    elif isinstance(v, pd.Series):
        v.iloc[0] = -7
    elif isinstance(v, Box):
        v.inner["v"].append(-7)
    elif isinstance(v, pd.DataFrame):
        v.drop(columns="b", inplace=True)
    elif isinstance(v, tuple) and v:
        v[0].append(-7)


class World:
    """Fresh value ids and the log of executions."""

    def __init__(self, rng, kinds, spoiling):
        self.clock = 0
        self.log = []
        self.fail_stage = None
        self.fail_after = 0
        self.rng, self.kinds, self.spoiling = rng, kinds, spoiling

    def fresh(self):
        kind = self.rng.choice(self.kinds)
        if kind == 8:
            return self.rng.choice(list(EMPTY.items()))
        self.clock += 1
        return self.clock, make_value(self.clock, kind)

    def runner_of(self, s, pipe, table):
        out_ids = pipe["out"][s - 1]

        def run(inputs):
            ins = [0] * NA
            restr = False
            for name, v in inputs._asdict().items():
                if name in ID_OF:
                    ins[ID_OF[name] - 1] = read_value(v)
                elif v is not None:
                    restr = True
            ev = {"s": s, "ins": ins, "outs": [0] * NA, "fail": False, "restr": restr}
            self.log.append(ev)
            passthru = None
            if self.spoiling:
                for v in inputs:
                    spoil(v)
            if self.fail_stage == s:
                if self.fail_after == 0:
                    self.fail_stage = None
                    ev["fail"] = True
                    raise Boom
                self.fail_after -= 1
            outs = {}
            for a in out_ids:
                vid, v = self.fresh()
                ev["outs"][a - 1] = vid
                outs[NAMES[a]] = v
            return table[s]._outputs()(**outs)
        return run


def as_ids(d: dict):
    res = [0] * NA
    extra = False
    for name, v in d.items():
        if name in ID_OF:
            res[ID_OF[name] - 1] = read_value(v)
        else:
            extra = True
    return res, extra


def history(pipe, rng, mix, length):
    kinds = rng.choice([[7], [0, 1, 2], list(range(9)), [0], [3, 5], [4, 6], [7, 8], [0, 8]])
    world = World(rng, kinds, spoiling=rng.random() < mix.get("spoil", 0.4))
    table: dict = {}
    runs = [world.runner_of(s, pipe, table) for s in range(1, pipe["n"] + 1)]
    table.update(classes_for(pipe, runs))
    builder = StageBuilder()
    for s in range(1, pipe["n"] + 1):
        builder.add_stage(table[s])
    ity = init_type(pipe["init"], False)
    runner = builder.build(ity)
    cls_id = {id(table[s]): s for s in range(1, pipe["n"] + 1)}
    ops, handed = [], []
    fixed, pos = None, -1
    paused = None    # an iteration that has not been finished
    for _ in range(length):
        kind = rng.choices(["all", "iter", "until", "stage"], mix["ops"])[0]
        if paused is not None and rng.random() < 0.5:
            kind = "next"
        o = {"op": kind, "stage": 0, "init": [0] * NA, "over": [0] * NA, "take": -1, "yields": [],
             "err": "none", "res": [0] * NA, "dirty": False, "kept": False}
        world.log = []
        world.fail_stage = None
        if rng.random() < mix.get("fail", 0.15):
            world.fail_stage, world.fail_after = rng.randint(1, pipe["n"]), 0
        owned = []   # caller's objects, with the id they should still show
        bell = limit(10)
        bell.__enter__()
        try:
            if kind == "stage":
                s = rng.randint(1, pipe["n"])
                if mix.get("walk"):     # forward in the order of the steps, leaving some out, then back
                    pos = rng.choices([pos + 1, pos + 2, rng.randint(0, max(pos, 0)), pos, 0], [14, 3, 2, 1, 1])[0]
                    pos = min(max(pos, 0), pipe["n"] - 1)
                    s = mix["walk"][pos]
                o["stage"] = s
                over = {}
                if rng.random() < mix.get("over", 0.3):
                    for a in rng.sample(range(1, NA + 1), rng.choice([1, 1, 2])):
                        if a in pipe["inp"][s - 1] or rng.random() < 0.3:
                            vid, v = world.fresh()
                            o["over"][a - 1] = vid
                            over[NAMES[a]] = v
                            owned.append((vid, v))
                if world.fail_stage:
                    world.fail_stage = s
                out = runner.run_stage(table[s], **over)
                o["res"], _ = as_ids(out._asdict())
            elif kind == "next":
                was, paused = paused, None
                try:
                    y = next(was)
                    outs, _ = as_ids(y.output._asdict())
                    o["res"] = outs
                    o["yields"].append({"s": cls_id.get(id(y.stage), 99), "outs": outs})
                    paused = was
                except StopIteration as stop:
                    o["err"] = "stop"
                    o["res"], extra = as_ids(stop.value)
                    handed.append(stop.value)
            else:
                if fixed is not None and rng.random() < 0.3:
                    init, vals = fixed
                else:
                    vals = {a: world.fresh() for a in pipe["init"]}
                    init = ity(**{NAMES[a]: v for a, (_, v) in vals.items()})
                    fixed = (init, vals)
                for a, (vid, v) in vals.items():
                    o["init"][a - 1] = vid
                    owned.append((vid, v))
                if kind == "all":
                    res = runner.run_all(init)
                elif kind == "until":
                    o["stage"] = rng.randint(1, pipe["n"])
                    res = runner.run_until_stage(table[o["stage"]], init)
                else:
                    o["take"] = -1 if rng.random() < 0.6 else rng.randint(1, pipe["n"])
                    it = runner.run_iter(init)
                    res = None
                    while o["take"] < 0 or len(o["yields"]) < o["take"]:
                        try:
                            y = next(it)
                        except StopIteration as stop:
                            res = stop.value
                            break
                        outs, _ = as_ids(y.output._asdict())
                        o["yields"].append({"s": cls_id.get(id(y.stage), 99), "outs": outs})
                    if o["take"] >= 0 and res is None:
                        o["kept"] = rng.random() < 0.6
                        if o["kept"]:
                            paused = it
                        else:
                            it.close()
                if res is not None:
                    o["res"], extra = as_ids(res)
                    if extra:
                        o["err"] = "other"
                    handed.append(res)
        except StageRunningError:
            o["err"] = "gate"
        except Boom:
            o["err"] = "stage"
        except Exception as e:  # noqa: BLE001
            o["err"] = "other"
            o["what"] = f"{type(e).__name__}: {e}"[:160]
        finally:
            bell.__exit__()
        o["execs"] = world.log
        o["dirty"] = any(read_value(v) != vid for vid, v in owned)
        ops.append(o)
        if handed and mix.get("spoil", 0.4) and rng.random() < 0.4:
            d = handed[-1]
            for key in list(d):
                d[key] = "TAMPERED"
    return {"n": pipe["n"], "na": NA, "inp": pipe["inp"], "out": pipe["out"],
            "prec": prec_of(pipe, pipe["n"]), "init": pipe["init"], "ops": ops}


def accepted(pipe):
    b = StageBuilder()
    t = classes_for(pipe)
    try:
        for s in range(1, pipe["n"] + 1):
            b.add_stage(t[s])
        with limit(5):
            b.build(init_type(pipe["init"], False))
        return True
    except Exception:  # noqa: BLE001
        return False


MIX = {
    "C03": dict(ops=[2, 1, 1, 2], spoil=0.0, fail=0.0, over=0.1),
    "C04": dict(ops=[5, 5, 2, 3], spoil=0.2, fail=0.12, over=0.3),
    "C05": dict(ops=[1, 1, 0.7, 9], spoil=0.1, fail=0.05, over=0.35),
    "C06": dict(ops=[2, 1, 1, 5], spoil=0.85, fail=0.3, over=0.4),
    "C07": dict(ops=[1, 0.7, 6, 3], spoil=0.1, fail=0.08, over=0.2),
}


def scripted(pipe, rng):
    """Run until a stage, then every later stage by hand in order, then everything."""
    return history(pipe, rng, dict(ops=[0, 0, 1, 8], spoil=0.2, fail=0.03, over=0.1), 14)


def layered(rng):
    """A pipeline of three to five steps of up to three stages, in order of their steps."""
    inp, out, prev, n = [], [], [1], 0
    for depth in range(rng.randint(3, 5)):
        made = []
        for w in range(rng.choice([1, 2, 2, 3])):
            if n == 7:
                break
            a = rng.choice([v for v in range(1, NA + 1) if v not in made] or [0])
            ins = sorted({rng.choice(prev)} | ({rng.randint(1, NA)} & set(made)))
            inp.append(ins)
            out.append([a] if a and a not in ins and (rng.random() < 0.85 or not made) else [])
            made += out[-1]
            n += 1
        prev = [v for v in made if v] or prev
    decl = [[] for _ in range(n)]
    for s in range(2, n + 1):
        for _ in range(rng.choice([0, 1, 1, 2])):
            t = rng.randint(1, s - 1)
            decl[s - 1].append(("after", t))
    return {"n": n, "inp": inp, "out": out, "decl": decl, "init": [1]}


def walk_order(pipe):
    """The order in which a full run executes the stages (seen from outside)."""
    seen = []
    table: dict = {}

    def runner_of(s):
        def run(inputs):
            seen.append(s)
            return table[s]._outputs()(*[0 for _ in pipe["out"][s - 1]])
        return run
    table.update(classes_for(pipe, [runner_of(s) for s in range(1, pipe["n"] + 1)]))
    b = StageBuilder()
    for s in range(1, pipe["n"] + 1):
        b.add_stage(table[s])
    ity = init_type(pipe["init"], False)
    try:
        b.build(ity).run_all(ity(**{NAMES[a]: 0 for a in pipe["init"]}))
    except Exception:  # noqa: BLE001
        return None
    return seen if sorted(seen) == list(range(1, pipe["n"] + 1)) else None


def records(pid, rng, n):
    recs = []
    with quiet():
        for _ in range(40 * n):
            if len(recs) >= n:
                break
            if pid != "C03" and rng.random() < 0.3:
                pipe = layered(rng)
                order = accepted(pipe) and walk_order(pipe)
                if order:
                    recs.append(history(pipe, rng, dict(MIX[pid], ops=[1, 0.7, 1, 16], walk=order, over=0.1, fail=0.05),
                                        rng.randint(8, 20)))
                continue
            pipe = random_pipe(rng, max_n=rng.choice([2, 3, 4, 5, 6]), max_args=NA, messy=0.05)
            if pid == "C03" and not any(pipe["decl"]):
                continue
            if not accepted(pipe):
                continue
            for _ in range(3):
                recs.append(history(pipe, rng, MIX[pid], rng.randint(2, 10)))
            if pid in ("C05", "C07"):
                recs.append(scripted(pipe, rng))
    return recs


RULE = ("random accepted pipelines (1-6 stages, up to 6 values, modifying and overwriting stages, "
        "restrictions) with random histories of 2-14 calls (full, iterated, partial and single-stage runs, iterations resumed after other calls, "
        "explicit values, injected failures, in-place changes of received objects, tampering with returned "
        "dictionaries); every produced value has a unique id, so the origin of every received value is "
        "known, but for None and other empty values, which are passed around, too; non-trivial: at least two stages and two calls")


def main(pid):
    ck = Checker(pid, "model_checking", RULE)
    ck.model("RunnerMC", pick("RunnerMC.cfg", "RunnerMC_big.cfg"))
    ck.model("RunnerMC", pick("RunnerMC_named.cfg", "RunnerMC_named_big.cfg"))
    run(ck, pid, pick(6000, 60000))
    return ck.finish()


def run(ck, pid, n):
    recs = records(pid, ck.rng, n)
    if not recs:
        if ck.violations:
            return
        raise CheckError("no pipeline of the kind wanted was accepted")
    ck.nontrivial += sum(1 for r in recs if r["n"] > 1 and len(r["ops"]) > 1)
    ck.samples.append(recs[0])
    ck.note(calls=sum(len(r["ops"]) for r in recs),
            executions=sum(len(o["execs"]) for r in recs for o in r["ops"]),
            failures=sum(e["fail"] for r in recs for o in r["ops"] for e in o["execs"]),
            refused_calls=sum(o["err"] == "gate" for r in recs for o in r["ops"]))
    ck.validate("RunnerTrace", recs)
