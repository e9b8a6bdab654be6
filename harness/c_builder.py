"""C01-C03: resolution of pipelines by the real StageBuilder against spec/Builder.tla."""
from __future__ import annotations

from common import Checker, limit, pick, quiet
from pipes import (ARGS, RunAfter, RunBefore, StageBuilder, StageResolutionError, all_small_pipes,
                   classes_for, init_ids, init_type, make_stage, prec_of, random_pipe)
from typing import NamedTuple


def order_of(runner, table):
    back = {id(cls): s for s, cls in table.items()}
    return [[back.get(id(cls), 99) for cls in step] for step in runner._stage_order]


def try_build(builder, arg, table):
    before = init_ids(arg)
    try:
        with limit(5):
            runner = builder.build(arg)
    except StageResolutionError:
        return {"status": "refused", "order": [], "init": before, "init_after": init_ids(arg)}, None
    except Exception as e:  # noqa: BLE001
        return {"status": "error", "order": [], "init": before, "init_after": init_ids(arg),
                "what": f"{type(e).__name__}: {e}"[:200]}, None
    return {"status": "accepted", "order": order_of(runner, table), "init": before,
            "init_after": init_ids(arg)}, runner


def try_add(builder, cls, was):
    try:
        builder.add_stage(cls)
        return {"status": "ok", "was": was}
    except Exception:  # noqa: BLE001
        return {"status": "refused", "was": was}


def observe(pipe, rng=None):
    """One builder history: adds and builds. Without rng: add all, build once per kind."""
    table = classes_for(pipe)
    builder = StageBuilder()
    builds, adds = [], []
    n = pipe["n"]
    shared = init_type(pipe["init"], True)
    late = []

    def build(k, arg):
        b, runner = try_build(builder, arg, {s: table[s] for s in range(1, k + 1)})
        b["n"] = k
        builds.append(b)
        if runner is not None:
            late.append((runner, k, len(builds) - 1))

    if rng and rng.random() < 0.1:
        build(0, shared)
    for s in range(1, n + 1):
        adds.append(try_add(builder, table[s], "new"))
        if rng:
            if rng.random() < 0.1:
                adds.append(try_add(builder, table[rng.randint(1, s)], "dup"))
            if rng.random() < 0.05:
                marker = rng.choice([RunBefore, RunAfter])
                bad = make_stage("Bad", [], [])
                o = NamedTuple("Out", [ARGS[1], ("rr", marker[table[1]])])
                bad._outputs = staticmethod(lambda o=o: o)
                adds.append(try_add(builder, bad, "badout"))
            if s < n and rng.random() < 0.15:
                build(s, shared if rng.random() < 0.5 else init_type(pipe["init"], rng.random() < 0.5))
    build(n, shared if not rng or rng.random() < 0.6 else init_type(pipe["init"], False))
    if rng:
        if rng.random() < 0.5:
            build(n, shared)
        if rng.random() < 0.3:
            other = [a for a in ARGS if a <= 6 and rng.random() < 0.3]
            build(n, init_type(other, rng.random() < 0.5))
            build(n, shared)
    # earlier running orders must not have changed under later operations
    for runner, k, j in late:
        builds[j]["order"] = order_of(runner, {s: table[s] for s in range(1, k + 1)})
    return {"n": n, "inp": pipe["inp"], "out": pipe["out"],
            "prec": [prec_of(pipe, k) for k in range(n + 1)], "builds": builds, "adds": adds}


def records(rng):
    recs = []
    with quiet():
        for pipe in all_small_pipes(2, 2):
            recs.append(observe(pipe))
        for _ in range(pick(9000, 60000)):
            recs.append(observe(random_pipe(rng, alias=True), rng))
        for _ in range(pick(1500, 20000)):
            recs.append(observe(random_pipe(rng, max_n=9, max_args=6, messy=0.15, max_prec=4), rng))
        if pick(False, True):
            for i, pipe in enumerate(all_small_pipes(3, 2, prec=False)):
                recs.append(observe(pipe))
    return recs


def main(pid):
    ck = Checker(pid, "model_checking",
                 "all 2-stage pipelines over 2 values with at most one restriction, plus random pipelines "
                 "(1-9 stages, 1-8 values, mutating stages, restrictions, absent partners, same-name "
                 "different-type values) with random histories of adds and builds; non-trivial: the "
                 "pipeline has at least two stages")
    ck.model("BuilderMC", pick("BuilderMC.cfg", "BuilderMC_big.cfg"))
    recs = records(ck.rng)
    ck.nontrivial = len({(str(r["inp"]), str(r["out"]), str(r["prec"][-1]), str(r["builds"][-1]["init"]))
                         for r in recs if r["n"] > 1})
    ck.samples = [recs[5], recs[-1]]
    st = [b["status"] for r in recs for b in r["builds"]]
    ck.note(builds=len(st), accepted=st.count("accepted"), refused=st.count("refused"))
    ck.validate("BuilderTrace", recs)
    if pid == "C03":
        import c_runner
        c_runner.run(ck, pid, pick(1500, 10000))
    return ck.finish()
