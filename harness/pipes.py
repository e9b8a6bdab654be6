"""Synthetic pipelines: generation, and construction as real Stage classes."""
from __future__ import annotations

import functools
import itertools
from typing import NamedTuple

from instancespace.stage_builder import StageBuilder, StageResolutionError
from instancespace.stage_runner import StageRunner, StageRunningError, _StageArgument
from instancespace.stages.stage import RunAfter, RunBefore, Stage

# value id -> (name, type).  Ids 7, 8 share their name, not their type, with 1, 2: they are
# different values to the builder.
ARGS = {1: ("v1", int), 2: ("v2", str), 3: ("v3", list[int]), 4: ("v4", dict), 5: ("v5", float),
        6: ("v6", int | None), 7: ("v1", str), 8: ("v2", int)}
ARG_ID = {v: k for k, v in ARGS.items()}


@functools.lru_cache(maxsize=None)
def nt(kind: str, ids: tuple) -> type:
    return NamedTuple(kind, [ARGS[i] for i in ids])


def make_stage(name: str, inp, out, run=None, restrictions=(), base=Stage):
    """restrictions: list of (marker, getter of the partner class), resolved lazily."""
    cache = {}

    def _inputs():
        if "i" not in cache:
            if restrictions:
                fields = [ARGS[i] for i in inp]
                for k, (marker, partner) in enumerate(restrictions):
                    fields.insert(k % (len(fields) + 1), (f"r{k}", marker[partner()]))
                cache["i"] = NamedTuple("In", fields)
            else:
                cache["i"] = nt("In", tuple(inp))
        return cache["i"]

    def _outputs():
        return nt("Out", tuple(out))

    def _run(inputs):
        return run(inputs) if run else None

    return type(name, (base,), {"_inputs": staticmethod(_inputs), "_outputs": staticmethod(_outputs),
                                 "_run": staticmethod(_run)})


def classes_for(pipe: dict, runs=None):
    """Real stage classes for pipe: {n, inp, out, decl}; decl[s] is a list of
    ("before"|"after", partner id); partner ids beyond n are stages never added."""
    table = {}

    def getter(t):
        def get():
            if t not in table:
                table[t] = make_stage(f"Absent{t}", [], [])
            return table[t]
        return get

    for s in range(1, pipe["n"] + 1):
        restr = [(RunBefore if k == "before" else RunAfter, getter(t)) for k, t in pipe["decl"][s - 1]]
        name, base = pipe.get("style", {}).get(s, (f"S{s}", 0))
        table[s] = make_stage(name, pipe["inp"][s - 1], pipe["out"][s - 1],
                              runs[s - 1] if runs else None, restr, table[base] if base else Stage)
    return table


def prec_of(pipe: dict, upto: int):
    res = []
    for s in range(1, upto + 1):
        for k, t in pipe["decl"][s - 1]:
            res.append([s, t] if k == "before" else [t, s])
    return res


def dealias(ids):
    """A stage cannot have two fields of the same name."""
    names, res = set(), []
    for a in ids:
        if ARGS[a][0] not in names:
            names.add(ARGS[a][0])
            res.append(a)
    return res


def random_pipe(rng, max_n=6, max_args=6, alias=False, messy=0.3, max_prec=2):
    n = rng.randint(1, max_n)
    ids = list(range(1, rng.randint(1, max_args) + 1))
    if alias and rng.random() < 0.25:
        ids += [7] if 1 in ids else []
        ids += [8] if 2 in ids else []
    init = [a for a in ids if rng.random() < 0.35]
    avail = list(init)
    inp, out = [], []
    mutate = rng.choice([0, 0.2, 0.6])
    for _ in range(n):
        k = rng.choice([0, 1, 1, 2, 2, 3])
        i = rng.sample(avail, min(k, len(avail)))
        free = [a for a in ids if a not in avail]
        o = rng.sample(free, min(len(free), rng.choice([0, 1, 1, 1, 2]))) if free else []
        for a in i:
            if rng.random() < mutate:
                o.append(a)
        if rng.random() < 0.1:
            o.append(rng.choice(ids))
        inp.append(sorted(set(i)))
        out.append(sorted(set(o)))
        avail = sorted(set(avail) | set(o))
    if rng.random() < messy:
        for _ in range(rng.choice([1, 1, 2])):
            s = rng.randrange(n)
            tgt = rng.choice([inp, out])
            if rng.random() < 0.6:
                tgt[s] = sorted(set(tgt[s]) | {rng.choice(ids)})
            elif tgt[s]:
                tgt[s] = [a for a in tgt[s] if a != rng.choice(tgt[s])]
    if rng.random() < messy / 2 and init:
        init.remove(rng.choice(init))
    decl = [[] for _ in range(n)]
    if n > 1 and rng.random() < 0.6:
        for _ in range(rng.randint(1, max_prec)):
            a, b = sorted(rng.sample(range(1, n + 1), 2))
            if rng.random() < 0.1:
                a, b = b, a
            if rng.random() < 0.03:
                b = a
            if rng.random() < 0.07:
                decl[a - 1].append((rng.choice(["before", "after"]), n + 1))
            elif rng.random() < 0.5:
                decl[a - 1].append(("before", b))
            else:
                decl[b - 1].append(("after", a))
    inp, out = [[dealias(v) for v in vs] for vs in (inp, out)]
    perm = list(range(n))
    rng.shuffle(perm)  # new position -> old
    inv = {old + 1: new + 1 for new, old in enumerate(perm)}
    inv[n + 1] = n + 1
    return {"n": n, "inp": [inp[o] for o in perm], "out": [out[o] for o in perm],
            "decl": [[(k, inv[t]) for k, t in dict.fromkeys(decl[o])] for o in perm], "init": init,
            "style": style(rng, n)}


def style(rng, n):
    """Names and base classes: classes may share a name, and derive from one another."""
    if rng.random() < 0.7:
        return {}
    names = [f"S{k}" for k in range(1, rng.randint(1, n) + 1)]
    return {s: (rng.choice(names), rng.randrange(s) if rng.random() < 0.4 else 0) for s in range(1, n + 1)}


def all_small_pipes(n, nargs, prec=True):
    args = list(range(1, nargs + 1))
    subsets = [list(c) for k in range(nargs + 1) for c in itertools.combinations(args, k)]
    decls = [[[] for _ in range(n)]]
    if prec:
        for s in range(1, n + 1):
            for t in range(1, n + 2):
                for k in ("before", "after"):
                    d = [[] for _ in range(n)]
                    d[s - 1] = [(k, t)]
                    decls.append(d)
    for ins in itertools.product(subsets, repeat=n):
        for outs in itertools.product(subsets, repeat=n):
            for init in subsets:
                for d in decls:
                    yield {"n": n, "inp": list(ins), "out": list(outs), "decl": d, "init": init}


def init_type(init, as_set):
    if as_set or len(dealias(init)) < len(init):
        return {_StageArgument(*ARGS[a]) for a in init}
    return nt("Init", tuple(init))


def init_ids(obj):
    if isinstance(obj, set):
        pairs = [(a.parameter_name, a.parameter_type) for a in obj]
    else:
        pairs = list(obj.__annotations__.items())
    return sorted(ARG_ID.get(p, 99) for p in pairs)
