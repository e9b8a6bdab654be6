"""Shared machinery: running TLC, collecting verdicts, evidence and violations."""
from __future__ import annotations

import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
PY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
TLA_JAR = "/opt/veriftools/tla/tla2tools.jar"


class CheckError(Exception):
    """The check itself could not be carried out."""


def pick(quick, thorough):
    return thorough if TIER == "thorough" else quick


class TlcResult:
    def __init__(self, out: str, verdicts: list[dict], states: int, distinct: int, wall: float):
        self.out, self.verdicts = out, verdicts
        self.states, self.distinct, self.wall = states, distinct, wall


_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def tlc(module: str, cfg: str, env: dict | None = None, workers: int = 8,
        timeout: int = 800, heap: str = "8g", extra: list[str] | None = None,
        allow_violation: bool = False) -> TlcResult:
    """Runs TLC on spec/<module>.tla; raises CheckError unless it completes."""
    meta = tempfile.mkdtemp(prefix="tlc-")
    t0 = time.time()
    try:
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfg, *(extra or []), f"{module}.tla"]
        e = {**os.environ, **(env or {}), "JAVA_TOOL_OPTIONS": f"-Xmx{heap} -Xss64m -Djava.io.tmpdir={meta}"}
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise CheckError(f"TLC on {module} did not finish in {timeout}s") from ex
        out = p.stdout + p.stderr
        m = None
        for m in _STATES.finditer(out):
            pass
        ok = "Model checking completed. No error has been found." in out
        if m is None or (not ok and not allow_violation):
            raise CheckError(f"TLC on {module} failed:\n{out[-6000:]}")
        verdicts = []
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"@@'):
                verdicts.append(json.loads(json.loads(line)[2:]))
        return TlcResult(out, verdicts, int(m[1]), int(m[2]), time.time() - t0)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


class Checker:
    """One run of one property's check."""

    def __init__(self, pid: str, level: str, rule: str):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.evals = self.nontrivial = 0
        self.models: dict[str, dict] = {}
        self.samples: list = []
        self.violations: list[tuple[str, dict]] = []
        self.known_hits: list[str] = []
        self.extra: dict = {}
        self.assumptions: list[str] = []
        self.rng = random.Random(f"{SEED}-{pid}")
        self.known = load_known(pid)

    def note(self, **kw):
        self.extra.update(kw)

    def model(self, module: str, cfg: str, timeout: int = 800, **kw) -> TlcResult:
        """Model-checks the specification itself."""
        r = tlc(module, cfg, timeout=timeout, **kw)
        self.models[f"{module}/{cfg}"] = {"states_generated": r.states, "distinct_states": r.distinct,
                                           "wall_s": round(r.wall, 1)}
        self.states += r.distinct
        self.transitions += r.states
        return r

    def validate(self, module: str, records: list[dict], cfg: str = "Trace.cfg", key=None,
                 env: dict | None = None, expect_states: int | None = None, clauses_of=None,
                 chunk: int = 20000) -> None:
        """Checks records of the real code against spec/<module>; records violations.

        Only clauses tagged with this property's id count ("Cxx:clause").
        """
        if not records:
            raise CheckError(f"no records for {module}")
        for base in range(0, len(records), chunk):
            part = records[base:base + chunk]
            d = tempfile.mkdtemp(prefix="trace-")
            try:
                f = Path(d) / "trace.ndjson"
                with f.open("w") as fh:
                    for r in part:
                        fh.write(json.dumps(r, separators=(",", ":")) + "\n")
                r = tlc(module, cfg, env={"TRACE": str(f), **(env or {})})
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if expect_states is None and r.distinct < 2 * len(part):
                raise CheckError(f"TLC on {module} covered {r.distinct} states for {len(part)} records")
            self.states += r.distinct
            self.transitions += r.states
            self.traces += len(part)
            mine = [v for v in r.verdicts if any(cl.startswith(self.pid + ":") for cl in v["clauses"])]
            for v in sorted(mine, key=lambda v: v["c"]):
                rec = part[v["c"] - 1]
                self.violate(sorted(cl for cl in v["clauses"] if cl.startswith(self.pid + ":")),
                             {"module": module, "record": rec, "at": v.get("k", 0)})
            foreign = sorted({cl for v in r.verdicts for cl in v["clauses"]
                              if not cl.startswith(self.pid + ":")})
            if foreign:
                self.extra.setdefault("clauses_of_other_properties_seen", [])
                self.extra["clauses_of_other_properties_seen"] = sorted(
                    set(self.extra["clauses_of_other_properties_seen"]) | set(foreign))

    def violate(self, clauses, detail: dict) -> None:
        text = ",".join(clauses) if not isinstance(clauses, str) else clauses
        for k in self.known:
            if re.search(k["clause"], text) and known_matches(k, detail):
                if k["id"] not in self.known_hits:
                    self.known_hits.append(k["id"])
                return
        self.violations.append((text, detail))

    def finish(self) -> int:
        ev = {
            "property": self.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED, "level": self.level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "evaluations": self.evals or self.traces,
                "distinct_nontrivial": self.nontrivial,
                "rule": self.rule,
                "samples": self.samples[:3],
                "models": self.models, **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        for k in self.known:
            if k["id"] in self.known_hits:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            (VERIF / "replays").mkdir(exist_ok=True)
            path = VERIF / "replays" / f"{self.pid}.json"
            path.write_text(json.dumps(
                [{"clauses": t, **d} for t, d in self.violations[:50]], indent=1, default=str) + "\n")
            seen = set()
            for t, _ in self.violations:
                if t not in seen:
                    seen.add(t)
                    print(f"  broken: {t}")
            print(f"VIOLATION property={self.pid} replay={path}")
            return 1
        print(f"ok property={self.pid} states={self.states} records={self.traces} "
              f"wall={time.time() - self.t0:.1f}s")
        return 0


def load_known(pid: str) -> list[dict]:
    f = VERIF / "known_findings.jsonl"
    out = []
    if f.exists():
        for line in f.read_text().splitlines():
            if line.strip().startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def known_matches(k: dict, detail: dict) -> bool:
    """A listed finding names the specific input: every key in `match` must be in the
    record's `case` description with the same value."""
    case = detail.get("record", {}).get("case", detail.get("case", {}))
    return all(case.get(key) == val for key, val in k["match"].items())


def quiet():
    """Silences the chatter of the code under test (kept off the check's stdout)."""
    import contextlib
    import io

    @contextlib.contextmanager
    def cm():
        with open(os.devnull, "w") as dn, contextlib.redirect_stdout(dn), contextlib.redirect_stderr(dn):
            yield
    return cm()


class limit:
    """Turns a call of the code under test that does not come back into a TimeoutError."""

    def __init__(self, seconds: float):
        self.seconds = seconds

    def __enter__(self):
        import signal

        def ring(*_):
            raise TimeoutError(f"no answer in {self.seconds}s")
        self.old = signal.signal(signal.SIGALRM, ring)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        import signal
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


_job = None


def _work(span):
    fn, tag = _job
    return [fn(random.Random(f"{SEED}-{tag}-{i}")) for i in range(*span)]


def parallel(tag: str, n: int, fn) -> list:
    """[fn(rng_0), ...] over n independent random sources, on all cores; order and content
    depend only on the seed."""
    import multiprocessing

    global _job
    _job = (fn, tag)
    step = max(1, min(50, n // 32))
    spans = [(a, min(n, a + step)) for a in range(0, n, step)]
    with multiprocessing.get_context("fork").Pool(min(8, os.cpu_count() or 1)) as pool:
        out = [r for part in pool.map(_work, spans, chunksize=1) for r in part]
    _job = None
    return out
