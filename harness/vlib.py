"""Shared machinery: running TLC, importing the code under test, verdicts and evidence.

Every check is `python harness/run.py Cnn`.  Exit codes: 0 the property held on everything
explored, 1 (with a VIOLATION line) it did not; anything else is a failure of the machinery.
"""
import json
import math
import os
import pathlib
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = pathlib.Path(__file__).resolve().parents[1]
SPEC = VERIF / "spec"
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    """The check itself failed (never reported as a violation)."""


def setup_imports():
    """Import the code under test from /repo's working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = str(pathlib.Path(tempfile.gettempdir()) / "verif-no-pycache")
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)


class TlcResult:
    def __init__(self, text, rc, wall):
        self.text = text
        self.rc = rc
        self.wall = wall
        self.items = []
        for line in text.splitlines():
            if line.startswith('"@@'):
                try:
                    self.items.append(json.loads(json.loads(line)[2:]))
                except ValueError:
                    raise MachineryError(f"unparsable TLC output line: {line[:300]}")
        self.items.sort(key=lambda i: json.dumps(i, sort_keys=True))     # workers print in any order
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        self.left = int(m.group(3)) if m else -1
        self.violated = re.findall(r"(?:Invariant|Action property|property) (\w+)(?: of module \w+)? (?:is|was) violated", text)
        self.completed = "Model checking completed. No error has been found." in text

    def tail(self, n=60):
        lines = [l for l in self.text.splitlines() if not l.startswith('"@@') and not l.startswith("Parsing file")
                 and not l.startswith("Semantic proc") and not l.startswith("Linting")]
        errors = [l for l in lines if l.startswith("Error") or "rror:" in l]
        return "\n".join(errors[:6] + lines[-n:])


class Check:
    def __init__(self, pid, tier, seed, level="model_checking"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier != "thorough"
        self.rng = random.Random(seed * 1000003 + int(pid[1:]))
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.scratch = pathlib.Path(tempfile.mkdtemp(prefix=f"verif-{pid}-"))

    # ---- TLC ------------------------------------------------------------------------------
    def tlc(self, module, *, cfg=None, consts=None, env=None, workers=None, timeout=800, heap=None,
            invariants=(), properties=(), spec=("Init", "Next"), view=None, constraint=None,
            expect_ok=True, extra_args=(), postcondition=None, alias=None, dirs=(), stack=None):
        """Run TLC on spec/<module>.tla. consts: name -> TLA expression text."""
        work = self.scratch / f"tlc-{module}-{len(list(self.scratch.iterdir()))}"
        work.mkdir()
        for f in SPEC.glob("*.tla"):
            shutil.copy(f, work / f.name)
        lines = []
        if len(spec) == 2:
            lines += [f"INIT {spec[0]}", f"NEXT {spec[1]}"]
        else:
            lines += [f"SPECIFICATION {spec[0]}"]
        if consts:
            lines.append("CONSTANTS")
            for k, v in consts.items():
                lines.append(f"  {k} = {v}")
        for i in invariants:
            lines.append(f"INVARIANT {i}")
        for i in properties:
            lines.append(f"PROPERTY {i}")
        if view:
            lines.append(f"VIEW {view}")
        if constraint:
            lines.append(f"CONSTRAINT {constraint}")
        if postcondition:
            lines.append(f"POSTCONDITION {postcondition}")
        (work / "run.cfg").write_text("\n".join(lines) + "\n")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap or '12g'}", f"-Xss{stack or '64m'}", "-cp", TLA_CP, "tlc2.TLC",
               "-deadlock", "-noGenerateSpecTE", "-workers", str(workers or NCPU),
               "-metadir", str(work / "meta"), "-config", "run.cfg", *extra_args, f"{module}.tla"]
        t0 = time.time()
        try:
            out = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        r = TlcResult(out.stdout, out.returncode, time.time() - t0)
        shutil.rmtree(work, ignore_errors=True)
        if expect_ok and not r.completed:
            raise MachineryError(f"TLC failed on {module}: rc={out.returncode}\n{r.tail(80)}\n{out.stderr[-2000:]}")
        if os.environ.get("VERIF_TIMING"):
            print(f"[tlc {module} {r.wall:.1f}s, total {time.time() - self.t0:.1f}s]", file=sys.stderr)
        self.cov["states"] += r.distinct
        self.cov["transitions"] += max(0, r.generated - 1)
        return r

    def write_ndjson(self, name, rows):
        p = self.scratch / name
        with open(p, "w") as f:
            for r in rows:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        return str(p)

    # ---- verdicts -------------------------------------------------------------------------
    def violation(self, what, detail=None):
        self.violations.append({"what": what, "detail": detail})
        return self

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def finish(self):
        wall = time.time() - self.t0
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.violations)}
        evdir = VERIF / "evidence"
        evdir.mkdir(exist_ok=True)
        (evdir / f"{self.pid}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.violations:
            out = VERIF / "out"
            out.mkdir(exist_ok=True)
            replay = out / f"{self.pid}-violation.json"
            replay.write_text(json.dumps({
                "property": self.pid, "tier": ev["tier"], "seed": self.seed,
                "rerun": f"VERIF_SEED={self.seed} VERIF_TIER={ev['tier']} /opt/venv/bin/python harness/run.py {self.pid}",
                "violations": self.violations[:50]}, indent=1, default=str) + "\n")
            for v in self.violations[:5]:
                print("  ", v["what"], str(v["detail"])[:600] if v["detail"] is not None else "")
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        c = self.cov
        print(f"OK property={self.pid} tier={ev['tier']} states={c['states']} transitions={c['transitions']} "
              f"traces={c['traces_validated_against_impl']} wall={wall:.1f}s")
        return 0

    def validate_traces(self, module, traces, *, describe, chunk_weight=None, **kw):
        """Trace validation.  traces: list of JSON rows; the module prints, for every trace number,
        either {"acc": i} or {"rej": i, "at": step, "why": clause, "info": ...}."""
        if not traces:
            if not self.violations:
                raise MachineryError(f"{module}: no traces")
            return None
        path = self.write_ndjson(f"traces-{len(list(self.scratch.iterdir()))}.ndjson", traces)
        env = dict(kw.pop("env", {}))
        env["TRACES"] = path
        r = self.tlc(module, env=env, view="View", expect_ok=False, **kw)
        acc, rej = set(), {}
        for it in r.items:
            if "acc" in it:
                acc.add(it["acc"])
            elif "rej" in it:
                rej.setdefault(it["rej"], it)
        if not r.completed and not rej:
            bad = self._undefined(module, traces, env, kw, r)
            if bad is None:
                raise MachineryError(f"TLC failed on {module}: rc={r.rc}\n{r.tail(80)}")
            rej[bad + 1] = {"why": "the recorded behaviour is outside what the specification is defined for", "at": None}
        missing = set(range(1, len(traces) + 1)) - acc - set(rej)
        if missing and r.completed:
            raise MachineryError(f"{module}: no verdict for traces {sorted(missing)[:5]}\n{r.tail(40)}")
        self.cov["traces_validated_against_impl"] += len(traces)
        for i in sorted(rej):
            self.violation(f"{describe(i - 1)}: {rej[i].get('why')} (step {rej[i].get('at')})", rej[i].get("info"))
        return r

    def _undefined(self, module, traces, env, kw, r):
        """TLC stopped with an error while it judged traces.  Find one trace on which, alone, it does:
        the code recorded something on which the specification has no value at all (an operator is
        applied outside its domain), which no behaviour of the specification does."""
        stop = time.time() + 300
        bad = lambda r: not r.completed and "Error:" in r.text and not re.search(r"OutOfMemory|GC overhead|No space left", r.text)
        idx = list(range(len(traces)))
        while bad(r) and time.time() < stop:
            if len(idx) == 1:
                print(r.tail(5))
                return idx[0]
            half = idx[:len(idx) // 2]
            sub = dict(env, TRACES=self.write_ndjson(f"traces-{len(list(self.scratch.iterdir()))}.ndjson", [traces[i] for i in half]))
            r2 = self.tlc(module, env=sub, view="View", expect_ok=False, **kw)
            if not r2.completed:
                idx, r = half, r2
                continue
            idx = idx[len(idx) // 2:]
            if len(idx) == 1:
                sub = dict(env, TRACES=self.write_ndjson(f"traces-{len(list(self.scratch.iterdir()))}.ndjson", [traces[i] for i in idx]))
                r = self.tlc(module, env=sub, view="View", expect_ok=False, **kw)
        return None


def rational(x, base=1.0, maxden=2000, tol=1e-7):
    """x/base as an exact small rational [num, den]; [-1, 0] when it is not one."""
    if base == 0:
        return [0, 1] if x == 0 else [-1, 0]
    f = Fraction(x / base).limit_denominator(maxden)
    if abs(float(f) - x / base) <= tol * max(1.0, abs(x / base)):
        return [f.numerator, f.denominator]
    return [-1, 0]
