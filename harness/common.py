"""Shared machinery of the checks: TLC runs, exact number encoding, traces, verdicts, evidence.

A check is: TLC explores the specification (its invariants are the design-level theorems) and
writes behaviours; a driver performs each behaviour on the code in /repo and records what it
answered; TLC then validates the recorded trace against the same specification.  Every recorded
answer is judged inside TLC, clause by clause.
"""
import concurrent.futures
import fractions
import hashlib
import json
import math
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("HAZMA_REPO", "/repo"))
SPEC = VERIF / "spec"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = "thorough" if os.environ.get("VERIF_TIER", "quick") == "thorough" else "quick"
CORES = min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
if str(REPO) not in sys.path:
    sys.path.insert(0, str(REPO))

SCRATCH = pathlib.Path(tempfile.mkdtemp(prefix="hzv-"))


def cleanup():
    shutil.rmtree(SCRATCH, ignore_errors=True)


T0 = time.time()


class Broken(Exception):
    """The machinery itself failed: exit 2, never a verdict."""


# ---------------------------------------------------------------- numbers
def num(x):
    """Exact text of a number for Rat.tla; anything that is not one real number becomes 'bad:...'."""
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.ndim == 0 or (x.size == 1 and x.ndim == 0):
                x = x.item()
            else:
                return f"bad:array{tuple(x.shape)}"
        if isinstance(x, np.generic):
            x = x.item()
    except ImportError:
        pass
    if isinstance(x, bool):
        return str(int(x))
    if isinstance(x, int):
        return str(x)
    if isinstance(x, fractions.Fraction):
        return f"{x.numerator}/{x.denominator}"
    if isinstance(x, float):
        if math.isnan(x):
            return "nan"
        if math.isinf(x):
            return "inf" if x > 0 else "-inf"
        return x.hex()
    return f"bad:{type(x).__name__}"


def vec(xs):
    """A 1-D sequence of numbers, or ['bad:...'] for anything else."""
    import numpy as np
    try:
        if isinstance(xs, np.ndarray) and xs.ndim != 1:
            return [f"bad:array{tuple(xs.shape)}"]
        return [num(x) for x in xs]
    except TypeError:
        return [f"bad:{type(xs).__name__}"]


def mat(xs):
    import numpy as np
    try:
        if isinstance(xs, np.ndarray) and xs.ndim != 2:
            return [[f"bad:array{tuple(xs.shape)}"]]
        return [vec(r) for r in xs]
    except TypeError:
        return [[f"bad:{type(xs).__name__}"]]


def fval(s):
    """Number of a Rat text (for generated arguments): as a float."""
    if s.startswith(("0x", "-0x")):
        return float.fromhex(s)
    if s in ("inf", "-inf", "nan"):
        return float(s)
    return float(fractions.Fraction(s))


def attempt(fn):
    """{'ok': result} or {'raise': type}: the outcome of a call, warnings silenced."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            return "ok", fn()
        except Exception as e:  # noqa: BLE001 - the outcome is what is recorded
            return "raise", type(e).__name__
        except SystemExit as e:
            return "raise", f"SystemExit{e.code}"


def pmap(fn, items, procs=CORES):
    """fn over items in forked processes, in order; small inputs stay in this process."""
    items = list(items)
    if len(items) < 8:
        return [fn(x) for x in items]
    import multiprocessing as mp
    with mp.get_context("fork").Pool(procs) as pool:
        return pool.map(fn, items, chunksize=max(1, min(16, len(items) // (4 * procs))))


# ---------------------------------------------------------------- TLC
_classes = None


def rat_classes():
    global _classes
    if _classes is None:
        out = SCRATCH / "classes"
        out.mkdir(parents=True, exist_ok=True)
        r = subprocess.run(["javac", "-nowarn", "-d", str(out), "-cp", JARS, str(SPEC / "lib" / "Rat.java")],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken("javac: " + r.stderr[-2000:])
        _classes = out
    return _classes


class TlcRun:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(v.replace(",", "")) for v in m[-1]) if m else (0, 0)
        m = re.search(r"The number of states generated: ([\d,]+)", out)
        if m and not self.generated:
            self.generated = self.distinct = int(m[1].replace(",", ""))

    def lines(self, tag):
        """The JSON payloads printed as "<tag> <json>"."""
        res = []
        for ln in self.out.splitlines():
            if ln.startswith(f'"{tag} '):
                res.append(json.loads(json.loads(ln, strict=False)[len(tag) + 1:]))
        return res


def tlc(module, cfg_text, env=None, args=(), timeout=600, heap="2g", workers=1):
    """Run TLC on spec/<module>.tla with the configuration text `cfg_text`."""
    work = pathlib.Path(tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH))
    cfg = work / f"{module}.cfg"
    cfg.write_text(cfg_text)
    cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-DTLA-Library=" + str(SPEC / "lib"),
           "-cp", f"{JARS}:{rat_classes()}", "tlc2.TLC", "-metadir", str(work / "m"), "-workers", str(workers),
           "-nowarning", "-config", str(cfg), *map(str, args), str(SPEC / f"{module}.tla")]
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e["TMPDIR"] = str(work)
    cmd.insert(1, f"-Djava.io.tmpdir={work}")
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC on {module} did not finish in {timeout} s") from None
    shutil.rmtree(work, ignore_errors=True)
    if os.environ.get("VERIF_TIMES"):
        print(f"[{time.time() - T0:6.1f}s] TLC {module} rc={r.returncode} took {time.time() - t:.1f}s", file=sys.stderr)
    return TlcRun(r.returncode, r.stdout + r.stderr)


def explore(module, cfg_text, what="", **kw):
    """Check a specification: any outcome but 'no error' means the specification is wrong."""
    run = tlc(module, cfg_text, **kw)
    if run.rc != 0:
        raise Broken(f"specification {module} {what}: TLC exit {run.rc}\n" + run.out[-3000:])
    return run


# ---------------------------------------------------------------- a check
class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.states = self.transitions = self.behaviours = self.events = 0
        self.violations, self.known, self.samples = [], [], []
        self.clauses = {}
        self.extra = {}
        self.assumptions = []

    # -- specification side
    def explore(self, module, cfg_text, what="", **kw):
        run = explore(module, cfg_text, what, **kw)
        self.states += run.distinct
        self.transitions += run.generated
        return run

    # -- conformance side
    def validate(self, module, behaviours, cfg_extra="", timeout=600, label="", env=None):
        """Validate recorded behaviours (lists of event dicts; the first resets the state)."""
        behaviours = [b for b in behaviours if b]
        if not behaviours:
            raise Broken(f"{module}: no behaviours to validate")
        size = sum(len(json.dumps(e)) for b in behaviours for e in b)
        n = min(CORES, len(behaviours), 1 + max(sum(map(len, behaviours)) // 200, size // 50000))
        chunks = [behaviours[i::n] for i in range(n)]
        cfg = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n" + cfg_extra

        def one(k):
            path = SCRATCH / f"trace-{module}-{label}-{k}.ndjson"
            flat = [e for b in chunks[k] for e in b]
            with open(path, "w") as f:
                for e in flat:
                    f.write(json.dumps(e) + "\n")
            return flat, tlc(module, cfg, env={"TRACE": path, **(env or {})}, timeout=timeout)
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            results = list(ex.map(one, range(n)))
        for k, (flat, run) in enumerate(results):
            fails = run.lines("FAIL")
            for f in fails:
                self._fail(module, chunks[k], f["i"], f["clauses"], f.get("why"))
            if run.rc != 0:
                if run.rc in (75, 76, 12) and not fails and "TraceAccepted" not in run.out:
                    # an answer the specification cannot even read: name it, from where TLC stopped
                    m = re.findall(r"/\\ l = (\d+)", run.out)
                    at = int(m[-1]) if m else 1
                    self._fail(module, chunks[k], at, ["IllTypedAnswer"], run.out[-1500:])
                elif not fails:
                    raise Broken(f"{module}: TLC exit {run.rc}\n" + run.out[-3000:])
            for c in run.lines("COUNT"):
                for name, v in c.items():
                    self.clauses[name] = self.clauses.get(name, 0) + v
            self.states += run.distinct
            self.transitions += run.generated
        self.behaviours += len(behaviours)
        self.events += sum(map(len, behaviours))
        if not self.samples:
            self.samples = [b[:3] for b in behaviours[:2]]

    def _fail(self, module, chunk, i, clauses, why=None):
        n = 0
        for b in chunk:
            if n + len(b) >= i:
                self.violations.append({"module": module, "clauses": sorted(clauses), "behaviour": b[: i - n],
                                        "event": b[i - n - 1], "why": why})
                return
            n += len(b)

    def violate(self, clause, detail):
        """A violation found outside a trace (a hang, a crash of the driven process)."""
        self.violations.append({"module": "driver", "clauses": [clause], "event": detail, "behaviour": [detail]})

    # -- verdict
    def finish(self):
        known = load_known(self.prop)
        fresh, seen = [], {}
        for v in self.violations:
            k = match_known(known, v)
            if k:
                seen[k["what"]] = k
            else:
                fresh.append(v)
        for what in seen:
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        (VERIF / "evidence").mkdir(exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.behaviours, "events_judged": self.events,
               "clauses_judged": self.clauses, "samples": self.samples[:3] or ["none"], **self.extra}
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh)}
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1) + "\n")
        if fresh:
            d = VERIF / "evidence" / "replays"
            d.mkdir(parents=True, exist_ok=True)
            byclause = {}
            for v in fresh:
                byclause.setdefault((v["module"], tuple(v["clauses"])), v)
            for n, v in enumerate(list(byclause.values())[:5]):
                p = d / f"{self.prop}-{n}.json"
                p.write_text(json.dumps(v, indent=1, default=str) + "\n")
                print(f"  {v['module']}: clauses {v['clauses']} on {json.dumps(v['event'], default=str)[:600]}")
                print(f"VIOLATION property={self.prop} replay={p}")
            print(f"{len(fresh)} violating events")
            return 1
        print(f"OK property={self.prop} tier={TIER} states={self.states} behaviours={self.behaviours} "
              f"events={self.events} wall={ev['wall_s']}s")
        return 0


def load_known(prop):
    p = VERIF / "known_findings.jsonl"
    if not p.exists():
        return []
    rows = [json.loads(ln) for ln in p.read_text().splitlines() if ln.strip()]
    return [r for r in rows if r.get("property") == prop and r.get("status") == "known"]


def match_known(known, v):
    """A listed finding covers a violation when the clauses are the listed ones and every listed
    field of the event has the listed value."""
    for k in known:
        if k["module"] == v["module"] and set(v["clauses"]) <= set(k["clauses"]) and isinstance(v["event"], dict) and \
                all(v["event"].get(f) == val for f, val in k["event"].items()):
            return k
    return None


def rng(tag=""):
    import random
    return random.Random(int(hashlib.sha256(f"{SEED}/{tag}".encode()).hexdigest()[:12], 16))


def main(prop, body, **kw):
    check = Check(prop, **kw)
    try:
        body(check)
        rc = check.finish()
    except Broken as e:
        print(f"ERROR property={prop}: {e}", file=sys.stderr)
        rc = 2
    finally:
        cleanup()
    sys.stdout.flush()
    sys.exit(rc)
