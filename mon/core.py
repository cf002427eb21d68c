"""Workload driver, event bookkeeping, verdicts and evidence.

A *check* is a module in :mod:`mon.checks` that defines

``ID``        property identifier,
``RULE``      how cases are made and what makes one non-trivial,
``REQUIRED``  event kinds with the minimum number of times they have to be observed;
              fewer observations make the run inconclusive (exit code 2, never 0),
``cases(tier)``   number of cases,
``run(ctx)``  executes one case: drive the real code, record events, let oracles judge.

Cases run in forked worker processes.  Every random choice of case *n* derives from
``(VERIF_SEED, ID, n)``, so a case is replayed with ``./check C05 --case 17``.
"""

from __future__ import annotations

import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from collections import Counter
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SRC = REPO / "src" / "ampform_dpd"
TOOL = "ampform_dpd_monitor"
MEMORY_LIMIT = 3 * 2**30


class CaseTimeout(Exception):
    """The wall-clock watchdog of a case fired.

    Inconclusive, unless the case spent its time computing in the code under test, where
    it needs seconds on the unchanged tree.
    """


class _Reach:
    """Record which source lines of the package the workload executed."""

    def __init__(self) -> None:
        self.lines: dict[str, set[int]] = {}

    def start(self) -> None:
        mon = sys.monitoring
        self._id = mon.COVERAGE_ID
        try:
            mon.use_tool_id(self._id, TOOL)
        except ValueError:
            self._id = None
            return
        prefix = str(SRC)

        def on_line(code, line):
            if code.co_filename.startswith(prefix):
                self.lines.setdefault(code.co_filename, set()).add(line)
            return mon.DISABLE

        mon.register_callback(self._id, mon.events.LINE, on_line)
        mon.set_events(self._id, mon.events.LINE)


REACH = _Reach()


class Ctx:
    """Monitor state of one case."""

    def __init__(self, prop: str, seed: int, idx: int, tier: str) -> None:
        self.prop = prop
        self.seed = seed
        self.idx = idx
        self.tier = tier
        self.events: Counter = Counter()
        self.keys: set[str] = set()
        self.violations: list[dict] = []
        self.known: list[dict] = []
        self.samples: list = []
        self.max_deviation: dict[str, float] = {}
        self.info: dict = {}

    @property
    def rng(self):
        if not hasattr(self, "_rng"):
            import numpy as np

            h = hashlib.sha256(f"{self.seed}/{self.prop}/{self.idx}".encode()).digest()
            self._rng = np.random.default_rng(list(h))
        return self._rng

    # -- observations ---------------------------------------------------------------
    def event(self, kind: str, n: int = 1) -> None:
        self.events[kind] += n

    def distinct(self, *key) -> None:
        """Register a distinct, non-trivial case."""
        self.keys.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def sample(self, obj) -> None:
        if len(self.samples) < 2:
            self.samples.append(obj)

    # -- verdicts -------------------------------------------------------------------
    def violate(self, mechanism: str, message: str, **data) -> None:
        self.violations.append({
            "mechanism": mechanism,
            "message": message,
            "data": {k: _plain(v) for k, v in data.items()},
            "info": _plain(self.info),
        })

    def finding(self, key: str, message: str) -> None:
        """A deviation whose mechanism matches a committed known finding."""
        self.known.append({"key": key, "message": message})

    def require(self, condition, mechanism: str, message: str, **data) -> bool:
        self.event("judged")
        if not condition:
            self.violate(mechanism, message, **data)
            return False
        return True

    def close(self, mechanism, observed, expected, *, rtol=1e-7, atol=1e-9, scale=None, **data):
        """Judge numerical agreement (NaN in *observed* where expected is finite fails)."""
        return self.require(
            self.agrees(mechanism, observed, expected, rtol=rtol, atol=atol, scale=scale),
            mechanism,
            f"{mechanism}: observed value differs from the oracle",
            observed=_head(observed),
            expected=_head(expected),
            **data,
        )

    def raises(self, mechanism, exceptions, function, *args, **kwargs) -> bool:
        """Judge that the call is rejected with one of the documented exceptions."""
        self.event("rejections")
        try:
            result = function(*args, **kwargs)
        except exceptions:
            self.event("judged")
            return True
        except CaseTimeout:
            raise
        except Exception as exc:  # noqa: BLE001
            return self.require(
                False,
                mechanism,
                f"rejected with {type(exc).__name__} ({exc}) instead of "
                + "/".join(e.__name__ for e in exceptions),
                args=args,
            )
        return self.require(
            False, mechanism, "invalid input was accepted", args=args, result=result
        )

    def agrees(self, mechanism, observed, expected, *, rtol=1e-7, atol=1e-9, scale=None):
        import numpy as np

        try:
            obs = np.asarray(observed, dtype=complex)
            exp = np.asarray(expected, dtype=complex)
            obs, exp = np.broadcast_arrays(obs, exp)
        except (TypeError, ValueError):
            return False
        if scale is None:
            scale = float(np.max(np.abs(exp))) if exp.size else 0.0
        tol = atol + rtol * scale
        with np.errstate(invalid="ignore"):
            dev = np.abs(obs - exp)
        if not np.all(np.isfinite(dev)):
            return False
        worst = float(np.max(dev)) if dev.size else 0.0
        rel = worst / tol
        self.max_deviation[mechanism] = max(rel, self.max_deviation.get(mechanism, 0))
        return worst <= tol


def _head(x):
    import numpy as np

    arr = np.asarray(x).ravel()
    return [_plain(v) for v in arr[:4]]


def _plain(obj):
    if isinstance(obj, dict):
        return {str(k): _plain(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [_plain(v) for v in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    if type(obj).__module__ == "numpy":
        return _plain(obj.tolist())
    return str(obj)


def _through_repo(exc: BaseException) -> bool:
    """Whether the code under test raised (or passed on) this exception."""
    frames = traceback.extract_tb(exc.__traceback__)
    return any(f.filename.startswith(str(SRC)) for f in frames)


def _own_cache() -> None:
    """Give every worker its own disk cache: the cache of AmpForm has no locking."""
    base = os.environ.get("VERIF_SCRATCH", "/tmp/verif-scratch")
    os.environ["COMPWA_CACHE_DIR"] = f"{base}/cache-{os.getpid()}"
    # results that grow without end become a MemoryError
    _, hard = resource.getrlimit(resource.RLIMIT_DATA)
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY_LIMIT, hard))


def _alarm(signum, frame):
    """Stop the case; it hangs if it kept on computing within the code under test."""
    where = []
    while frame is not None:
        if frame.f_code.co_filename.startswith(str(SRC)):
            where.append(f"{Path(frame.f_code.co_filename).name}:{frame.f_lineno}")
        frame = frame.f_back
    raise CaseTimeout(where)


UNUSABLE = (LookupError, TypeError, AttributeError, ValueError, ArithmeticError)

_CHECK = None


def _run_case(args) -> dict:
    prop, seed, idx, tier, limit = args
    ctx = Ctx(prop, seed, idx, tier)
    reach_before = {k: set(v) for k, v in REACH.lines.items()}
    out = {"idx": idx, "timeout": False, "error": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    signal.setitimer(signal.ITIMER_PROF, limit / 4)
    started = time.process_time()
    try:
        _CHECK.run(ctx)
    except CaseTimeout as exc:
        out["timeout"] = True
        (where,) = exc.args
        signal.setitimer(signal.ITIMER_PROF, 0)
        if where and time.process_time() - started > 0.2 * limit:
            ctx.violate(
                "does-not-terminate",
                f"call does not return within {limit // 4} s of computing",
                where=where[:5],
            )
    except Exception as exc:  # noqa: BLE001
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        if _through_repo(exc):
            tb = traceback.format_exc().splitlines()
            ctx.violate(
                f"unexpected-exception:{type(exc).__name__}",
                f"valid input raised {type(exc).__name__}: {exc}"[:500],
                traceback=tb[-12:],
            )
        elif isinstance(exc, UNUSABLE):
            # reading the returned object failed: it does not have its documented form
            ctx.violate(
                f"unusable-result:{type(exc).__name__}",
                f"result does not have its documented form: {type(exc).__name__}: "
                f"{exc}"[:500],
                traceback=traceback.format_exc().splitlines()[-12:],
            )
        else:
            out["error"] = traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    out["cpu"] = time.process_time() - started
    out.update(
        events=dict(ctx.events),
        keys=sorted(ctx.keys),
        violations=ctx.violations,
        known=ctx.known,
        samples=ctx.samples,
        deviation=ctx.max_deviation,
        reach={
            k: sorted(v - reach_before.get(k, set())) for k, v in REACH.lines.items()
        },
    )
    return out


def load_findings() -> dict[str, dict]:
    path = VERIF / "known_findings.json"
    entries = json.loads(path.read_text())["findings"]
    return {e["key"]: e for e in entries}


def main(argv: list[str]) -> int:
    global _CHECK  # noqa: PLW0603
    t0 = time.time()
    prop = argv[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    only = int(argv[argv.index("--case") + 1]) if "--case" in argv else None
    if tier not in {"quick", "thorough"}:
        tier = "quick"

    import warnings

    warnings.filterwarnings("ignore")
    logging.getLogger("ampform.sympy._cache").setLevel(logging.ERROR)
    REACH.start()
    import ampform_dpd

    if not Path(ampform_dpd.__file__).is_relative_to(SRC):
        print(f"ERROR: monitored package is {ampform_dpd.__file__}, not {SRC}")
        return 3
    _CHECK = importlib.import_module(f"mon.checks.{prop.lower()}")
    n_cases = _CHECK.cases(tier)
    budget = {"quick": 420.0, "thorough": 5400.0}[tier]
    budget = getattr(_CHECK, "BUDGET", {}).get(tier, budget)
    limit = getattr(_CHECK, "CASE_LIMIT", {"quick": 240, "thorough": 1600})[tier]
    todo = [only] if only is not None else list(range(n_cases))
    jobs = [(prop, seed, i, tier, limit) for i in todo]
    workers = min(getattr(_CHECK, "WORKERS", 8), len(jobs), os.cpu_count() or 1)
    results: list[dict] = []
    stopped = False
    hanging = 0
    if workers <= 1 or only is not None:
        for job in jobs:
            results.append(_run_case(job))
            if time.time() - t0 > budget:
                stopped = True
                break
    else:
        with mp.get_context("fork").Pool(workers, initializer=_own_cache) as pool:
            chunk = getattr(_CHECK, "CHUNK", 1)
            for res in pool.imap_unordered(_run_case, jobs, chunksize=chunk):
                results.append(res)
                hanging += bool(res["timeout"] and res["violations"])
                if time.time() - t0 > budget or hanging >= 3:
                    stopped = True
                    pool.terminate()
                    break
    results.sort(key=lambda r: r["idx"])
    return _conclude(prop, seed, tier, results, n_cases, stopped, t0, only)


def _conclude(prop, seed, tier, results, n_cases, stopped, t0, only) -> int:
    events: Counter = Counter()
    keys: set[str] = set()
    deviation: dict[str, float] = {}
    reach: dict[str, set[int]] = {k: set(v) for k, v in REACH.lines.items()}
    samples: list = []
    for res in results:
        events.update(res["events"])
        keys.update(res["keys"])
        for k, v in res["deviation"].items():
            deviation[k] = max(v, deviation.get(k, 0))
        for k, v in res["reach"].items():
            reach.setdefault(k, set()).update(v)
        if len(samples) < 4:
            samples.extend(res["samples"])
    violations = [dict(v, case=r["idx"]) for r in results for v in r["violations"]]
    errors = [(r["idx"], r["error"]) for r in results if r["error"]]
    timeouts = [r["idx"] for r in results if r["timeout"]]

    findings = load_findings()
    seen_known: dict[str, list[int]] = {}
    for r in results:
        for k in r["known"]:
            entry = findings.get(k["key"])
            if entry is None or entry["property"] != prop:
                violations.append({
                    "mechanism": k["key"],
                    "message": f"unlisted finding: {k['message']}",
                    "data": {},
                    "case": r["idx"],
                })
            else:
                seen_known.setdefault(k["key"], []).append(r["idx"])

    replay_dir = VERIF / "evidence" / "replay"
    replay_dir.mkdir(parents=True, exist_ok=True)
    for old in replay_dir.glob(f"{prop}-*.json"):
        old.unlink()
    lines: list[str] = []
    by_mechanism: dict[str, list[dict]] = {}
    for v in violations:
        by_mechanism.setdefault(v["mechanism"], []).append(v)
    for n, (mechanism, group) in enumerate(sorted(by_mechanism.items())):
        path = replay_dir / f"{prop}-{n}.json"
        first = group[0]
        path.write_text(
            json.dumps(
                {
                    "property": prop,
                    "replay": f"VERIF_SEED={seed} VERIF_TIER={tier} ./check {prop} --case {first['case']}",
                    "mechanism": mechanism,
                    "occurrences": len(group),
                    "cases": [g["case"] for g in group][:50],
                    "witness": first,
                },
                indent=1,
                ensure_ascii=False,
            )
        )
        lines.append(f"VIOLATION property={prop} replay={path}")
        print(f"  [{mechanism}] x{len(group)}: {first['message'][:300]}")
        print(f"     first: case {first['case']} {json.dumps(first['data'], ensure_ascii=False)[:600]}")

    required = getattr(_CHECK, "REQUIRED", {"judged": 1})
    missing = {
        k: (events.get(k, 0), n) for k, n in required.items() if events.get(k, 0) < n
    }
    reached = {}
    for filename, nums in sorted(reach.items()):
        reached[str(Path(filename).relative_to(SRC))] = len(nums)
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": events.get("judged", 0),
            "distinct_nontrivial": len(keys),
            "rule": _CHECK.RULE,
            "samples": samples[:4] or ["no sample recorded"],
            "cases_run": len(results),
            "cases_planned": n_cases,
            "observed_events": dict(sorted(events.items())),
            "worst_deviation_over_tolerance": {
                k: float(f"{v:.3g}") for k, v in sorted(deviation.items())
            },
            "source_lines_reached": reached,
            "known_findings_seen": {k: len(v) for k, v in seen_known.items()},
            "timeouts": len(timeouts),
            "slowest_case_cpu_s": round(max(r["cpu"] for r in results), 1),
        },
        "assumptions": getattr(_CHECK, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(by_mechanism),
    }
    if only is None:
        out = VERIF / "evidence" / f"{prop}.json"
        out.write_text(json.dumps(evidence, indent=1, ensure_ascii=False) + "\n")
    for key in sorted(seen_known):
        print(f"KNOWN-FINDING: property={prop} {findings[key]['what']}")
    print(
        f"{prop} {tier} seed={seed}: {len(results)}/{n_cases} cases, "
        f"{events.get('judged', 0)} judgements, {len(keys)} distinct, "
        f"{time.time() - t0:.1f} s; worst/tol "
        + ", ".join(f"{k}={v:.2g}" for k, v in sorted(deviation.items())[:8])
    )
    if lines:
        for line in lines:
            print(line)
        return 1
    if errors:
        print(f"ERROR in harness, case {errors[0][0]}:\n{errors[0][1]}")
        return 3
    if only is None and missing:
        print(f"INCONCLUSIVE: monitors not reached often enough {missing}")
        return 2
    if only is None and len(timeouts) > 0.2 * max(1, len(results)):
        print(f"INCONCLUSIVE: {len(timeouts)} of {len(results)} cases timed out")
        return 2
    if stopped:
        print("note: stopped at the time budget before all planned cases ran")
    return 0
