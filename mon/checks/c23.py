"""Numerical functions belong to the expression and parameters they were made of."""

from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

ID = "C23"
RULE = (
    "A case is a history of cached operations (making functions with and without"
    " parameters for JAX and NumPy, updating parameters, evaluating older functions,"
    " symbolic operations, threads) over 13 related expressions, in several processes"
    " that run one after another on one disk cache with different hash seeds, one of"
    " which sometimes has caching disabled. Every returned function is judged against a"
    " shadow of the state it should have. Distinct: (expression, parameters, backend, call style)."
    " Functions are read from the disk cache before anything else was computed in some"
    " processes."
)
REQUIRED = {
    "new-function": 60, "after-update": 40, "bystander": 100, "symbolic": 30, "threads": 16, "uncached": 25,
    "read-first": 8,
}
CASE_LIMIT = {"quick": 300, "thorough": 900}


def cases(tier):
    return 12 if tier == "quick" else 80


def run(ctx):
    base = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"c23-{ctx.seed}-{ctx.idx}"
    base.mkdir(parents=True)
    n_sessions = 3 if ctx.tier == "quick" else 4
    try:
        for session in range(n_sessions):
            env = dict(os.environ)
            env["COMPWA_CACHE_DIR"] = str(base)
            env["PYTHONHASHSEED"] = str([0, 0, 7, 1][session])
            env.pop("NO_CACHE", None)
            if ctx.idx % 4 == 3 and session == 1:
                env["NO_CACHE"] = "1"
                ctx.event("sessions-without-cache")
            args = [str(ctx.seed), str(ctx.idx), str(session), ctx.tier]
            done = subprocess.run(  # noqa: S603
                [sys.executable, "-m", "mon.session", *args],
                env=env, capture_output=True, text=True, check=False,
            )
            lines = [x for x in done.stdout.splitlines() if x.startswith("RESULT ")]
            if not lines:
                raise RuntimeError(f"session died: {done.stderr[-1500:]}")
            result = json.loads(lines[-1][7:])
            ctx.event("sessions")
            for k, n in result["events"].items():
                ctx.event(k, n)
            ctx.keys.update(result["keys"])
            for v in result["violations"]:
                ctx.violations.append({**v, "info": {"session": session}})
            for k, v in result["deviation"].items():
                ctx.max_deviation[k] = max(v, ctx.max_deviation.get(k, 0))
        ctx.event("cache-files", sum(1 for p in base.rglob("*") if p.is_file()))
        ctx.sample({"sessions": n_sessions, "events": dict(ctx.events)})
    finally:
        shutil.rmtree(base, ignore_errors=True)
