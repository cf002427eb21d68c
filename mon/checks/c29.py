"""Muting and rendering utilities change nothing but what they are for."""

from __future__ import annotations

import json
import os
import shutil
import subprocess
import sys
from pathlib import Path

ID = "C29"
RULE = (
    "A case runs the same analysis steps (sub-decays, model, cached operations) in four"
    " fresh processes with an empty disk cache: as is, with warnings muted, with"
    " simplified LaTeX rendering, and with both, called once or repeatedly. Warnings,"
    " log records, filters and handlers set up before, renderings and results of the processes are recorded and compared."
    " Distinct: (decay, mode)."
    " Indexed symbols with repeated indices and with several bases are rendered."
)
REQUIRED = {"process": 32, "announced": 16, "silent": 16, "others": 32, "rendering": 32}


def cases(tier):
    return 8 if tier == "quick" else 40


def observe(ctx, mode) -> dict:
    base = Path(os.environ.get("VERIF_SCRATCH", "/tmp")) / f"c29-{ctx.seed}-{ctx.idx}-{mode}"
    base.mkdir(parents=True)
    env = {**os.environ, "COMPWA_CACHE_DIR": str(base)}
    env.pop("NO_CACHE", None)
    env.pop("PYTHONWARNINGS", None)
    try:
        done = subprocess.run(  # noqa: S603
            [sys.executable, "-m", "mon.mute", str(ctx.seed), str(ctx.idx), mode],
            env=env, capture_output=True, text=True, check=False,
        )
    finally:
        shutil.rmtree(base, ignore_errors=True)
    lines = [x for x in done.stdout.splitlines() if x.startswith("RESULT ")]
    if not lines:
        if "src/ampform_dpd/" in done.stderr.rsplit("Traceback", 1)[-1]:
            ctx.violate("unexpected-exception", f"mode {mode}: {done.stderr[-600:]}")
            return {}
        raise RuntimeError(f"process died: {done.stderr[-1500:]}")
    ctx.event("process")
    return json.loads(lines[-1][7:])


def run(ctx):
    runs = {mode: observe(ctx, mode) for mode in ("plain", "mute", "simplify", "both")}
    plain = runs["plain"]
    if not all(runs.values()):
        return
    ctx.sample({m: {k: r[k] for k in ("warnings", "log", "others")} for m, r in runs.items()})
    for mode, r in runs.items():
        ctx.distinct(ctx.idx, mode)
        muted = mode in {"mute", "both"}
        library = [w for w in r["warnings"] if "subsystem" in w]
        cache = [m for m in r["log"] if m[0].startswith("ampform.sympy._cache")]
        if muted:
            ctx.event("silent")
            ctx.require(not library, "not-muted", "decay warns although muted", seen=library)
            ctx.require(not cache, "not-muted", "cache logs although muted", seen=cache)
        else:
            ctx.event("announced")
            ctx.require(
                bool(library), "not-announced", "a sub-decay without chains is not announced",
            )
        ctx.event("others")
        for key in ("others", "other-log"):
            ctx.require(
                r[key] == plain[key], "others-muted", f"{mode}: messages of others are affected",
                observed=r[key], expected=plain[key],
            )
        ctx.require(
            ["mine", "UserWarning"] in r["others"] and "mine" in r["other-log"],
            "others-muted", f"{mode}: messages of the user do not arrive", observed=r["others"],
        )
        ctx.require(
            r["settings"] == {"shown": ["shown"], "exploded": True}, "settings",
            f"{mode}: filters or handlers of the user are not in force", observed=r["settings"],
        )
        ctx.require(
            r["other-log"].count("detail") == 3, "others-muted", f"{mode}: debug records are lost",
        )
        for key in ("digest", "value", "unfold", "empty"):
            ctx.require(
                r[key] == plain[key], "results", f"{mode} changes the result {key}",
                observed=str(r[key])[:200], expected=str(plain[key])[:200],
            )
        ctx.event("rendering")
        for key, same in r["unchanged"].items():
            ctx.require(same, "rendering", f"{mode} changes {key} of other expressions")
        if mode in {"simplify", "both"}:
            ctx.require(
                r["indexed"] == r["expected-indexed"], "indexed",
                "not all indices are shown in one subscript",
                observed=r["indexed"], expected=r["expected-indexed"],
            )
        else:
            ctx.require(
                r["indexed"] == plain["indexed"], "indexed", "muting changes rendering"
            )
    ctx.require(plain["empty"], "empty", "sub-decay of an absent subsystem has chains")
    ctx.require(
        abs(plain["value"] - (2.0 * (3 + ctx.idx) + 1.5)) < 1e-12, "value", "wrong value"
    )
