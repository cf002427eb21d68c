"""Scattering angles against four-vectors."""

from __future__ import annotations

import numpy as np

from mon import gen, ref
from mon import model as M
from mon.evalx import Evaluator

ID = "C01"
RULE = (
    "A case is one random mass configuration (equal, massless, near-threshold masses"
    " included) with 24 phase-space points, of which 4 lie close to the Dalitz border;"
    " the three angle formulas and the angle definitions of a built model are evaluated"
    " on it and compared to angles between explicitly boosted four-vectors. Distinct:"
    " one (angle, mass configuration) pair."
)
REQUIRED = {"angle": 100, "model-angle": 20, "rejections": 20}
CHUNK = 8


def cases(tier):
    return 240 if tier == "quick" else 1500


def run(ctx):
    from ampform_dpd.angles import formulate_scattering_angle

    rng = ctx.rng
    masses = gen.random_masses(rng)
    kin = ref.random_kinematics(rng, masses[0], masses[1:], 24)
    ctx.info = {"masses": masses}
    for i, j in ref.IJ.values():
        symbol, expr = formulate_scattering_angle(i, j)
        obs = Evaluator(kin.symbols())(expr)
        exp = kin.scattering_angle(i, j)
        ctx.event("angle")
        ctx.distinct(i, j, masses)
        ctx.require(
            symbol.name == f"theta_{i}{j}", "angle-symbol", f"symbol for θ{i}{j} is {symbol}"
        )
        # compare cosines and, away from the poles of acos, the angle itself
        ctx.close("cos", np.cos(obs), np.cos(exp), rtol=0, atol=5e-5, pair=[i, j])
        ctx.close("angle", obs, exp, rtol=0, atol=2e-4, pair=[i, j])
        ctx.sample({"masses": masses, "pair": [i, j], "angle": obs[:3].tolist()})
    spec = gen.random_decay(rng, masses=masses)
    model = M.formulate(M.make_builder(spec, min_ls=bool(rng.integers(2))))
    defined = {s.name: e for s, e in model.variables.items()}
    for k in spec.subsystems:
        i, j = ref.IJ[k]
        ctx.event("model-angle")
        if ctx.require(
            f"theta_{i}{j}" in defined, "model-angle-missing", f"θ{i}{j} is not defined"
        ):
            obs = Evaluator(kin.symbols())(defined[f"theta_{i}{j}"])
            exp = kin.scattering_angle(i, j)
            ctx.close("model-angle", obs, exp, rtol=0, atol=5e-5, pair=[i, j])
    if ctx.idx < 8:
        for i in range(-1, 6):
            for j in range(-1, 6):
                if not {i, j} <= {1, 2, 3} or i == j:
                    ctx.raises(
                        "angle-rejection", (ValueError,), formulate_scattering_angle, i, j
                    )
    # pairs in anti-cyclic order are either refused or have to be right as well
    for j, i in ref.IJ.values():
        try:
            _, expr = formulate_scattering_angle(i, j)
        except NotImplementedError:
            continue
        ctx.event("reversed-angle")
        obs = Evaluator(kin.symbols())(expr)
        ctx.close(
            "reversed-angle", np.cos(obs), np.cos(kin.scattering_angle(i, j)),
            rtol=0, atol=5e-5, pair=[i, j],
        )
