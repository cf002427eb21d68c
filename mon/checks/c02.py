"""Alignment angles against SL(2,C) Wigner rotations of explicitly boosted frames."""

from __future__ import annotations

from itertools import product

import numpy as np

from mon import gen, ref
from mon import model as M
from mon.evalx import Evaluator

ID = "C02"
RULE = (
    "A case is one random mass configuration with 16 phase-space points; all 36"
    " (particle, subsystem, reference) alignment angles are evaluated and compared"
    " modulo 4π with the rotation obtained from composing boosts and rotations in"
    " SL(2,C), plus antisymmetry, additivity and the angles used by a built model."
    " Distinct: one (particle, subsystem, reference, mass configuration)."
)
REQUIRED = {"zeta": 500, "additivity": 500, "theta-hat": 100, "model-zeta": 20}
CHUNK = 2


def cases(tier):
    return 120 if tier == "quick" else 600


def flip(i, k) -> int:
    """Sign of the SU(2) frame of particle i in chain k in the DPD convention."""
    return -1 if (i, k) in {(2, 3), (3, 2)} else 1


def same_rotation(ctx, mechanism, a, b, atol, **data):
    """Judge equality modulo 4π through spin-1/2 rotation matrices."""
    ctx.close(mechanism, np.cos(a / 2), np.cos(b / 2), rtol=0, atol=atol, **data)
    ctx.close(mechanism, np.sin(a / 2), np.sin(b / 2), rtol=0, atol=atol, **data)


def run(ctx):
    from ampform_dpd.angles import formulate_theta_hat_angle, formulate_zeta_angle

    rng = ctx.rng
    masses = gen.random_masses(rng)
    atol = 1e-2 if min(masses) < 1e-2 else 2e-5
    kin = ref.random_kinematics(rng, masses[0], masses[1:], 16)
    ctx.info = {"masses": masses}
    ev = Evaluator(kin.symbols())
    zeta = {}
    for i, k, r in product((0, 1, 2, 3), (1, 2, 3), (1, 2, 3)):
        symbol, expr = formulate_zeta_angle(i, k, r)
        zeta[i, k, r] = np.real(ev(expr)) * np.ones(kin.n)
        ctx.event("zeta")
        ctx.distinct(i, k, r, masses)
        ctx.require(
            symbol.name == Rf"\zeta^{i}_{{{k}({r})}}", "zeta-symbol", f"{symbol}"
        )
        if k == r:
            ctx.require(expr == 0, "aligned-is-zero", f"ζ^{i}_{k}({r}) = {expr}")
        sign = 1 if i == 0 else flip(i, k) * flip(i, r)
        w = kin.wigner_rotation(i, k, r)
        w = w if sign == 1 else w + 2 * np.pi
        same_rotation(
            ctx, "wigner-rotation", zeta[i, k, r], w, atol, angle=[i, k, r], sign=sign
        )
    for i, k in product((1, 2, 3), (1, 2, 3)):
        symbol, expr = formulate_zeta_angle(i, k, 0)
        ctx.event("zeta")
        obs = np.real(ev(expr)) * np.ones(kin.n)
        ctx.require(symbol.name == Rf"\zeta^{i}_{{{k}(0)}}", "zeta-symbol", f"{symbol}")
        same_rotation(ctx, "reference-0", obs, zeta[i, k, i], 1e-9, angle=[i, k, 0])
    for i, k, r in product((0, 1, 2, 3), (1, 2, 3), (1, 2, 3)):
        same_rotation(
            ctx, "antisymmetry", zeta[i, k, r], -zeta[i, r, k], 1e-9, angle=[i, k, r]
        )
        for q in (1, 2, 3):
            ctx.event("additivity")
            total = zeta[i, k, r] + zeta[i, r, q]
            same_rotation(
                ctx, "additivity", total, zeta[i, k, q], atol, angle=[i, k, r, q]
            )
    ctx.sample({
        "masses": masses,
        "zeta^1_2(3)": zeta[1, 2, 3][:3].tolist(),
        "zeta^0_2(3)": zeta[0, 2, 3][:3].tolist(),
    })
    for k, r in product((1, 2, 3), (1, 2, 3)):
        symbol, expr = formulate_theta_hat_angle(k, r)
        ctx.event("theta-hat")
        obs = np.real(ev(expr)) * np.ones(kin.n)
        opening = ref.angle_between(kin.p[k][1:], kin.p[r][1:])
        sign = 0 if k == r else 1 if (k, r) in {(3, 1), (1, 2), (2, 3)} else -1
        ctx.require(
            symbol.name == Rf"\hat\theta_{k}({r})", "theta-hat-symbol", f"{symbol}"
        )
        ctx.close("theta-hat", obs, sign * opening, rtol=0, atol=1e-4, angle=[k, r])
    spec = gen.random_decay(rng, masses=masses)
    r = int(rng.choice(spec.subsystems))
    model = M.formulate(M.make_builder(spec), r)
    defined = {s.name: e for s, e in model.variables.items()}
    for i, k in product((0, 1, 2, 3), spec.subsystems):
        if spec.spins[i] == 0:
            continue
        ctx.event("model-zeta")
        name = Rf"\zeta^{i}_{{{k}({r})}}"
        if ctx.require(name in defined, "model-zeta-missing", f"{name} is not defined"):
            obs = np.real(ev(defined[name])) * np.ones(kin.n)
            same_rotation(ctx, "model-zeta", obs, zeta[i, k, r], 1e-9, angle=[i, k, r])
    if ctx.idx < 4:
        for k in (-1, 0, 4):
            ctx.raises("theta-hat-rejection", (ValueError,), formulate_theta_hat_angle, k, 1)
            ctx.raises("theta-hat-rejection", (ValueError,), formulate_theta_hat_angle, 1, k)
        numbers = range(-1, 6)
        allowed = set(product((0, 1, 2, 3), (1, 2, 3), (1, 2, 3)))
        allowed |= set(product((0, 1, 2, 3), (0, 1, 2, 3), (0,)))  # special reference
        for bad in sorted(set(product(numbers, numbers, numbers)) - allowed):
            ctx.raises(
                "zeta-rejection",
                (NotImplementedError, ValueError),
                formulate_zeta_angle,
                *bad,
            )
