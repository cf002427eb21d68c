"""Independence of the reference subsystem."""

from __future__ import annotations

import warnings

import numpy as np
import sympy as sp

from mon import gen, ref
from mon import model as M

ID = "C04"
RULE = (
    "A case is one random decay (spin assignment taken from a fixed list so that every"
    " fermion/boson assignment occurs, random resonances, basis, masses, couplings) with"
    " 8 phase-space points; the model is formulated for the default and all three"
    " reference subsystems and the intensities are compared point by point. Distinct:"
    " (spins, subsystems, chains, basis); non-trivial: at least two subsystems interfere."
    " The aligned amplitudes are compared too, and warnings are collected for every"
    " reference."
)
REFUSALS = (ValueError, TypeError, KeyError, NotImplementedError)
REQUIRED = {"model": 100, "aligned": 40, "compared": 80, "warned": 5, "interfering": 20}
SPINS = gen.SPIN_SETS + gen.BIG_SPIN_SETS


def cases(tier):
    return 48 if tier == "quick" else 800


def run(ctx):
    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.decay import ThreeBodyDecay

    rng = ctx.rng
    pool = SPINS if ctx.tier == "thorough" else SPINS[: len(gen.SPIN_SETS) + 3]
    spins = pool[ctx.idx % len(pool)]
    subsystems = [[1, 2, 3], [1, 2, 3], [1, 2], [2, 3], [1, 3], [2]][ctx.idx % 6]
    spec = gen.random_decay(
        rng, spins, subsystems=subsystems, max_chains=2, cross_names=True,
        unknown_parity=True,
    )
    min_ls = [True, False, (True, False), (False, True)][int(rng.integers(4))]
    gen.drop_ls(rng, spec, min_ls)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 8)
    builder = M.make_builder(spec, min_ls=min_ls)
    ctx.info = {"decay": spec.describe(), "min_ls": min_ls}
    ctx.sample({**ctx.info, "spins": list(map(str, spec.spins))})
    models = {}
    for r in (1, 2, 3):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            models[r] = builder.formulate(reference_subsystem=r)
        ctx.event("model")
        warned = any("reference" in str(w.message) for w in caught)
        ctx.event("warned", warned)
        ctx.require(
            warned == (r not in spec.subsystems), "reference-warning",
            f"reference {r} for subsystems {spec.subsystems}: warned={warned}",
        )
    values = {r: M.intensity(m, kin) for r, m in models.items()}
    rtol = M.tolerance(spec)
    for r in (1, 2, 3):
        ctx.event("compared")
        ctx.close(
            "reference-dependence", values[r], values[spec.subsystems[0]], rtol=rtol,
            atol=0, references=[r, spec.subsystems[0]],
        )
    if len(spec.subsystems) > 1:
        ctx.event("interfering")
        ctx.distinct(spec.key(), min_ls)
    counts = {k: sum(c.spectator == k for c in spec.chains) for k in spec.subsystems}
    best = [k for k, n in counts.items() if n == max(counts.values())]
    default = builder.formulate()
    ctx.event("model")
    ctx.require(
        any(default.intensity == models[k].intensity for k in best), "default-reference",
        f"default reference is not a subsystem with most chains {counts}",
    )
    ctx.close(
        "reference-dependence", M.intensity(default, kin), values[best[0]], rtol=rtol, atol=0
    )
    # the aligned amplitude on its own
    helicities = sp.symbols("lambda:4", rational=True)
    aligned, angles = builder.formulate_aligned_amplitude(*helicities)
    ctx.event("aligned")
    ctx.require(
        any(
            (aligned, angles) == builder.formulate_aligned_amplitude(*helicities, k)
            for k in best
        ),
        "default-reference", f"default of the aligned amplitude is not one of {best}",
    )
    for r in (1, 2, 3):
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            aligned, angles = builder.formulate_aligned_amplitude(*helicities, r)
        warned = any("reference" in str(w.message) for w in caught)
        ctx.require(
            warned == (r not in spec.subsystems), "reference-warning",
            f"aligned amplitude with reference {r} for {spec.subsystems}: {warned=}",
        )
        total = 0
        model = models[r]
        ctx.require(
            all(model.variables.get(s) == v for s, v in angles.items()),
            "aligned-angles", "angles of the aligned amplitude are not those of the model",
        )
        combinations = gen.helicity_combinations(spec)
        if r != 1 + ctx.idx % 3 or len(combinations) > 12:
            continue  # substitution in SymPy is slow
        for combination in combinations:
            ev = M.evaluator(model, kin)
            fixed = dict(zip(helicities, map(gen.rational, combination)))
            total = total + np.abs(ev(aligned.xreplace(fixed))) ** 2
        ctx.close("aligned-amplitude", total, values[r], rtol=1e-9, atol=0, reference=r)
    for impossible in (0, 4, -1, "1"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.raises("impossible-reference", REFUSALS, builder.formulate, impossible)
            ctx.raises(
                "impossible-reference", REFUSALS, builder.formulate_aligned_amplitude,
                *helicities, impossible,
            )
    if ctx.idx % 4 == 0:
        empty = ThreeBodyDecay(gen.build_states(spec), ())
        broken = DalitzPlotDecompositionBuilder(empty)
        ctx.raises("no-subsystems", (ValueError,), broken.formulate)
        ctx.raises(
            "no-subsystems", (ValueError,), broken.formulate_aligned_amplitude, *helicities
        )
    ctx.require(bool(np.all(values[1].real >= 0)), "negative", "negative intensity")
