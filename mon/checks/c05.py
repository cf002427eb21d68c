"""Complete model against the helicity formalism with explicit frames."""

from __future__ import annotations

import numpy as np

from mon import gen, ref
from mon import model as M

ID = "C05"
RULE = (
    "A case is one random decay (spins from a fixed list covering every fermion/boson"
    " assignment up to spin 3, several resonances, child orders, basis choices, massless"
    " and degenerate masses, random complex couplings) with 8 phase-space points; the"
    " intensity of the returned model and every subsystem amplitude are compared with an"
    " independent implementation that aligns spin frames by SL(2,C) matrices. Distinct:"
    " (spins, chains, basis, reference)."
    " Models of single subsystems are judged as well; decays with spins up to 1 in total"
    " have up to 8 chains per subsystem and resonance spins up to 11/2 now and then."
)
REQUIRED = {"intensity": 30, "without-ls": 8, "amplitude": 500, "interfering": 20,
    "subsystem-model": 30}
SPINS = gen.SPIN_SETS + gen.BIG_SPIN_SETS


def cases(tier):
    return 160 if tier == "quick" else 1200


def run(ctx):
    rng = ctx.rng
    pool = SPINS if ctx.tier == "thorough" else SPINS[: len(gen.SPIN_SETS) + 6]
    spins = pool[ctx.idx % len(pool)]
    big = spins in gen.BIG_SPIN_SETS
    spec = gen.random_decay(
        rng, spins, max_chains=1 if big else 3, shared_names=True,
        cross_names=True, unknown_parity=True,
        max_spin=gen.F(9, 2) if big and rng.uniform() < 0.5 else gen.F(5, 2),
    )
    min_ls = [True, False, (True, False), (False, True)][(ctx.idx // 3) % 4]
    if min_ls is not False:  # helicity couplings would be shared
        seen = set()
        spec.chains = [
            c for c in spec.chains
            if not ((c.name, c.spectator) in seen or seen.add((c.name, c.spectator)))
        ]
    if gen.drop_ls(rng, spec, min_ls):
        ctx.event("without-ls")
    reference = int(rng.choice(spec.subsystems))
    ctx.info = {"decay": spec.describe(), "min_ls": min_ls, "reference": reference}
    ctx.sample(ctx.info)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 8)
    model = M.formulate(M.make_builder(spec, min_ls=min_ls), reference)
    ev = M.evaluator(model, kin)
    amplitude = M.reference_amplitude(spec, kin, min_ls)
    rtol = M.tolerance(spec)
    for (label, indices), expr in ev.amplitudes.items():
        k = int(label[-1])
        exp = amplitude(k, indices)
        ctx.event("amplitude")
        ctx.close("chain-amplitude", ev(expr), exp, rtol=rtol, atol=1e-9, index=[k, *indices])
    # the amplitude of one subsystem is a model of its own
    combinations = gen.helicity_combinations(spec)
    k = int(rng.choice(spec.subsystems))
    lam = combinations[int(rng.integers(len(combinations)))]
    part = M.make_builder(spec, min_ls=min_ls).formulate_subsystem_amplitude(
        *map(gen.rational, lam), k
    )
    exp = np.abs(amplitude(k, lam)) ** 2
    ctx.event("subsystem-model")
    ctx.close(
        "subsystem-intensity", M.intensity(part, kin), exp, rtol=rtol, atol=1e-9,
        index=[k, *lam],
    )
    exp = ref.total_intensity(kin, spec.spins, amplitude, spec.subsystems, reference)
    ctx.event("intensity")
    ctx.close(
        "intensity", ev(model.intensity), exp, rtol=rtol, atol=1e-12
    )
    ctx.distinct(spec.key(), min_ls, reference)
    ctx.event("interfering", len(spec.subsystems) > 1)
    expected = {
        (k, lam) for k in spec.subsystems for lam in gen.helicity_combinations(spec)
    }
    got = {(int(label[-1]), indices) for label, indices in ev.amplitudes}
    ctx.require(
        got == expected, "amplitude-set",
        f"{len(expected - got)} amplitudes missing, {len(got - expected)} unexpected",
    )
