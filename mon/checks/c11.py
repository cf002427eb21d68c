"""Relabelling final states."""

from __future__ import annotations

import dataclasses
from itertools import permutations, product

import numpy as np

from mon import gen, ref
from mon import model as M
from mon.ref import IJ

ID = "C11"
RULE = (
    "A case is one random decay in the LS basis; its final-state labels are permuted in"
    " all six ways (with the children kept as they are, so only labels change) and the"
    " intensity of the relabelled model on relabelled invariants is compared up to one"
    " sign per chain; the intensity of each subsystem alone has to agree exactly.  Decays"
    " with several chains per subsystem are relabelled cyclically only, because the order"
    " of the decay products sets the sign convention of a chain."
    " Distinct: (spins, chains, permutation)."
)
REQUIRED = {"relabelled": 100, "single-subsystem": 300, "generic": 30}


class Relabelled(ref.Kinematics):
    """Same events with other labels: only invariants and masses are used."""

    def __init__(self, kin, perm):
        self.m0 = kin.m0
        self.m = {0: kin.m0, **{perm[i]: kin.m[i] for i in (1, 2, 3)}}
        self.sigma = {perm[k]: kin.sigma[k] for k in (1, 2, 3)}


def cases(tier):
    return 40 if tier == "quick" else 600


def relabel(spec, perm):
    inv = {v: k for k, v in perm.items()}
    pick = lambda t: (t[0], *(t[inv[i]] for i in (1, 2, 3)))  # noqa: E731
    chains = []
    for c in spec.chains:
        i, j = IJ[c.spectator]
        first, second = (j, i) if c.swap_dec else (i, j)
        k = perm[c.spectator]
        swap = (perm[first], perm[second]) != IJ[k]
        chains.append(dataclasses.replace(c, spectator=k, swap_dec=swap))
    return dataclasses.replace(
        spec,
        spins=pick(spec.spins), masses=pick(spec.masses), parities=pick(spec.parities),
        names=pick(spec.names), latex=pick(spec.latex), chains=chains,
    )


def run(ctx):
    rng = ctx.rng
    spins = gen.SPIN_SETS[ctx.idx % len(gen.SPIN_SETS)]
    cyclic = ctx.idx % 3 == 0
    spec = gen.random_decay(
        rng, spins, subsystems=[1, 2, 3], max_chains=3 if cyclic else 1
    )
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 6)
    ctx.info = {"decay": spec.describe()}
    ctx.sample(ctx.info)
    rtol = M.tolerance(spec)

    def intensities(a_spec, a_kin, rename):
        """Total intensity for each sign pattern, keyed by original subsystem."""
        builder = M.make_builder(a_spec, min_ls=False)
        model = M.formulate(builder, rename[1])
        owner = {c.latex: c.spectator for c in a_spec.chains}
        out = {}
        for pattern in [*product([1], [1, -1], [1, -1]), (1, 0, 0), (0, 1, 0), (0, 0, 1)]:
            weight = {rename[k]: pattern[k - 1] for k in (1, 2, 3)}

            def couplings(label, indices, weight=weight):
                value = M.coupling_value(label, indices)
                if "production" in label:
                    value *= weight[owner[indices[0]]]
                return value

            out[pattern] = M.intensity(model, a_kin, couplings=couplings)
        return out

    base = intensities(spec, kin, {1: 1, 2: 2, 3: 3})
    scale = float(np.max(np.abs(base[1, 1, 1])))
    spread = max(
        float(np.max(np.abs(base[p] - base[1, 1, 1]))) for p in product([1], [1, -1], [1, -1])
    )
    ctx.event("generic", spread > 1e-3 * scale)
    for image in permutations((1, 2, 3)):
        perm = dict(zip((1, 2, 3), image))
        if image == (1, 2, 3) or (cyclic and image not in {(2, 3, 1), (3, 1, 2)}):
            continue
        other = relabel(spec, perm)
        got = intensities(other, Relabelled(kin, perm), perm)
        ctx.event("relabelled")
        ctx.distinct(spec.key(), image)
        for single in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
            ctx.event("single-subsystem")
            ctx.close(
                "relabelled-subsystem", got[single], base[single], rtol=rtol, atol=1e-12,
                permutation=image, subsystem=single,
            )
        signs = [
            p
            for p in product([1], [1, -1], [1, -1])
            if ctx.agrees("relabelled", got[1, 1, 1], base[p], rtol=rtol, atol=1e-12)
        ]
        ctx.max_deviation.pop("relabelled", None)
        ctx.require(
            bool(signs), "relabelled-intensity",
            "no choice of signs of chains makes the relabelled intensity agree",
            permutation=image, observed=got[1, 1, 1], expected=base[1, 1, 1],
        )
