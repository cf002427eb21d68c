"""LS basis against helicity basis through Jacob-Wick recoupling."""

from __future__ import annotations

import dataclasses

from mon import gen, ref
from mon import model as M
from mon.ref import IJ, fr

ID = "C06"
RULE = (
    "A case is one random decay of which every resonance carries a grid of LS couplings"
    " on production and decay; it is formulated in the LS basis (both nodes or one of"
    " them) and in the helicity basis, whose couplings are set to the recoupled sums, and"
    " amplitudes and intensities are compared on 6 phase-space points. Distinct: (spins,"
    " chains, basis); non-trivial: at least one node has two or more LS couplings or a"
    " spin."
)
REQUIRED = {"compared": 40, "amplitude": 300, "multi-ls": 10}
SPINS = gen.SPIN_SETS + gen.BIG_SPIN_SETS


def cases(tier):
    return 160 if tier == "quick" else 1000


def run(ctx):
    rng = ctx.rng
    pool = SPINS if ctx.tier == "thorough" else SPINS[: len(gen.SPIN_SETS) + 3]
    spins = pool[ctx.idx % len(pool)]
    min_ls = [False, (True, False), (False, True)][ctx.idx % 3]
    prod_ls, dec_ls = (True, True) if min_ls is False else tuple(not b for b in min_ls)
    base = gen.random_decay(rng, spins, max_chains=1 if spins in gen.BIG_SPIN_SETS else 2)
    hel_spec = dataclasses.replace(base, chains=list(base.chains))
    chains = []
    grid = {}
    for c in base.chains:
        i, j = IJ[c.spectator]
        sp = base.spins
        prod = ref.ls_list(sp[0], c.spin, sp[c.spectator])
        dec = ref.ls_list(c.spin, sp[i], sp[j])
        n_prod = min(len(prod), int(rng.integers(1, 4))) if prod_ls else 1
        n_dec = min(len(dec), int(rng.integers(1, 4))) if dec_ls else 1
        prod = [prod[x] for x in rng.choice(len(prod), n_prod, replace=False)]
        dec = [dec[x] for x in rng.choice(len(dec), n_dec, replace=False)]
        grid[c.latex] = (c, prod, dec)
        ctx.event("multi-ls", len(prod) * len(dec) > 1)
        chains += [
            dataclasses.replace(c, prod_ls=a, dec_ls=b) for a in prod for b in dec
        ]
    ls_spec = dataclasses.replace(base, chains=chains)
    ctx.info = {"decay": ls_spec.describe(), "min_ls": min_ls}
    ctx.sample(ctx.info)

    def recoupled(label, indices):
        latex, l1, l2 = indices
        c, prod, dec = grid[latex]
        k = c.spectator
        i, j = IJ[k]
        production = "production" in label
        if production and not prod_ls:
            return M.coupling_value(label, indices)
        if not production and not dec_ls:
            return M.coupling_value(label, indices)
        total = 0j
        for el, s in prod if production else dec:
            h = M.coupling_value(
                r"\mathcal{H}^\mathrm{LS,%s}" % ("production" if production else "decay"),
                (latex, fr(el), fr(s)),
            )
            if production:
                j0 = base.spins[0]
                swap = ref.sign(el + s - j0) if c.swap_prod else 1
                total += h * swap * ref.ls_to_helicity(
                    el, s, j0, c.spin, l1, base.spins[k], l2
                )
            else:
                swap = ref.sign(el + s - c.spin) if c.swap_dec else 1
                total += h * swap * ref.ls_to_helicity(
                    el, s, c.spin, base.spins[i], l1, base.spins[j], l2
                )
        return total

    reference = int(rng.choice(base.subsystems))
    kin = ref.random_kinematics(rng, base.masses[0], base.masses[1:], 6)
    ls_model = M.formulate(M.make_builder(ls_spec, min_ls=min_ls), reference)
    hel_model = M.formulate(M.make_builder(hel_spec, min_ls=True), reference)
    ev_ls = M.evaluator(ls_model, kin)
    ev_hel = M.evaluator(hel_model, kin, couplings=recoupled)
    rtol = M.tolerance(base)
    for key, expr in ev_ls.amplitudes.items():
        ctx.event("amplitude")
        ctx.close(
            "recoupled-amplitude", ev_ls(expr), ev_hel(ev_hel.amplitudes[key]),
            rtol=rtol, atol=1e-9, amplitude=key,
        )
    ctx.event("compared")
    ctx.close(
        "recoupled-intensity", ev_ls(ls_model.intensity), ev_hel(hel_model.intensity),
        rtol=rtol, atol=1e-12,
    )
    ctx.distinct(ls_spec.key(), min_ls)
    # every coupling of the LS model belongs to a chain of the decay
    for label, indices in ev_ls.used_couplings:
        if "LS" not in label:
            continue
        c, prod, dec = grid[indices[0]]
        allowed = prod if "production" in label else dec
        ctx.require(
            (int(indices[1]), indices[2]) in [(el, s) for el, s in allowed],
            "foreign-coupling", f"{label}{list(map(str, indices))}",
        )
