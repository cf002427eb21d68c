"""One coefficient per chain against separate couplings."""

from __future__ import annotations

import sympy as sp

from mon import gen, ref
from mon import model as M
from mon.evalx import indexed_key
from mon.ref import IJ, fr

ID = "C07"
RULE = (
    "A case is one random decay in one of the four basis combinations, formulated with"
    " separate couplings and with single coefficients; coefficients are set to products"
    " of the couplings and to independent random values. Distinct: (spins, chains,"
    " basis)."
)
REQUIRED = {"compared": 40, "coefficient": 100, "independent": 40}
SPINS = gen.SPIN_SETS


def cases(tier):
    return 200 if tier == "quick" else 1000


def run(ctx):
    rng = ctx.rng
    spins = SPINS[ctx.idx % len(SPINS)]
    min_ls = [True, False, (True, False), (False, True)][ctx.idx % 4]
    prod_hel, dec_hel = (min_ls, min_ls) if isinstance(min_ls, bool) else min_ls
    spec = gen.random_decay(rng, spins, shared_names=min_ls is False, cross_names=True,
                            unknown_parity=True)
    if gen.drop_ls(rng, spec, min_ls):
        ctx.event("without-ls")
    reference = int(rng.choice(spec.subsystems))
    ctx.info = {"decay": spec.describe(), "min_ls": min_ls}
    ctx.sample(ctx.info)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 6)
    builder = M.make_builder(spec, min_ls=min_ls)
    separate = M.formulate(builder, reference)
    single = M.formulate(builder, reference, use_coefficients=True)
    names = {c.latex for c in spec.chains}

    def owner(label):
        name = max((n for n in names if n in label), key=len)
        return name

    prod_label = r"\mathcal{H}^\mathrm{%sproduction}" % ("" if prod_hel else "LS,")
    dec_label = r"\mathcal{H}^\mathrm{%sdecay}" % ("" if dec_hel else "LS,")

    def products(label, indices):
        name = owner(label)
        a, b, c, d = indices
        return M.coupling_value(prod_label, (name, a, b)) * M.coupling_value(
            dec_label, (name, c, d)
        )

    rtol = M.tolerance(spec)
    exp = M.intensity(separate, kin)
    ev = M.evaluator(single, kin, couplings=products)
    ctx.event("compared")
    ctx.distinct(spec.key(), min_ls)
    ctx.close("coefficient-is-product", ev(single.intensity), exp, rtol=rtol, atol=1e-12)

    # generic coefficients against the reference implementation
    def generic(label, indices):
        return M.pseudo_complex("generic", owner(label), indices)

    def amplitude(k, lam):
        i, j = IJ[k]
        total = 0
        for c in spec.chains:
            if c.spectator != k:
                continue
            unit = lambda *a: 1.0  # noqa: E731
            hp, hd = M.h_functions(spec, c, min_ls, couplings=unit)
            lr = lam[0] + lam[k]
            a = (lr, lam[k]) if prod_hel else (fr(c.prod_ls[0]), fr(c.prod_ls[1]))
            b = (lam[i], lam[j]) if dec_hel else (fr(c.dec_ls[0]), fr(c.dec_ls[1]))
            coef = M.pseudo_complex("generic", c.latex, (*a, *b))
            total = total + coef * ref.chain_amplitude(
                kin, k, spec.spins, c.spin, lam, hp, hd, M.toy_value(c, kin)
            )
        return total

    ev = M.evaluator(single, kin, couplings=generic)
    for (label, indices), expr in ev.amplitudes.items():
        ctx.event("independent")
        ctx.close(
            "independent-coefficients", ev(expr), amplitude(int(label[-1]), indices),
            rtol=rtol, atol=1e-9,
        )
    exp = ref.total_intensity(kin, spec.spins, amplitude, spec.subsystems, reference)
    ctx.close("independent-intensity", ev(single.intensity), exp, rtol=rtol, atol=1e-12)

    # exactly one complex default per coefficient, none of the separate couplings
    indexed = {
        indexed_key(s): v
        for s, v in single.parameter_defaults.items()
        if isinstance(s, sp.Indexed)
    }
    for key, value in indexed.items():
        ctx.event("coefficient")
        ctx.require(value == 1, "coefficient-default", f"{key} defaults to {value}")
        ctx.require(
            len(key[1]) == 4 and any(n in key[0] for n in names), "coefficient-form",
            f"{key} is not a coefficient of one chain",
        )
    expected = set()
    for c in spec.chains:
        i, j = IJ[c.spectator]
        for lam in gen.helicity_combinations(spec):
            lr = lam[0] + lam[c.spectator]
            if abs(lr) > c.spin:
                continue
            a = (lr, lam[c.spectator]) if prod_hel else tuple(map(fr, c.prod_ls))
            b = (lam[i], lam[j]) if dec_hel else tuple(map(fr, c.dec_ls))
            expected.add((c.latex, *a, *b))
    got = {(owner(label), *indices) for label, indices in indexed}
    ctx.require(
        got == expected, "coefficient-set",
        f"missing {list(expected - got)[:3]}, unexpected {list(got - expected)[:3]}",
    )
