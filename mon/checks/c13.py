"""Breit-Wigner builder over all option combinations."""

from __future__ import annotations

from itertools import product

from mon import gen, ref
from mon.checks.c12 import custom_phsp, custom_rho
from mon.evalx import Evaluator

ID = "C13"
RULE = (
    "A case is one random decay with LS couplings; for each of its chains the builder is"
    " called with all eight option combinations and two phase-space factors, evaluated on"
    " 8 phase-space points with random radii, and compared with the product of factors"
    " that the options ask for; parameters are compared with the particles. Distinct:"
    " (chain, options)."
)
REQUIRED = {"dynamics": 500, "parameter": 2000, "rejections": 40}
CHUNK = 2
SQUARED = "decay-form-factor-at-squared-invariant"


def cases(tier):
    return 120 if tier == "quick" else 800


def run(ctx):
    import dataclasses

    from ampform_dpd.dynamics import builder as bld

    rng = ctx.rng
    spins = gen.SPIN_SETS[int(rng.integers(len(gen.SPIN_SETS)))]
    spec = gen.random_decay(rng, spins, massless=ctx.idx % 4 == 0,
                            max_l=9 if ctx.idx % 5 == 2 else 5, unknown_parity=True)
    for c in spec.chains:
        i, j = ref.IJ[c.spectator]
        lo = spec.masses[i] + spec.masses[j]
        c.mass = lo + (spec.masses[0] - spec.masses[c.spectator] - lo) * rng.uniform(0.3, 0.9)
    decay = gen.build_decay(spec)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 8, edge=False)
    ctx.info = {"decay": spec.describe()}
    ctx.sample(ctx.info)
    for c, chain in zip(spec.chains, decay.chains):
        k = c.spectator
        i, j = ref.IJ[k]
        s = kin.sigma[k]
        mi, mj, mk = (spec.masses[x] for x in (i, j, k))
        r_res, r_prod = (float(x) for x in rng.uniform(0.5, 5, 2))
        node_s = bld.get_mandelstam_s(chain.decay_node)
        ctx.require(node_s.name == f"sigma{k}", "invariant", f"{node_s} for spectator {k}")
        for flags, phsp in product(product((True, False), repeat=3), (None, custom_phsp)):
            width_dep, dec_ff, prod_ff = flags
            kwargs = {} if phsp is None else {"phsp_factor": phsp}
            builder = bld.BreitWignerBuilder(
                energy_dependent_width=width_dep,
                decay_form_factor=dec_ff,
                production_form_factor=prod_ff,
                **kwargs,
            )
            result = builder(chain)
            ctx.event("dynamics")
            ctx.distinct(spec.key(), c.latex, c.prod_ls, c.dec_ls, flags, phsp is None)
            values = dict(kin.symbols())
            expected = {
                "m0": spec.masses[0], f"m{i}": mi, f"m{j}": mj, f"m{k}": mk,
                f"m_{{{c.latex}}}": c.mass, rf"\Gamma_{{{c.latex}}}": c.width,
                r"R_\mathrm{res}": 1, f"R_{{{spec.latex[0]}}}": 1,
            }
            for symbol, value in result.parameters.items():
                ctx.event("parameter")
                name = symbol.name
                ctx.require(
                    name in expected and expected[name] == value, "parameter",
                    f"parameter {name} = {value}", flags=flags,
                )
                values[name] = float(value)
            declared = set(result.parameters) | {node_s}
            missing = {
                x for x in result.expression.free_symbols - declared
                if not (x.name.startswith("sigma") or x.name in {"m0", "m1", "m2", "m3"})
            }
            ctx.require(not missing, "undeclared", f"{missing} without default")
            values[r"R_\mathrm{res}"] = r_res
            values[f"R_{{{spec.latex[0]}}}"] = r_prod
            obs = Evaluator(values)(result.expression)
            l_dec, l_prod = c.dec_ls[0], c.prod_ls[0]
            rho = ref.phase_space if phsp is None else custom_rho
            if width_dep:
                width = ref.energy_dependent_width(
                    s, c.mass, c.width, mi, mj, l_dec, r_res, rho
                )
                exp = c.mass * c.width / (c.mass**2 - s - 1j * c.mass * width)
            else:
                exp = 1 / (c.mass**2 - s - 1j * c.mass * c.width)
            if prod_ff:  # at the nominal mass of the resonance
                exp = exp * ref.form_factor(
                    l_prod, r_prod, spec.masses[0] ** 2, c.mass, mk
                )
            _judge(ctx, obs, exp, c, s, mi, mj, r_res, flags)
            # results are the caller's: changing one leaves the next one alone
            first = (result.expression, dict(result.parameters))
            result.parameters.clear()
            for b in (builder, bld.BreitWignerBuilder(
                energy_dependent_width=width_dep, decay_form_factor=dec_ff,
                production_form_factor=prod_ff, **kwargs,
            )):
                again = b(chain)
                ctx.require(
                    (again.expression, dict(again.parameters)) == first, "repeat",
                    "another call gives another result", flags=flags,
                )
    full = bld.formulate_breit_wigner_with_form_factor
    for chain in decay.chains:
        ctx.require(
            full(chain) == bld.BreitWignerBuilder()(chain)
            and full(chain) == bld.BreitWignerBuilder(True, True, True)(chain),
            "default-options", "default builder differs from all options on",
        )
    # chains without LS couplings
    c = dataclasses.replace(spec.chains[0], prod_ls=None, dec_ls=None)
    bare = gen.build_chain(spec, c)
    for flags in product((True, False), repeat=3):
        builder = bld.BreitWignerBuilder(*flags)
        if any(flags):
            ctx.raises("needs-ls", (ValueError,), builder, bare)
        else:
            expr = builder(bare).expression
            obs = Evaluator(
                {**{x.name: v for x, v in builder(bare).parameters.items()}, **kin.symbols()}
            )(expr)
            exp = 1 / (c.mass**2 - kin.sigma[c.spectator] - 1j * c.mass * c.width)
            ctx.close("without-ls", obs, exp, rtol=1e-9)


def _judge(ctx, obs, exp, c, s, mi, mj, r_res, flags):
    tol = {"rtol": 1e-6, "atol": 1e-12}
    data = {"flags": flags, "L": [c.dec_ls[0], c.prod_ls[0]]}
    if not flags[1]:
        ctx.close("dynamics", obs, exp, **tol, **data)
        return
    right = exp * ref.form_factor(c.dec_ls[0], r_res, s, mi, mj)
    squared = exp * ref.form_factor(c.dec_ls[0], r_res, s**2, mi, mj)
    if ctx.agrees("dynamics-squared-invariant", obs, squared, **tol):
        if not ctx.agrees("dynamics-squared-invariant", right, squared, **tol):
            ctx.finding(SQUARED, "decay form factor is evaluated at σ² instead of σ")
            ctx.event("squared-invariant")
        ctx.event("judged")
        ctx.max_deviation.pop("dynamics-squared-invariant", None)
        return
    ctx.max_deviation.pop("dynamics-squared-invariant", None)
    ctx.close("dynamics", obs, right, **tol, **data)
