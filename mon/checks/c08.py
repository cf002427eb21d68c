"""Amplitude models are complete and physical with their own defaults."""

from __future__ import annotations

import numpy as np
import sympy as sp

from mon import gen, ref
from mon import model as M
from mon.evalx import coupling_table, indexed_key

ID = "C08"
RULE = (
    "A case is one random decay with user-made, Breit-Wigner or no dynamics and random"
    " options; the model is evaluated with nothing but its own definitions and defaults"
    " on 8 phase-space points (finite, non-negative, every symbol defined), defaults are"
    " compared with the particles, and for small models the unfolded full expression is"
    " evaluated as well. Distinct: (spins, chains, options)."
    " Models of which parts are replaced (attrs.evolve) have to unfold to the replaced"
    " parts."
)
REQUIRED = {"self-contained": 40, "without-ls": 4, "default": 300, "full-expression": 15}


def cases(tier):
    return 144 if tier == "quick" else 1000


def run(ctx):
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    rng = ctx.rng
    spins = gen.SPIN_SETS[ctx.idx % len(gen.SPIN_SETS)]
    min_ls = [True, False, (True, False), (False, True)][int(rng.integers(4))]
    unfold = ctx.idx % 2 == 0  # unfolding is expensive in SymPy
    spec = gen.random_decay(
        rng, spins, shared_names=min_ls is False, massless=ctx.idx % 3 == 0,
        max_chains=1 if unfold else 2, max_spin=1 if unfold else gen.F(5, 2),
    )
    for c in spec.chains:  # resonance mass between the thresholds
        i, j = ref.IJ[c.spectator]
        lo = spec.masses[i] + spec.masses[j]
        c.mass = lo + (spec.masses[0] - spec.masses[c.spectator] - lo) * 0.6
    flags = tuple(bool(b) for b in rng.integers(0, 2, 3))
    kind = ["bw", "toy", "none"][ctx.idx % 3]
    dynamics = {"bw": BreitWignerBuilder(*flags), "toy": M.toy_builder, "none": None}[kind]
    options = {
        "use_coefficients": bool(rng.integers(2)),
        "cleanup_summations": bool(rng.integers(2)),
    }
    everything = bool(rng.integers(2))
    reference = [None, 1, 2, 3][int(rng.integers(4))]
    ctx.info = {
        "decay": spec.describe(), "min_ls": min_ls, "dynamics": kind, "flags": flags,
        "all_subsystems": everything, "reference": reference, **options,
    }
    ctx.sample(ctx.info)
    ctx.distinct(spec.key(), min_ls, kind, flags, everything, reference, *options.values())
    if kind != "bw" and gen.drop_ls(rng, spec, min_ls):
        ctx.event("without-ls")
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 8)
    builder = M.make_builder(
        spec, min_ls=min_ls, all_subsystems=everything, dynamics=dynamics
    )
    model = M.formulate(builder, reference, **options)
    # masses come from the defaults, only the invariants are input
    sigma = {k: v for k, v in kin.symbols().items() if k.startswith("sigma")}
    from mon.evalx import Evaluator, symbol_table

    ev = Evaluator(
        {**symbol_table(model.parameter_defaults), **sigma},
        couplings=coupling_table(model.parameter_defaults),
        definitions=model.variables,
        amplitudes=model.amplitudes,
    )
    obs = np.broadcast_to(np.asarray(ev(model.intensity), dtype=complex), (kin.n,))
    ctx.event("self-contained")
    ctx.require(bool(np.all(np.isfinite(obs))), "finite", "intensity is not finite", obs=obs)
    ctx.require(
        bool(np.all(obs.real >= 0) and np.all(np.abs(obs.imag) <= 1e-12 * np.abs(obs))),
        "non-negative", "intensity is not a non-negative real number", obs=obs,
    )
    for symbol in model.amplitudes:
        ev(model.amplitudes[symbol])
    # masses really matter only through parameters: evaluating with kinematics' own
    ctx.close("defaults", obs, M.intensity(
        model, kin, couplings=lambda *k: coupling_table(model.parameter_defaults)[k]
    ), rtol=1e-10, atol=0)

    # symbols
    declared = set(model.parameter_defaults) | set(model.variables) | set(model.invariants)
    for expr in [*model.variables.values(), *model.invariants.values()]:
        for s in sp.sympify(expr).free_symbols:
            ctx.require(s in declared, "undeclared-symbol", f"{s} is not declared")
    for expr in model.amplitudes.values():
        for s in expr.free_symbols:
            ok = s in declared or not isinstance(s, sp.Symbol) or _is_base(s, declared)
            ctx.require(ok, "undeclared-symbol", f"{s} is not declared")

    # defaults equal the particles the decay was built from
    expected = {f"m{i}": spec.masses[i] for i in range(4)}
    for c in spec.chains:
        if kind == "toy":
            expected[f"M_{{{c.latex}}}"] = c.mass
            expected[f"W_{{{c.latex}}}"] = c.width
        if kind == "bw":
            expected[f"m_{{{c.latex}}}"] = c.mass
            expected[rf"\Gamma_{{{c.latex}}}"] = c.width
    table = symbol_table(model.parameter_defaults)
    for name, value in expected.items():
        ctx.event("default")
        ctx.require(
            name in table and table[name] == value, "default",
            f"default of {name} is {table.get(name)}, not {value}",
        )
    for s, v in model.parameter_defaults.items():
        if isinstance(s, sp.Indexed):
            ctx.event("default")
            ctx.require(v == 1, "coupling-default", f"{indexed_key(s)} = {v}")
    ctx.require(
        {s.name: v for s, v in model.masses.items()}
        == {f"m{i}": spec.masses[i] for i in range(4)},
        "masses", f"{model.masses}",
    )
    ctx.require(model.decay == builder.decay, "decay", "model describes another decay")

    # the full expression belongs to this model, whichever lived before at its place
    import attrs

    if not any(spec.spins):
        for n in range(2, 10):
            ctx.event("evolved")
            if n % 2:
                factor, change = n, {"intensity": n * model.intensity}
            else:
                factor = n**2
                change = {"amplitudes": {k: n * v for k, v in model.amplitudes.items()}}
            other = attrs.evolve(model, **change)
            got = np.asarray(ev(other.full_expression), dtype=complex)
            ctx.close(
                "evolved-expression", np.broadcast_to(got, (kin.n,)), factor * obs,
                rtol=1e-8, atol=1e-14, factor=factor,
            )
            del other, change

    # fully unfolded expression
    size = np.prod([int(2 * s + 1) for s in spec.spins])
    if size <= (4 if ctx.tier == "quick" else 8) and unfold:
        full = model.full_expression
        left = full.atoms(sp.Indexed)
        amps = {s for s in left if str(s.base.label).startswith("A^")}
        ctx.require(not amps, "full-expression", f"amplitude symbols left: {amps}")
        ctx.event("full-expression")
        got = np.asarray(ev(full), dtype=complex)
        ctx.close("full-expression", got, obs, rtol=1e-8, atol=1e-14)


def _is_base(symbol, declared):
    return any(
        isinstance(d, sp.Indexed) and (symbol in {d, d.base.label} or symbol in d.free_symbols)
        for d in declared
    )
