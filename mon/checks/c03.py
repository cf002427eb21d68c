"""Mandelstam closure and masses."""

from __future__ import annotations

from itertools import permutations

import numpy as np
import sympy as sp

from mon import gen, ref, ser
from mon import model as M
from mon.evalx import Evaluator

ID = "C03"
RULE = (
    "A case is one random decay (states given in random dictionary order) with 16"
    " phase-space points; every derived invariant of the model and every ordered pair of"
    " invariants is evaluated and compared to squared sums of four-vectors. Distinct:"
    " one (derived invariant, decay)."
    " Some models are formulated from a serialized definition (with its final states in"
    " another order)."
    " Some dynamics and lineshapes bring their own values of these masses along."
    " Now and then particles share a name, a LaTeX name or a mass."
)
REQUIRED = {"third-invariant": 300, "model-invariant": 150, "mass": 200, "serialized-model": 30}
CHUNK = 8


def cases(tier):
    return 240 if tier == "quick" else 1500


def rename(decay):
    """The same decay with one name for all states."""
    import attrs
    from ampform_dpd.decay import ThreeBodyDecay, ThreeBodyDecayChain

    states = {i: attrs.evolve(s, name="X", latex="X") for i, s in decay.states.items()}

    def convert(obj):
        if hasattr(obj, "index"):
            return states[obj.index]
        if not hasattr(obj, "child1"):
            return obj
        return attrs.evolve(
            obj, parent=convert(obj.parent), child1=convert(obj.child1),
            child2=convert(obj.child2),
        )

    chains = [ThreeBodyDecayChain(convert(c.decay)) for c in decay.chains]
    return ThreeBodyDecay(states, chains)


def judge_masses(ctx, mapping, masses):
    table = {s.name: v for s, v in mapping.items() if isinstance(s, sp.Symbol)}
    for i in range(4):
        ctx.event("mass")
        ctx.require(
            table.get(f"m{i}") == masses[i], "mass", f"m{i} is {table.get(f'm{i}')}, not {masses[i]}"
        )


def judge_model(ctx, model, masses, kin):
    """Invariants and masses of a model, formulated from a decay or a serialized model."""
    scale = masses[0] ** 2
    names = {s.name for s in model.invariants}
    ctx.require(
        names == {"sigma1", "sigma2", "sigma3"}, "invariant-names", f"{sorted(names)}"
    )
    for symbol, expr in model.invariants.items():
        values = kin.symbols()
        own = values.pop(symbol.name)  # must follow from the other two
        ctx.event("model-invariant")
        ctx.close(
            "model-invariant", Evaluator(values)(expr), own,
            rtol=0, atol=1e-9 * scale, symbol=str(symbol),
        )
        # with the masses that the model provides
        values.update({s.name: v for s, v in model.masses.items()})
        ctx.close(
            "model-invariant", Evaluator(values)(expr), own, rtol=0, atol=1e-9 * scale
        )
    judge_masses(ctx, model.masses, masses)
    judge_masses(ctx, model.parameter_defaults, masses)


def run(ctx):
    import ampform_dpd as ad
    from ampform_dpd.decay import ThreeBodyDecay
    from ampform_dpd.io.serialization.amplitude import formulate

    rng = ctx.rng
    spec = gen.random_decay(rng)
    decay = gen.build_decay(spec)
    if rng.uniform() < 0.2:  # states are told apart by their number
        decay = rename(decay)
    order = [int(x) for x in rng.permutation(4)]
    decay = ThreeBodyDecay({i: decay.states[i] for i in order}, decay.chains)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 16)
    ctx.info = {"decay": spec.describe(), "state order": order}
    ctx.sample({"masses": list(spec.masses), "state order": order})
    scale = spec.masses[0] ** 2
    for x, y in permutations((1, 2, 3), 2):
        (z,) = {1, 2, 3} - {x, y}
        expr = ad.formulate_third_mandelstam(decay, x, y)
        values = kin.symbols()
        del values[f"sigma{z}"]
        ctx.event("third-invariant")
        ctx.distinct(x, y, spec.masses)
        ctx.close(
            "third-invariant", Evaluator(values)(expr), kin.sigma[z],
            rtol=0, atol=1e-9 * scale, pair=[x, y],
        )
    builder = ad.DalitzPlotDecompositionBuilder(decay)
    if ctx.idx % 5 == 1:  # dynamics that come with (rounded) masses of their own
        other = {sp.Symbol(f"m{i}", nonnegative=True): m * 1.01 + 0.1 for i, m in enumerate(spec.masses)}
        for chain in decay.chains:
            builder.dynamics_choices.register_builder(
                chain, lambda _: ad.DefinedExpression(sum(other), dict(other))
            )
    model = M.formulate(builder)
    judge_model(ctx, model, spec.masses, kin)
    if ctx.idx % 4 == 0:
        given = ser.random_model(rng)
        if ctx.idx % 8 == 0:
            state = given.definition["distributions"][0]["decay_description"]["kinematics"]
            order = rng.permutation(3)
            state["final_state"] = [state["final_state"][int(n)] for n in order]
        if ctx.idx % 12 == 0:  # lineshapes with (rounded) masses of their own
            for function in given.definition["functions"]:
                for part in (function, *function.get("channels", ())):
                    if "ma" in part:
                        part.update(ma=part["ma"] * 1.01 + 1e-3, mb=part["mb"] * 0.99 + 1e-3)
        serialized = formulate(
            given.definition, additional_builders={"Custom": ser.custom_builder}
        )
        ctx.event("serialized-model")
        point = ref.random_kinematics(rng, given.masses[0], given.masses[1:], 16)
        judge_model(ctx, serialized, given.masses, point)
    mapping = ad.create_mass_symbol_mapping(decay)
    ctx.require(
        [s.name for s in mapping] == ["m0", "m1", "m2", "m3"],
        "mass-order", f"mass symbols are ordered {list(mapping)}",
    )
    judge_masses(ctx, mapping, spec.masses)
    for i, state in decay.states.items():
        ctx.require(
            ad.create_mass_symbol(state).name == f"m{i}", "mass-symbol", f"{state.name}"
        )
    for chain in decay.chains:
        for node in (chain.decay_node, chain.resonance):
            ctx.require(
                ad.create_mass_symbol(node).name == f"m_{{{chain.resonance.latex}}}",
                "mass-symbol", f"{chain.resonance.name}",
            )
        ctx.require(
            ad.create_mass_symbol(chain.decay).name == "m0", "mass-symbol", "parent"
        )
    total = sum(kin.sigma.values())
    ctx.close("sum-rule", total, sum(m * m for m in spec.masses), rtol=0, atol=1e-9 * scale)
    ctx.require(bool(np.all(np.isfinite(total))), "finite", "sum is not finite")
