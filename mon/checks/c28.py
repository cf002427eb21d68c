"""Requests that cannot be fulfilled are refused and leave everything as it was."""

from __future__ import annotations

import copy
import logging
import warnings

import sympy as sp

from mon import gen, qr, ref, ser
from mon import model as M

ID = "C28"
RULE = (
    "A case takes one random decay, one random QRules reaction and one random serialized"
    " model; each is used in ways that have no meaning (options of another type, LS basis"
    " without LS couplings, other numbers of states, nodes or propagators, unknown types)"
    " next to the nearest ones that have a meaning. The first have to raise a deliberate"
    " exception, the others have to work, and the objects work as before afterwards."
    " Distinct: (kind of request, decay)."
)
REQUIRED = {
    "options": 200, "without-ls": 40, "with-enough-ls": 40, "transitions": 200,
    "serialized": 100, "unaffected": 60,
}
REFUSALS = (ValueError, TypeError, NotImplementedError, LookupError)


def cases(tier):
    return 48 if tier == "quick" else 700


def options(ctx, spec):
    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.adapter.qrules import to_three_body_decay  # noqa: F401

    decay = gen.build_decay(spec)
    wrong = [None, "LS", "True", 2.0, (True,), (True, False, True), (), {"a": True}, 3 + 0j, 1, 0, -1, [True, False]]
    for value in wrong:
        ctx.event("options")
        ctx.distinct("options", repr(value))
        ctx.raises(
            "min_ls", REFUSALS, DalitzPlotDecompositionBuilder, decay, min_ls=value
        )
    for value in (True, False, (True, False), (False, True), (True, True), (False, False)):
        DalitzPlotDecompositionBuilder(decay, min_ls=value)
    builder = M.make_builder(spec)
    before = M.formulate(builder, spec.subsystems[0])
    for reference in (4, 0, -1):
        ctx.event("options")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.raises("reference", REFUSALS, builder.formulate, reference)
    ctx.event("unaffected")
    ctx.require(
        M.formulate(builder, spec.subsystems[0]) == before, "after-refusal",
        "a builder makes another model after a request that it refused",
    )


def without_ls(ctx, spec):
    """The LS basis needs the LS couplings of exactly the nodes that are in this basis."""
    rng = ctx.rng
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 4)
    for missing in ("prod", "dec", "both"):
        bare = copy.deepcopy(spec)
        n = int(rng.integers(len(bare.chains)))
        for i, c in enumerate(bare.chains):
            if i == n or rng.integers(2):
                if missing != "dec":
                    c.prod_ls = None
                if missing != "prod":
                    c.dec_ls = None
        for min_ls in (True, False, (True, False), (False, True)):
            helicity = min_ls if isinstance(min_ls, tuple) else (min_ls, min_ls)
            fails = (not helicity[0] and missing != "dec") or (
                not helicity[1] and missing != "prod"
            )
            for use_coefficients in (False, True):
                builder = M.make_builder(bare, min_ls=min_ls)
                if fails:
                    ctx.event("without-ls")
                    ctx.distinct("ls", missing, str(min_ls), spec.key())
                    ctx.raises(
                        "missing-ls", REFUSALS, M.formulate, builder, bare.subsystems[0],
                        use_coefficients=use_coefficients,
                    )
                elif not use_coefficients and min_ls is not False:
                    # the same model as with couplings that are not used
                    ctx.event("with-enough-ls")
                    got = M.formulate(builder, bare.subsystems[0])
                    if isinstance(min_ls, tuple) or len({
                        (c.name, c.spectator) for c in bare.chains
                    }) < len(bare.chains):
                        continue  # the order of chains depends on LS couplings
                    want = M.formulate(M.make_builder(spec, min_ls=min_ls), bare.subsystems[0])
                    ctx.close(
                        "unused-ls", M.intensity(got, kin), M.intensity(want, kin),
                        rtol=1e-9, atol=1e-14,
                    )


def transitions(ctx):
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import Edge, FrozenTransition, Topology

    from ampform_dpd.adapter import qrules as adapter

    rng = ctx.rng
    reaction, _, labels = qr.random_reaction(rng)
    some = reaction[int(rng.integers(len(reaction)))]
    good = adapter.to_three_body_decay(reaction)
    converted = adapter.convert_transitions(adapter.normalize_state_ids(reaction))

    def evolve(**kwargs):
        fields = {"topology": some.topology, "states": some.states, "interactions": some.interactions}
        return FrozenTransition(*{**fields, **kwargs}.values())

    class Stranger:
        name, latex, spin, parity, mass, width = "X", "X", 1, None, 1.0, 0.1

        def __lt__(self, other):
            return True

    # states and interactions of another kind
    for foreign in ("pi+", 211, None, Stranger):
        which = int(rng.choice(list(some.topology.outgoing_edge_ids)))
        states = {**some.states, which: foreign}
        bad = evolve(states=states)
        ctx.event("transitions")
        ctx.distinct("state", repr(foreign), labels)
        ctx.raises("foreign-state", (*REFUSALS, AttributeError), adapter.to_three_body_decay, [bad])
    for foreign in ("S-wave", (1, 0), 1):
        node = int(rng.integers(2))
        bad = evolve(interactions={**some.interactions, node: foreign})
        ctx.event("transitions")
        ctx.raises("foreign-node", REFUSALS, adapter.convert_transitions, [bad])
        ctx.raises("foreign-node", REFUSALS, adapter.to_three_body_decay, [bad])
    # a coupling that is known in part is no coupling
    for L, S in ((None, 1), (1, None)):
        node = int(rng.integers(2))
        inter = {
            **some.interactions, node: InteractionProperties(l_magnitude=L, s_magnitude=S)
        }
        (part,) = adapter.convert_transitions([evolve(interactions=inter)])
        ctx.event("transitions")
        ctx.require(
            part.interactions[node] is None, "partial-ls",
            "an interaction without L or S has become a coupling",
            observed=part.interactions[node],
        )
    # permutations need something to tell states by
    for foreign in ("pi+", 211, None):
        states = {i: foreign for i in some.states}
        ctx.event("transitions")
        ctx.raises(
            "foreign-permutation", REFUSALS, adapter.permute_equal_final_states,
            evolve(states=states),
        )
    for foreign in (None, 3, 2.5):
        ctx.event("transitions")
        ctx.raises("foreign-object", REFUSALS, adapter.permute_equal_final_states, foreign)
    # other shapes of the graph: 2 → 3, three nodes, one node
    p = some.states[min(some.states)]
    two_initial = Topology(
        {0, 1},
        {-2: Edge(None, 0), -1: Edge(None, 0), 0: Edge(0), 1: Edge(1), 2: Edge(1), 3: Edge(0, 1)},
    )
    three_nodes = Topology(
        {0, 1, 2},
        {-1: Edge(None, 0), 0: Edge(0), 1: Edge(2), 2: Edge(2), 3: Edge(0, 1), 4: Edge(1, 2)},
    )
    one_node = Topology({0}, {-1: Edge(None, 0), 0: Edge(0), 1: Edge(0), 2: Edge(0)})
    shifted = Topology(
        {1, 2},
        {-1: Edge(None, 1), 0: Edge(1), 1: Edge(2), 2: Edge(2), 3: Edge(1, 2)},
    )
    inter = some.interactions[0]
    for top in (two_initial, three_nodes, one_node, shifted):
        bad = FrozenTransition(
            top, {i: p for i in top.edges}, {i: inter for i in top.nodes}
        )
        ctx.event("transitions")
        ctx.distinct("topology", len(top.edges), len(top.nodes))
        if top is not shifted:
            ctx.raises("topology", REFUSALS, adapter.to_three_body_decay, [bad])
            ctx.raises("topology", REFUSALS, adapter.to_three_body_decay, [bad], min_ls=True)
        if top is not two_initial:
            ctx.raises("filter-topology", REFUSALS, adapter.filter_min_ls, [bad])
    ctx.event("unaffected")
    ctx.require(
        adapter.to_three_body_decay(reaction) == good
        and adapter.to_three_body_decay(converted) == good,
        "after-refusal", "a conversion differs after conversions that were refused",
    )


def serialized(ctx):
    from ampform_dpd.io.serialization import amplitude as sa
    from ampform_dpd.io.serialization import dynamics as sdyn

    rng = ctx.rng
    spec = ser.random_model(rng, shared_radii=True, unique_weights=True)
    kwargs = {"additional_builders": {"Custom": ser.custom_builder}}
    good = sa.formulate(spec.definition, **kwargs)

    def broken(change):
        definition = copy.deepcopy(spec.definition)
        chains = definition["distributions"][0]["decay_description"]["chains"]
        change(chains[int(rng.integers(len(chains)))])
        return definition

    def no_helicities(c):
        for v in c["vertices"]:
            v.pop("helicities", None)

    def no_helicity(c):
        c["vertices"][int(rng.integers(2))].pop("helicities", None)

    def drop_propagator(c):
        c["propagators"].clear()

    def drop_vertex(c):
        c["vertices"].pop(int(rng.integers(2)))

    def bad_weight(c):
        c["weight"] = "one"

    def no_weight(c):
        del c["weight"]

    changes = [
        no_helicities, no_helicity, drop_propagator, drop_vertex,
        bad_weight, no_weight,
    ]
    for change in changes:
        ctx.event("serialized")
        ctx.distinct("serialized", change.__name__)
        ctx.raises(
            f"serialized:{change.__name__}", REFUSALS, sa.formulate, broken(change), **kwargs
        )
    for node in ([1, [2, 3]], (1, 2, 3), [[1, 2]], (1,)):
        ctx.event("serialized")
        ctx.raises("mass-symbol", REFUSALS, sdyn.to_mass_symbol, node)
    for k in (1, 2, 3):
        i, j = (n for n in (1, 2, 3) if n != k)
        for node in ([i, j], (j, i)):
            ctx.require(
                sdyn.to_mass_symbol(node) == sp.Symbol(f"sigma{k}", nonnegative=True),
                "mass-symbol", f"{sdyn.to_mass_symbol(node)} for {node}",
            )
    ctx.event("unaffected")
    ctx.require(
        sa.formulate(spec.definition, **kwargs) == good, "after-refusal",
        "a model differs after definitions that were refused",
    )


def run(ctx):
    logging.disable(logging.CRITICAL)
    rng = ctx.rng
    spec = gen.random_decay(
        rng, gen.SPIN_SETS[ctx.idx % len(gen.SPIN_SETS)], max_chains=2, max_spin=gen.F(3, 2)
    )
    ctx.info = {"decay": spec.describe()}
    ctx.sample(ctx.info)
    options(ctx, spec)
    without_ls(ctx, spec)
    transitions(ctx)
    serialized(ctx)
