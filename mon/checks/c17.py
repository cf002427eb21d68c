"""Conversion of QRules reactions to decays."""

from __future__ import annotations

import warnings

from mon import qr

ID = "C17"
RULE = (
    "A case is one reaction, either made up (random spins, resonances, LS couplings,"
    " undefined parities and LaTeX names, redundant helicities, both labelling schemes,"
    " shuffled dictionaries) or computed by QRules; the resulting decay is compared with"
    " an independent reading of the transitions, for all LS-filter options, permuted and"
    " duplicated input. Distinct: set of chains."
)
REQUIRED = {"decay": 200, "chain": 300, "permuted": 50, "real": 2, "rejections": 30}
CHUNK = 2
N_REAL = 6


def cases(tier):
    return 126 if tier == "quick" else 4006


def make_input(ctx):
    rng = ctx.rng
    n_real = 3 if ctx.tier == "quick" else N_REAL
    if ctx.idx < n_real:
        import qrules
        from ampform_dpd.adapter.qrules import load_particles

        recipe = qr.real_reactions()[(ctx.idx + ctx.seed * (ctx.tier == "quick")) % N_REAL]
        reaction = qrules.generate_transitions(
            **recipe, particle_db=load_particles(), number_of_threads=1
        )
        ctx.event("real")
        ctx.info = {"recipe": str(recipe)}
        return list(reaction.transitions)
    transitions, formalism, labels = qr.random_reaction(
        rng, identical=int(rng.choice([0, 0, 2, 3]))
    )
    ctx.info = {"formalism": formalism, "labels": labels}
    return transitions


def run(ctx):
    import logging

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from ampform_dpd.adapter.qrules import (
        convert_transitions,
        normalize_state_ids,
        to_three_body_decay,
    )
    from qrules.topology import FrozenTransition, create_isobar_topologies

    rng = ctx.rng
    transitions = make_input(ctx)
    read = [qr.read_transition(t) for t in transitions]
    outer = read[0][1]
    keys = {k for k, _ in read}
    ctx.distinct(sorted(map(str, keys)))
    ctx.info["chains"] = sorted(map(str, keys))[:6]
    ctx.sample(ctx.info)

    def judge(decay, expected, what):
        ctx.event("decay")
        ctx.require(
            {i: qr.dpd_fields(s, index=True) for i, s in decay.states.items()} == outer,
            f"{what}:states", "states differ from the reaction",
            observed=decay.states, expected=outer,
        )
        chains = [qr.read_chain(c) for c in decay.chains]
        ctx.event("chain", len(chains))
        ctx.require(
            len(chains) == len(set(chains)), f"{what}:duplicates", "duplicate chains"
        )
        ctx.require(
            set(chains) == expected, f"{what}:chains", "chains differ from the transitions",
            missing=sorted(map(str, expected - set(chains)))[:3],
            surplus=sorted(map(str, set(chains) - expected))[:3],
        )

    full = to_three_body_decay(transitions)
    judge(full, keys, "full")
    for min_ls in (True, (True, False), (False, True), (True, True), (False, False), False):
        nodes = {True: {0, 1}, False: set()}.get(min_ls) if isinstance(min_ls, bool) else {
            n for n in (0, 1) if min_ls[n]
        }
        expected = qr.expect_min_ls(keys, nodes) if nodes else keys
        judge(to_three_body_decay(transitions, min_ls=min_ls), expected, f"min_ls={min_ls}")

    for _ in range(3):
        order = rng.permutation(len(transitions))
        shuffled = [transitions[int(x)] for x in order]
        shuffled += [shuffled[int(rng.integers(len(shuffled)))]]
        ctx.require(
            convert_transitions(list(shuffled)) == convert_transitions(list(transitions)), "order",
            "converted transitions depend on order or multiplicity of the transitions",
        )
        if rng.uniform() < 0.3:
            shuffled = normalize_state_ids(shuffled)
        ctx.event("permuted")
        if rng.uniform() < 0.3:
            shuffled = iter(shuffled)
        ctx.require(
            to_three_body_decay(shuffled) == full, "order",
            "decay depends on order or multiplicity of the transitions",
        )
    # transitions that have been converted already
    converted = convert_transitions(normalize_state_ids(transitions))
    ctx.require(len(set(converted)) == len(converted) == len(keys), "converted", "not deduplicated")
    ctx.require(to_three_body_decay(converted) == full, "converted", "second conversion differs")

    ctx.raises("empty", (ValueError,), to_three_body_decay, [])
    some = transitions[0]
    for n in (2, 4):
        top = create_isobar_topologies(n)[0]
        states = {i: some.states[min(some.states)] for i in top.edges}
        bad = FrozenTransition(top, states, {i: some.interactions[0] for i in top.nodes})
        ctx.raises("not-three-body", (ValueError,), to_three_body_decay, [bad])
