"""Filter for minimal LS couplings."""

from __future__ import annotations

from mon import qr

ID = "C18"
RULE = (
    "A case is one made-up reaction with grids or random subsets of LS couplings, filtered"
    " on no, one or both nodes, before or after conversion, in several orders and from"
    " one-time iterators, now and then with couplings that are known in part only; the result is compared with the minimum per group computed"
    " independently. Distinct: (set of transitions, nodes); non-trivial: at least one"
    " transition is removed."
)
REQUIRED = {"filtered": 300, "removed": 60, "kept": 300, "rejections": 60, "partly-known": 100}
CHUNK = 4


def cases(tier):
    return 960 if tier == "quick" else 12000


def partial(ctx, transitions):
    """Couplings that are known for some transitions only: the order does not matter."""
    import attrs
    from ampform_dpd.adapter.qrules import filter_min_ls

    rng = ctx.rng
    some = list({
        attrs.evolve(
            t, interactions={
                i: None if rng.uniform() < 0.3 else n for i, n in t.interactions.items()
            },
        )
        for t in transitions
    })
    for nodes in (None, {0}, {1}):
        results = []
        for _ in range(3):
            given = [some[int(x)] for x in rng.permutation(len(some))]
            result = filter_min_ls([list, tuple, iter][int(rng.integers(3))](given), nodes)
            result = filter_min_ls(result, nodes) if rng.uniform() < 0.3 else result
            results.append({qr.read_transition(t)[0] for t in result})
            ctx.event("partly-known")
        ctx.require(
            results[0] == results[1] == results[2], "partly-known-order",
            "result depends on the order of the transitions", nodes=nodes,
        )


def run(ctx):
    from ampform_dpd.adapter.qrules import (
        convert_transitions,
        filter_min_ls,
        normalize_state_ids,
    )
    from qrules.topology import FrozenTransition, create_isobar_topologies
    from qrules.transition import State

    rng = ctx.rng
    transitions, formalism, labels = qr.random_reaction(
        rng, formalism="canonical-helicity" if rng.uniform() < 0.85 else "helicity"
    )
    raw = rng.uniform() < 0.4
    if raw:
        # QRules transitions of which all states have a fixed helicity
        fixed = {
            FrozenTransition(
                t.topology,
                {i: State(s.particle, s.particle.spin) for i, s in t.states.items()},
                {
                    i: type(n)(l_magnitude=n.l_magnitude, s_magnitude=n.s_magnitude)
                    for i, n in t.interactions.items()
                },
            )
            for t in transitions
        }
        transitions = sorted(fixed)
    else:
        transitions = list(convert_transitions(transitions))
        if rng.uniform() < 0.5:
            transitions = normalize_state_ids(transitions)
    if not raw and formalism != "helicity" and rng.uniform() < 0.15:
        partial(ctx, transitions)
    keys = {qr.read_transition(t)[0] for t in transitions}
    ctx.info = {"raw": raw, "formalism": formalism, "transitions": sorted(map(str, keys))[:8]}
    ctx.sample(ctx.info)
    for nodes in (None, {0, 1}, {0}, {1}, set()):
        selected = {0, 1} if nodes is None else nodes
        if raw and formalism == "helicity" and selected != {0, 1}:
            continue  # empty interaction nodes, no LS values to group by
        expected = qr.expect_min_ls(keys, selected)
        for _ in range(2):
            order = rng.permutation(len(transitions))
            given = [transitions[int(x)] for x in order]
            given = [list, tuple, iter][int(rng.integers(3))](given)
            result = filter_min_ls(given) if nodes is None else filter_min_ls(given, nodes)
            ctx.event("filtered")
            observed = [qr.read_transition(t)[0] for t in result]
            ctx.event("kept", len(observed))
            ctx.event("removed", len(keys) - len(expected))
            if len(keys) > len(expected):
                ctx.distinct(sorted(map(str, keys)), selected)
            ctx.require(
                len(observed) == len(set(observed)), "duplicates",
                "filter returned a chain twice", nodes=nodes,
            )
            ctx.require(
                set(observed) == expected, "minimum",
                "result is not the minimal LS coupling per group", nodes=nodes,
                missing=sorted(map(str, expected - set(observed)))[:3],
                surplus=sorted(map(str, set(observed) - expected))[:3],
            )
            outer = qr.read_transition(transitions[0])[1]
            ctx.require(
                all(qr.read_transition(t)[1] == outer for t in result), "outer-states",
                "outer states changed",
            )
    some = transitions[0]
    for n in (2, 4):
        top = create_isobar_topologies(n)[0]
        states = {i: some.states[min(some.states)] for i in top.edges}
        bad = FrozenTransition(top, states, {i: some.interactions[0] for i in top.nodes})
        ctx.raises("not-three-body", (ValueError,), filter_min_ls, [bad])
