"""Symmetrization over equal final states."""

from __future__ import annotations

from collections import Counter

from mon import qr

ID = "C19"
RULE = (
    "A case is one made-up reaction with none, two or three equal final states in any"
    " position; single transitions, containers and the whole reaction are permuted and"
    " compared with the set of distinct assignments of equal particles to the decay graph."
    " Distinct: (equal states, topologies, resonances)."
    " Different particles with the same LaTeX name occur."
)
REQUIRED = {"transition": 200, "new": 150, "reaction": 60, "unchanged": 30, "rejections": 50}
CHUNK = 4


def cases(tier):
    return 720 if tier == "quick" else 12000


def equal_groups(t):
    groups: dict = {}
    for i, e in t.topology.edges.items():
        if e.ending_node_id is None:
            state = t.states[i]
            groups.setdefault(getattr(state, "particle", state).name, []).append(i)
    return [g for g in groups.values() if len(g) > 1]


def expected_spectators(t):
    """Every final state that can take the place of the spectator by symmetry."""
    (top,) = t.topology.incoming_edge_ids
    node = t.topology.edges[top].ending_node_id
    (spectator,) = [
        i for i in t.topology.outgoing_edge_ids
        if t.topology.edges[i].originating_node_id == node
    ]
    for group in equal_groups(t):
        if spectator in group:
            return spectator, set(group)
    return spectator, {spectator}


def run(ctx):
    from ampform_dpd.adapter.qrules import (
        convert_transitions,
        normalize_state_ids,
        permute_equal_final_states,
        to_three_body_decay,
    )
    from qrules.transition import ReactionInfo

    import logging

    logging.disable(logging.CRITICAL)
    rng = ctx.rng
    identical = [0, 2, 2, 3][ctx.idx % 4]
    transitions, formalism, labels = qr.random_reaction(rng, identical=identical)
    originals = transitions
    converted = rng.uniform() < 0.3
    if converted:
        transitions = list(convert_transitions(transitions))
    ctx.info = {"identical": identical, "labels": labels, "converted": bool(converted)}
    ctx.sample(ctx.info)

    total: Counter = Counter()
    for t in transitions[:20]:
        result = permute_equal_final_states(t)
        ctx.event("transition")
        spectator, allowed = expected_spectators(t)
        ctx.distinct(identical, labels, t.topology, str(t.states))
        found = []
        for r in result:
            ctx.require(
                r.states == t.states and r.interactions == t.interactions,
                "states", "permutation changed states or interactions",
            )
            found.append(expected_spectators(r)[0])
        ctx.require(
            sorted(found) == sorted(allowed), "permutations",
            "permutations are not the distinct exchanges of equal final states",
            expected=allowed, observed=found, equal=equal_groups(t),
        )
        ctx.require(any(r == t for r in result), "original-lost", "original is missing")
        ctx.event("new" if len(allowed) > 1 else "unchanged")
    for t in transitions:
        total.update(permute_equal_final_states(t))
    container = [list, tuple, iter][int(rng.integers(3))](transitions)
    ctx.require(
        Counter(permute_equal_final_states(container)) == total, "container",
        "permuting a container differs from permuting its items",
    )
    reaction = ReactionInfo(originals, formalism=formalism)
    out = permute_equal_final_states(reaction)
    ctx.event("reaction")
    expected: Counter = Counter()
    for t in originals:
        expected.update(permute_equal_final_states(t))
    ctx.require(
        Counter(out.transitions) == expected and out.formalism == formalism
        and out.initial_state == reaction.initial_state
        and out.final_state == reaction.final_state,
        "reaction", "permuted reaction differs from permuted transitions",
    )
    # the decay is closed under exchange of equal particles
    decay = to_three_body_decay(normalize_state_ids(out).transitions)
    again = to_three_body_decay(permute_equal_final_states(normalize_state_ids(out)).transitions)
    ctx.require(decay == again, "closure", "second permutation adds or removes chains")
    before = {qr.read_transition(t)[0] for t in originals}
    ctx.require(
        before <= {qr.read_chain(c) for c in decay.chains}, "decay", "chains were lost"
    )
    per_resonance: dict = {}
    for c in decay.chains:
        per_resonance.setdefault((c.resonance, c.incoming_ls, c.outgoing_ls), set()).add(
            c.spectator.index
        )
    final = decay.final_state
    for (res, *_), spectators in per_resonance.items():
        names = {final[i].name for i in spectators}
        ctx.require(
            spectators == {i for i in final if final[i].name in names}, "symmetric",
            "equal final states do not have the same resonances", resonance=res,
            spectators=spectators,
        )
    bad = [1, None, object()][int(rng.integers(3))]
    ctx.raises("unsupported", (NotImplementedError,), permute_equal_final_states, bad)
