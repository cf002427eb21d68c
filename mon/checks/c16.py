"""State relabelling of QRules objects."""

from __future__ import annotations

from collections import Counter

from mon import qr

ID = "C16"
RULE = (
    "A case is one random multi-body decay graph (2 to 5 final states, random edge labels"
    " in the QRules pattern or fully random) or three-body reaction; its topology, frozen"
    " and (partially filled) mutable transitions, problem sets, reactions, and containers"
    " of them are relabelled and compared with the rank of each label. Distinct: (kind of"
    " object, graph, labels)."
    " States that are false in a boolean context are used too."
)
REQUIRED = {"relabelled": 300, "reaction": 20, "partial": 30, "problem-set": 20, "rejections": 20}
CHUNK = 4


def cases(tier):
    return 640 if tier == "quick" else 10000


def random_graph(rng):
    """A tree of decays with edges labelled at random."""
    from qrules.topology import Edge, Topology

    n_final = int(rng.integers(2, 6))
    edges = [[None, 0]]
    leaves = [0]
    n_nodes = 0
    while len(leaves) < n_final:
        edge = leaves.pop(int(rng.integers(len(leaves))))
        node = n_nodes
        n_nodes += 1
        edges[edge][1] = node
        n_children = 2 if n_final - len(leaves) < 3 or rng.uniform() < 0.7 else 3
        for _ in range(n_children):
            leaves.append(len(edges))
            edges.append([node, None])
    final = sorted(leaves)
    inner = [i for i in range(1, len(edges)) if i not in leaves]
    if rng.uniform() < 0.5:
        labels = {0: -1}
        labels.update({e: i for i, e in enumerate(rng.permutation(final).tolist())})
        labels.update({e: len(final) + i for i, e in enumerate(inner)})
    else:
        pool = rng.permutation(40)[: len(edges)] - 20
        labels = {e: int(pool[e]) for e in range(len(edges))}
    items = [(labels[e], Edge(*edges[e])) for e in range(len(edges))]
    order = rng.permutation(len(items))
    return Topology(set(range(n_nodes)), dict(items[int(x)] for x in order))


def judge_topology(ctx, old, new, what):
    ctx.event("relabelled")
    rank = {x: n for n, x in enumerate(sorted(old.edges))}
    expected = {rank[x]: e for x, e in old.edges.items()}
    ctx.require(
        type(new) is type(old) and dict(new.edges) == expected and set(new.nodes) == set(old.nodes),
        f"{what}:topology",
        "graph is not the original graph with ranked labels",
        old=old, new=new,
    )
    return rank


def judge_transition(ctx, old, new, what):
    rank = judge_topology(ctx, old.topology, new.topology, what)
    ctx.require(type(new) is type(old), f"{what}:type", "type changed", new=type(new))
    expected = {rank[i]: s for i, s in old.states.items()}
    ctx.require(
        dict(new.states) == expected,
        f"{what}:states", "states are not on the edge they had before",
        old=dict(old.states), new=dict(new.states),
    )
    ctx.require(
        dict(new.interactions) == dict(old.interactions),
        f"{what}:interactions", "interactions changed", old=old, new=new,
    )


def run(ctx):
    from ampform_dpd.adapter.qrules import normalize_state_ids
    from qrules.topology import FrozenTransition, MutableTransition
    from qrules.transition import ProblemSet, ReactionInfo

    rng = ctx.rng
    for _ in range(4):
        top = random_graph(rng)
        n_nodes = len(top.nodes)
        ctx.distinct("graph", top)
        ctx.info = {"topology": str(top)}
        ctx.sample(ctx.info)
        new = normalize_state_ids(top)
        judge_topology(ctx, top, new, "topology")
        ctx.require(normalize_state_ids(new) == new, "idempotent", "relabelling twice differs")
        states = {i: f"s{i}" for i in top.edges}
        if rng.uniform() < 0.3:  # any object can be a state
            states.update({i: ["", (), 0, None][n % 4] for n, i in enumerate(top.edges)})
        inter = {n: f"node{n}" for n in range(n_nodes)}
        frozen = FrozenTransition(top, states, inter)
        judge_transition(ctx, frozen, normalize_state_ids(frozen), "frozen")
        subset = [i for i in states if rng.uniform() < 0.6]
        mutable = MutableTransition(top, {i: states[i] for i in subset}, inter)
        before = (dict(mutable.states), dict(mutable.interactions), mutable.topology)
        judge_transition(ctx, mutable, normalize_state_ids(mutable), "mutable")
        ctx.require(
            before == (mutable.states, mutable.interactions, mutable.topology),
            "input-modified", "relabelling changed its input",
        )
        ctx.event("partial")
        facts = MutableTransition(
            top, {i: states[i] for i in (*top.incoming_edge_ids, *top.outgoing_edge_ids)}
        )
        problem = ProblemSet(initial_facts=facts, solving_settings=mutable, topology=top)
        out = normalize_state_ids(problem)
        ctx.event("problem-set")
        judge_transition(ctx, facts, out.initial_facts, "problem:facts")
        judge_transition(ctx, mutable, out.solving_settings, "problem:settings")
        judge_topology(ctx, top, out.topology, "problem")
        container = [list, tuple, iter][int(rng.integers(3))]
        many = normalize_state_ids(container([top, frozen, [mutable]]))
        ctx.require(
            many == [new, normalize_state_ids(frozen), [normalize_state_ids(mutable)]],
            "container", "relabelling a container differs from relabelling its items",
        )
        bad = [1, None, object(), 0.5][int(rng.integers(4))]
        ctx.raises("unsupported", (NotImplementedError,), normalize_state_ids, bad)

    transitions, formalism, labels = qr.random_reaction(rng)
    reaction = ReactionInfo(transitions, formalism=formalism)
    out = normalize_state_ids(reaction)
    ctx.event("reaction")
    ctx.distinct("reaction", reaction.transitions)
    ctx.require(
        set(out.initial_state) == {0} and set(out.final_state) == {1, 2, 3}
        and out.formalism == formalism,
        "reaction:states", "relabelled reaction does not have states 0; 1, 2, 3",
        initial=dict(out.initial_state), final=dict(out.final_state),
    )
    ctx.require(
        [qr.fields(out.initial_state[0])] + [qr.fields(out.final_state[i]) for i in (1, 2, 3)]
        == [qr.fields(p) for _, p in sorted({**reaction.initial_state, **reaction.final_state}.items())],
        "reaction:particles", "relabelled reaction has other particles",
    )
    individually = Counter(normalize_state_ids(t) for t in reaction.transitions)
    ctx.require(
        Counter(out.transitions) == individually, "reaction:transitions",
        "relabelled reaction has other transitions",
    )
    for old, new in zip(reaction.transitions, normalize_state_ids(reaction.transitions)):
        judge_transition(ctx, old, new, "reaction")
