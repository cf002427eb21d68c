"""Synthetic and real QRules reactions, and an independent reading of transitions."""

from __future__ import annotations

from fractions import Fraction as F

from mon import gen
from mon.ref import fr, ls_list

IDS = {
    "qrules": {0: -1, 1: 0, 2: 1, 3: 2, 4: 3},
    "dpd": {i: i for i in range(5)},
    # neither scheme: initial state first, resonance last
    "shifted": {0: 0, 1: 2, 2: 3, 3: 5, 4: 6},
    "negative": {0: -1, 1: 1, 2: 2, 3: 3, 4: 4},
}
NAMES = [
    ("a", "b", "c"), ("c", "a", "b"), ("pi+", "pi0", "pi-"), ("K0", "K-", "K+"),
    ("p~", "n", "p"), ("f_0", "g_1'", "h_"),
]


def particle(name, spin, mass, width=0.0, parity=None, latex=None, pid=0):
    from qrules.particle import Particle

    return Particle(
        name=name, pid=pid, latex=latex, spin=fr(spin), mass=mass, width=width,
        parity=parity,
    )


def topology(spectator: int, labels: str):
    """Three-body topology with the given spectator, 1-based."""
    from qrules.topology import Edge, Topology

    ids = IDS[labels]
    edges = {ids[0]: Edge(None, 0), ids[4]: Edge(0, 1)}
    for i in (1, 2, 3):
        edges[ids[i]] = Edge(0 if i == spectator else 1, None)
    return Topology({0, 1}, edges)


def random_reaction(rng, *, formalism=None, labels=None, identical=0, max_resonances=4):
    """Return (transitions, formalism, labels); transitions carry redundant helicities."""
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import FrozenTransition
    from qrules.transition import State

    formalism = formalism or ["canonical-helicity", "helicity"][int(rng.integers(2))]
    labels = labels or ["qrules", "dpd", "qrules", "dpd", "shifted", "negative"][
        int(rng.integers(6))
    ]
    spins = [fr(s) for s in gen.SPIN_SETS[int(rng.integers(len(gen.SPIN_SETS)))]]
    masses = list(gen.random_masses(rng))
    names = ["P0", *NAMES[int(rng.integers(len(NAMES)))]]
    parities = [[-1, 1, None][int(rng.integers(3))] for _ in range(4)]
    if rng.uniform() < 0.3:  # members of one multiplet
        masses[1:] = [masses[1]] * 3
        masses[0] = sum(masses)
        parities[1:] = [parities[1]] * 3
    if identical == 3:
        while True:
            spins = [fr(s) for s in gen.SPIN_SETS[int(rng.integers(len(gen.SPIN_SETS)))]]
            if (spins[0] + 3 * spins[1]).denominator == 1:
                break
        i, pairs = 1, (2, 3)
    elif identical == 2:
        i, j = sorted(int(x) for x in rng.choice([1, 2, 3], 2, replace=False))
        k = 6 - i - j
        # J0 + Jk has to be an integer
        while (spins[0] + spins[k]).denominator != 1:
            spins = [fr(s) for s in gen.SPIN_SETS[int(rng.integers(len(gen.SPIN_SETS)))]]
        pairs = (j,)
    else:
        i, pairs = 1, ()
    for j in pairs:
        spins[j], masses[j], parities[j], names[j] = spins[i], masses[i], parities[i], names[i]
    latex = {n: None if rng.uniform() < 0.4 else Rf"\mathrm{{{n}}}" for n in names}
    if rng.uniform() < 0.2:  # LaTeX does not identify a particle
        latex.update({n: R"\mathrm{X}" for n in names[1:]})
    outer = [
        particle(
            n, s, m, float(rng.uniform(0, 0.2)) if rng.uniform() < 0.3 else 0.0, p,
            latex[n], pid=x,
        )
        for x, (n, s, m, p) in enumerate(zip(names, spins, masses, parities))
    ]
    outer[0] = particle("P0", spins[0], masses[0], 0.01, parities[0], latex["P0"], 0)
    for j in pairs:
        outer[j] = outer[i]
    ids = IDS[labels]
    transitions = []
    prefactor = rng.uniform() < 0.5
    projected = rng.uniform() < 0.8
    known: list = []
    for n in range(int(rng.integers(1, max_resonances + 1))):
        k = int(rng.integers(1, 4))
        a, b = [x for x in (1, 2, 3) if x != k]
        options = gen.resonance_spins(tuple(spins), k, F(5, 2))
        spin = options[int(rng.integers(len(options)))]
        name = f"R({n})" if rng.uniform() < 0.7 else f"R_{n}"
        res = particle(
            name, spin, float(rng.uniform(0.5, 3)) + n * 1e-3,
            0.0 if rng.uniform() < 0.15 else float(rng.uniform(0, 0.3)),
            [-1, 1, None][int(rng.integers(3))],
            None if rng.uniform() < 0.5 else Rf"R_{{{n}}}", 100 + n,
        )
        seen = [t for t in known if t[1] != k and t[0].spin in options]
        if seen and rng.uniform() < 0.4:  # the same resonance in another subsystem
            res = seen[int(rng.integers(len(seen)))][0]
            spin = fr(res.spin)
        if any(res == p and k == x for p, x in known):
            continue
        known.append((res, k))
        if formalism == "helicity":
            couplings = [(None, None)]
        else:
            prod = ls_list(spins[0], spin, spins[k], 4)
            dec = ls_list(spin, spins[a], spins[b], 4)
            couplings = [(p, d) for p in prod[:4] for d in dec[:4]]
            keep = max(1, int(round(len(couplings) * rng.uniform(0.3, 1))))
            chosen = rng.permutation(len(couplings))[:keep]
            couplings = [couplings[int(x)] for x in chosen]
        helicities = []
        for _ in range(int(rng.integers(1, 4))):
            helicities.append([
                -s + int(rng.integers(0, int(2 * s) + 1)) for s in (*spins, spin)
            ])
        for prod_ls, dec_ls in couplings:
            for hel in helicities:
                inter = {}
                for node, ls in ((0, prod_ls), (1, dec_ls)):
                    if ls is not None:
                        inter[node] = InteractionProperties(
                            l_magnitude=ls[0], s_magnitude=ls[1],
                            **(dict(l_projection=0, s_projection=hel[0]) if projected else {}),
                        )
                    elif prefactor:
                        inter[node] = InteractionProperties(parity_prefactor=-1.0)
                    else:
                        inter[node] = InteractionProperties()
                if rng.uniform() < 0.3:
                    inter = dict(reversed(inter.items()))
                states = {
                    ids[x]: State(p, hel[x]) for x, p in enumerate([*outer, res])
                }
                if rng.uniform() < 0.3:
                    states = {x: states[x] for x in rng.permutation(list(states)).tolist()}
                transitions.append(FrozenTransition(topology(k, labels), states, inter))
    order = rng.permutation(len(transitions))
    return [transitions[int(x)] for x in order], formalism, labels


def real_reactions():
    """Recipes for reactions that QRules computes from the PDG."""
    return [
        dict(
            initial_state="a(1)(1260)0", final_state=["pi0", "pi0", "pi0"],
            allowed_intermediate_particles=["a(0)(980)0"], formalism="helicity",
        ),
        dict(
            initial_state=[("J/psi(1S)", [+1])],
            final_state=["K0", ("Sigma+", [+0.5]), ("p~", [+0.5])],
            allowed_interaction_types="strong",
            allowed_intermediate_particles=["N(1700)+", "Sigma(1660)"],
            formalism="canonical-helicity",
        ),
        dict(
            initial_state="Xi(b)-", final_state=["p", "K-", "K-"],
            allowed_intermediate_particles=["Lambda(1520)"], formalism="helicity",
        ),
        dict(
            initial_state="Lambda(c)+", final_state=["p", "K-", "pi+"],
            allowed_intermediate_particles=["Lambda(1405)", "Delta(1232)++", "K*(892)0"],
            formalism="canonical-helicity",
        ),
        dict(
            initial_state="D0", final_state=["K0", "pi+", "pi-"],
            allowed_intermediate_particles=["K*(892)", "rho(770)"],
            formalism="helicity",
        ),
        dict(
            initial_state=[("J/psi(1S)", [-1, +1])],
            final_state=["gamma", "pi0", "pi0"],
            allowed_intermediate_particles=["f(0)(980)", "omega(782)"],
            formalism="canonical-helicity",
        ),
    ]


# -- independent reading -----------------------------------------------------------------
def fields(p, index=None):
    """The content of a QRules particle as it should appear in a decay."""
    p = getattr(p, "particle", p)
    return (
        p.name,
        p.name if p.latex is None else p.latex,
        F(str(p.spin)),
        None if p.parity is None else int(p.parity),
        float(p.mass),
        float(p.width),
        index,
    )


def dpd_fields(p, *, index=False):
    return (
        p.name, p.latex, fr(p.spin), None if p.parity is None else int(p.parity),
        float(p.mass), float(p.width), p.index if index else None,
    )


def _ls(node):
    if node is None:
        return None
    L, S = (
        (node.L, node.S)
        if hasattr(node, "L")
        else (node.l_magnitude, node.s_magnitude)
    )
    return None if L is None or S is None else (int(L), F(str(S)))


def read_transition(t):
    """(resonance, spectator, decay products, production LS, decay LS), outer states.

    State IDs are replaced by their rank, so that the initial state is 0."""
    rank = {old: new for new, old in enumerate(sorted(t.topology.edges))}
    initial = [i for i, e in t.topology.edges.items() if e.originating_node_id is None]
    (inner,) = [
        i for i, e in t.topology.edges.items()
        if e.originating_node_id is not None and e.ending_node_id is not None
    ]
    (top,) = initial
    production = t.topology.edges[top].ending_node_id
    decay = t.topology.edges[inner].ending_node_id
    final = [i for i, e in t.topology.edges.items() if e.ending_node_id is None]
    (spectator,) = [
        rank[i] for i in final if t.topology.edges[i].originating_node_id == production
    ]
    products = tuple(sorted(
        rank[i] for i in final if t.topology.edges[i].originating_node_id == decay
    ))
    outer = {rank[i]: fields(t.states[i], rank[i]) for i in [top, *final]}
    return (
        fields(t.states[inner]), spectator, products,
        _ls(t.interactions[production]), _ls(t.interactions[decay]),
    ), outer


def read_chain(chain):
    """The same reading of a decay chain, through its public accessors."""
    children = tuple(p.index for p in chain.decay_products)
    return (
        dpd_fields(chain.resonance), chain.spectator.index, children,
        _ls(chain.incoming_ls), _ls(chain.outgoing_ls),
    )


def expect_min_ls(keys, nodes):
    """Keep the lowest (L, S) of each selected node per group of chains."""
    groups: dict = {}
    for key in keys:
        res, spectator, products, prod, dec = key
        other = tuple(
            (n, ls) for n, ls in ((0, prod), (1, dec)) if n not in nodes and ls is not None
        )
        groups.setdefault((res, spectator, products, other), []).append((prod, dec))
    out = set()
    for (res, spectator, products, _), members in groups.items():
        best = []
        for n in (0, 1):
            values = [m[n] for m in members]
            best.append(None if None in values else min(values))
        out.add((res, spectator, products, *best))
    return out
