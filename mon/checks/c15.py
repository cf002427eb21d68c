"""Decay and chain data structures: accept exactly consistent input, report it faithfully."""

from __future__ import annotations

import dataclasses
from itertools import permutations

import attrs
import sympy as sp

from mon import gen
from mon.ref import IJ, fr

ID = "C15"
RULE = (
    "A case is one random consistent decay, of which every accessor is compared with the"
    " generated description, followed by single-fault corruptions (a wrong particle,"
    " spin, index, type or topology in one place), each of which has to be rejected."
    " Distinct: (decay) and (kind of corruption, place)."
)
REQUIRED = {"decay": 50, "chain": 100, "rejections": 500, "sub-decay": 100}
CHUNK = 4


def cases(tier):
    return 480 if tier == "quick" else 8000


def run(ctx):  # noqa: PLR0915
    import warnings

    from ampform_dpd import decay as d

    rng = ctx.rng
    spec = gen.random_decay(rng, shared_names=True, max_chains=3, identical=False)
    states = gen.build_states(spec)
    chains = [gen.build_chain(spec, c, states) for c in spec.chains]
    order = [int(x) for x in rng.permutation(4)]
    given = [list, tuple, iter][int(rng.integers(3))](chains)
    decay = d.ThreeBodyDecay({i: states[i] for i in order}, given)
    ctx.info = {"decay": spec.describe()}
    ctx.sample(ctx.info)
    ctx.event("decay")
    ctx.distinct(spec.key())

    def check(ok, mechanism, message=""):
        ctx.require(bool(ok), mechanism, message or mechanism)

    check(isinstance(decay.chains, tuple) and list(decay.chains) == chains, "chains")
    check(decay.initial_state == states[0], "initial-state")
    check(dict(decay.final_state) == {i: states[i] for i in (1, 2, 3)}, "final-state")
    for i in range(4):
        s = states[i]
        check(
            s.index == i and s.name == spec.names[i] and s.latex == spec.latex[i]
            and fr(s.spin) == spec.spins[i] and s.parity == spec.parities[i]
            and s.mass == spec.masses[i],
            "state-attributes",
        )
    for c, chain in zip(spec.chains, chains):
        k = c.spectator
        i, j = IJ[k]
        first, second = (j, i) if c.swap_dec else (i, j)
        ctx.event("chain")
        r = chain.resonance
        check(
            (r.name, r.latex, fr(r.spin), r.parity, r.mass, r.width)
            == (c.name, c.latex, c.spin, c.parity, c.mass, c.width),
            "resonance", f"{r}",
        )
        check(isinstance(r.spin, sp.Rational), "spin-type")
        check(chain.spectator == states[k], "spectator", f"{chain.spectator}")
        check(chain.decay_products == (states[first], states[second]), "decay-products")
        check(tuple(chain.final_state) == tuple(states[x] for x in (1, 2, 3)), "chain-final")
        check(chain.initial_state == chain.parent == states[0], "chain-initial")
        check(chain.production_node == chain.decay, "production-node")
        check(chain.decay_node.parent == r, "decay-node")
        check(
            set(chain.decay.children) == {chain.decay_node, states[k]}
            and chain.decay.children == (chain.decay.child1, chain.decay.child2),
            "children",
        )
        for ls, got in ((c.prod_ls, chain.incoming_ls), (c.dec_ls, chain.outgoing_ls)):
            ok = got is None if ls is None else (int(got.L), fr(got.S)) == ls
            check(ok, "ls", f"{got} instead of {ls}")
        check(d.to_particle(chain.decay_node) == r, "to-particle")
        check(d.to_particle(states[k]) is states[k], "to-particle")
        check(d.get_decay_product_ids(k) == (i, j), "decay-product-ids")
        again = gen.build_chain(spec, c)
        check(again == chain and hash(again) == hash(chain), "equality")
        names = [x.resonance.name for x in chains]
        found = decay.find_chain(c.name)
        check(found == chains[names.index(c.name)], "find-chain", f"{c.name}")
    for k in (1, 2, 3):
        ctx.event("sub-decay")
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            sub = decay.get_subsystem(k)
        want = [ch for ch, c in zip(chains, spec.chains) if c.spectator == k]
        check(list(sub.chains) == want, "subsystem-chains", f"subsystem {k}")
        check(sub.states == decay.states, "subsystem-states")
        check(bool(caught) == (not want), "subsystem-warning", f"subsystem {k}")
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            nothing = type(decay)(decay.states, ()).get_subsystem(k)
        check(nothing.chains == () and bool(caught), "subsystem-warning", "no chains at all")
    aligned = [
        gen.build_chain(spec, dataclasses.replace(c, swap_prod=False), states)
        for c in spec.chains
    ]
    ordered = sorted(aligned)
    check(
        ordered == sorted(reversed(aligned)) and set(ordered) == set(aligned)
        and all(a <= b for a, b in zip(ordered, ordered[1:])),
        "ordering",
    )
    for obj, field in ((decay, "chains"), (chains[0], "decay"), (states[1], "mass")):
        ctx.raises(
            "frozen", (attrs.exceptions.FrozenInstanceError,), setattr, obj, field, None
        )
    _corrupt(ctx, rng, d, spec, states, chains)


def _corrupt(ctx, rng, d, spec, states, chains):
    def reject(kind, exceptions, function, *args):
        ctx.distinct("corruption", kind)
        ctx.raises(f"accepts-{kind}", exceptions, function, *args)

    ctx.raises("find-chain-unknown", (KeyError,), d.ThreeBodyDecay(states, chains).find_chain, "x")
    taken = {c.name for c in spec.chains}
    decay = d.ThreeBodyDecay(states, chains)
    for c in spec.chains:  # a name is a name
        for word in (
            c.latex, c.name[:-1], c.name[1:], c.name + "x", "x" + c.name, c.name.swapcase(),
            c.name + " ", "", spec.names[0], spec.names[1], c.name[0],
        ):
            if word not in taken:
                ctx.distinct("corruption", "find-chain")
                ctx.raises("find-chain-unknown", (KeyError,), decay.find_chain, word)
    for k in (0, 4, -1):
        ctx.raises("decay-product-ids", (ValueError,), d.get_decay_product_ids, k)
    # a state in the decay that differs from the one in (some of) the chains
    changes = {
        "name": "other", "latex": "other", "spin": sp.Rational(7, 2), "parity": None,
        "mass": 17.0, "width": 3.0,
    }
    for i in range(4):
        for field, value in changes.items():
            other = dict(states)
            other[i] = attrs.evolve(states[i], **{field: value})
            reject(f"state-{field}-{min(i, 1)}", (ValueError,), d.ThreeBodyDecay, other, chains)
            # the other way round: only one chain is off
            n = int(rng.integers(len(chains)))
            odd = list(chains)
            odd[n] = gen.build_chain(spec, spec.chains[n], other)
            reject(f"chain-{field}-{min(i, 1)}", (ValueError,), d.ThreeBodyDecay, states, odd)
    for a, b in permutations((1, 2, 3), 2):  # exchanged labels
        other = dict(states)
        other[a] = attrs.evolve(states[b], index=a)
        other[b] = attrs.evolve(states[a], index=b)
        n = int(rng.integers(len(chains)))
        odd = list(chains)
        odd[n] = gen.build_chain(spec, spec.chains[n], other)
        reject("exchanged-labels", (ValueError,), d.ThreeBodyDecay, states, odd)
    c = spec.chains[int(rng.integers(len(chains)))]
    for i, j in permutations(range(4), 2):  # the same index twice
        other = dict(states)
        other[i] = attrs.evolve(states[i], index=j)
        reject("duplicate-index", (ValueError,), gen.build_chain, spec, c, other)
    particle = d.Particle("x", "x", 0, 1, 1.0, 0.0)
    for i in range(4):  # no index at all
        other = dict(states)
        other[i] = particle
        reject("no-index", (ValueError, TypeError, AttributeError), gen.build_chain, spec, c, other)
    node = d.IsobarNode(particle, states[1], states[2])
    reject(
        "two-isobars", (ValueError, TypeError), d.ThreeBodyDecayChain,
        d.IsobarNode(states[0], node, node),
    )
    reject(
        "no-isobar", (ValueError, TypeError), d.ThreeBodyDecayChain,
        d.IsobarNode(states[0], states[1], states[2]),
    )
    for bad in (states[0], None, "x"):
        reject("no-node", (TypeError, ValueError), d.ThreeBodyDecayChain, bad)
    for spin in (sp.Rational(1, 3), 0.25, "2/3"):
        reject("spin", (ValueError,), d.Particle, "x", "x", spin, 1, 1.0, 0.0)
        reject("ls-spin", (ValueError,), d.LSCoupling, 1, spin)
    for bad in ([1, 0.5], 3, "P"):
        reject(
            "interaction", (TypeError, ValueError), d.IsobarNode, particle, states[1],
            states[2], bad,
        )
    good = d.IsobarNode(particle, states[1], states[2], (1, 0.5))
    ctx.require(
        good.interaction == d.LSCoupling(1, sp.Rational(1, 2)), "ls-conversion", f"{good}"
    )
    for given in (d.LSCoupling(1, 0.5), None):
        node = d.IsobarNode(particle, states[1], states[2], given)
        ctx.require(node.interaction == given, "ls-conversion", f"{given} became {node}")
