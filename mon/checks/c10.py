"""Dynamics registry: history monitor against a dictionary model."""

from __future__ import annotations

import numpy as np
import sympy as sp

from mon import gen, ref
from mon import model as M

ID = "C10"
RULE = (
    "A case is one random decay (with resonances that share a name and chains with several"
    " LS couplings) and a random history of 30 registrations and look-ups by chain, by"
    " name, by unknown identifiers, on two builders of the same decay, interleaved with"
    " formulating models; every look-up and the dynamics in every amplitude is compared"
    " with a dictionary that records the last registration. Distinct: one history."
)
REQUIRED = {"register": 200, "lookup": 200, "amplitude": 200, "rejections": 60, "product": 60}
CHUNK = 2


def cases(tier):
    return 128 if tier == "quick" else 800


def tagged_builder(tag, log):
    from ampform_dpd import DefinedExpression

    def build(chain):
        log.append((tag, chain))
        name = chain.resonance.latex
        ls = (chain.incoming_ls, chain.outgoing_ls)
        symbol = sp.Symbol(f"d_{{{tag}}}", complex=True)
        k = chain.spectator.index
        sigma = sp.Symbol(f"sigma{k}", nonnegative=True)
        extra = sp.Symbol(f"x_{{{tag},{name},{ls}}}")
        return DefinedExpression(
            symbol * extra + sigma,
            {symbol: M.pseudo_complex("tag", tag), extra: M.pseudo_complex(name, str(ls))},
        )

    return build


def tagged_value(tag, c, kin):
    if tag is None:
        return np.ones(kin.n)
    from ampform_dpd.decay import LSCoupling

    ls = tuple(None if x is None else LSCoupling(x[0], gen.rational(x[1])) for x in (
        c.prod_ls, c.dec_ls
    ))
    value = M.pseudo_complex("tag", tag) * M.pseudo_complex(c.latex, str(ls))
    return value + kin.sigma[c.spectator]


def run(ctx):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    rng = ctx.rng
    small = [s for s in gen.SPIN_SETS if sum(map(ref.fr, s)) <= 2]
    spins = small[ctx.idx % len(small)]
    spec = gen.random_decay(rng, spins, max_chains=3, shared_names=True)
    for c in spec.chains:  # names without subsystem: the same resonance in two subsystems
        if rng.uniform() < 0.2 and all(
            o.spin == c.spin for o in spec.chains if o.name == "Shared"
        ):
            same = [
                o for o in spec.chains
                if o is not c and o.name == "Shared" and o.spectator == c.spectator
            ]
            if not same:
                c.name = "Shared"
    decay = gen.build_decay(spec)
    builders = [DalitzPlotDecompositionBuilder(decay, min_ls=False) for _ in range(2)]
    state = [dict.fromkeys(range(len(decay.chains))) for _ in builders]
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 4)
    log: list = []
    registered = {}
    history = []
    ctx.info = {"decay": spec.describe(), "history": history}
    n_steps = 30
    foreign = gen.build_decay(gen.random_decay(rng, spins, masses=(9.0, 1.0, 1.1, 1.2)))
    for step in range(n_steps):
        which = int(rng.integers(2))
        config = builders[which].dynamics_choices
        action = rng.choice(["chain", "name", "lookup", "bad", "formulate"], p=[
            0.3, 0.2, 0.3, 0.1, 0.1
        ])
        n = int(rng.integers(len(decay.chains)))
        chain = decay.chains[n]
        tag = f"b{step}"
        history.append(f"{which}:{action}:{n}")
        if action == "chain":
            registered[tag] = tagged_builder(tag, log)
            config.register_builder(chain, registered[tag])
            ctx.event("register")
            for m, other in enumerate(decay.chains):
                if other == chain:
                    state[which][m] = tag
        elif action == "name":
            registered[tag] = tagged_builder(tag, log)
            config.register_builder(chain.resonance.name, registered[tag])
            ctx.event("register")
            for m, other in enumerate(decay.chains):
                if other.resonance.name == chain.resonance.name:
                    state[which][m] = tag
        elif action == "lookup":
            _lookup(ctx, config, decay, n, state[which], registered)
        elif action == "bad":
            for call in (
                lambda x, c=config: c.register_builder(x, M.toy_builder),
                lambda x, c=config: c.get_builder(x),
            ):
                ctx.raises("unknown-name", (KeyError,), call, "No such resonance")
                ctx.raises("unknown-chain", (ValueError,), call, foreign.chains[0])
                ctx.raises("unknown-type", (NotImplementedError,), call, 3)
        else:
            _formulate(ctx, builders[which], spec, kin, state[which], log, registered)
    for which in (0, 1):
        for n in range(len(decay.chains)):
            _lookup(
                ctx, builders[which].dynamics_choices, decay, n, state[which], registered
            )
        _formulate(ctx, builders[which], spec, kin, state[which], log, registered)
        ctx.require(
            builders[which].dynamics_choices.decay == decay, "decay", "another decay"
        )
    ctx.distinct(spec.key(), tuple(history))
    ctx.sample({"history": history[:10], "chains": len(decay.chains)})
    _products(ctx, rng)


def _lookup(ctx, config, decay, n, state, registered):
    ctx.event("lookup")
    got = config.get_builder(decay.chains[n])
    tag = state[n]
    if tag is None:
        expr = got(decay.chains[n])
        ctx.require(
            expr.expression == 1 and not expr.parameters, "lookup",
            f"chain {n} without registration has dynamics {expr}",
        )
    else:
        ctx.require(
            got is registered[tag], "lookup", f"chain {n} does not get builder {tag}"
        )
    name = decay.chains[n].resonance.name
    first = next(m for m, c in enumerate(decay.chains) if c.resonance.name == name)
    if all(
        state[m] == state[first]
        for m, c in enumerate(decay.chains)
        if c.resonance.name == name
    ) and state[first] is not None:
        ctx.require(
            config.get_builder(name) is registered[state[first]], "lookup-by-name",
            f"look-up by name {name} does not give {state[first]}",
        )


def _formulate(ctx, builder, spec, kin, state, log, registered):
    log.clear()
    model = M.formulate(builder)
    tags = {id(c): state[n] for n, c in enumerate(spec.chains)}
    for tag, chain in log:
        n = [i for i, c in enumerate(builder.decay.chains) if c == chain]
        ctx.require(
            any(state[i] == tag for i in n), "called-for-other-chain",
            f"builder {tag} was called for chain {n}",
        )
    ev = M.evaluator(model, kin)
    amplitude = M.reference_amplitude(
        spec, kin, False, dynamics=lambda c, kin: tagged_value(tags[id(c)], c, kin)
    )
    for (label, indices), expr in ev.amplitudes.items():
        ctx.event("amplitude")
        exp = amplitude(int(label[-1]), indices)
        ctx.close(
            "dynamics-in-amplitude", ev(expr), exp, rtol=M.tolerance(spec), atol=1e-9,
            state=list(state.values()),
        )


def _products(ctx, rng):
    """Multiplying dynamics multiplies expressions and joins their parameters."""
    from ampform_dpd import DefinedExpression

    x, y, z = sp.symbols("x y z")
    a, b = (float(v) for v in rng.uniform(1, 2, 2))
    left = DefinedExpression(x + 1, {x: a})
    right = DefinedExpression(y**2, {y: b})
    ctx.event("product", 4)
    got = left * right
    ctx.require(
        got.expression == (x + 1) * y**2 and got.parameters == {x: a, y: b},
        "product", f"{got}",
    )
    got = left * (z, {z: 3.0})
    ctx.require(
        got.expression == (x + 1) * z and got.parameters == {x: a, z: 3.0},
        "product", f"{got}",
    )
    got = left * 2
    ctx.require(
        got.expression == 2 * (x + 1) and got.parameters == {x: a}, "product", f"{got}"
    )
    got = left * DefinedExpression(x, {x: b})
    ctx.require(
        got.expression == (x + 1) * x and got.parameters == {x: b}, "product", f"{got}"
    )
    for pair in ((x, {x: b}), [x, {x: b}]):  # short-hand for a DefinedExpression
        ctx.require(
            left * pair == got, "product", f"{left * pair} differs from {got}",
        )
    triple = left * right * DefinedExpression(z, {z: 3.0})
    ctx.require(
        triple.expression == (x + 1) * y**2 * z and triple.parameters == {x: a, y: b, z: 3.0},
        "product", f"{triple}",
    )
    spare = left * DefinedExpression(y, {y: b, z: 3.0})  # with a parameter that is not used
    ctx.require(spare.parameters == {x: a, y: b, z: 3.0}, "product", f"{spare}")
    ctx.require(
        left.parameters == {x: a} and right.parameters == {y: b}, "product-mutates",
        "a factor was changed by the product",
    )
    ctx.require(
        DefinedExpression().expression == 1 and not DefinedExpression().parameters,
        "default-dynamics", "default dynamics is not one",
    )
