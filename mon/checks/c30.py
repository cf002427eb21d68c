"""Copies and pickles are equal to the original, work like it and are independent."""

from __future__ import annotations

import copy
import os
import pickle
import subprocess
import sys

import attrs
import cloudpickle
import numpy as np
import sympy as sp

from mon import gen, ref, ser
from mon import model as M
from mon.checks.c09 import digest

ID = "C30"
RULE = (
    "A case takes one random decay, its builder and models, its dynamics, one serialized"
    " model and unfolded expressions; each object is copied, deep-copied, pickled with"
    " every protocol and sent through another process, and every copy is compared with"
    " the original, evaluated and used on. Distinct: (object, way of copying, decay)."
)
REQUIRED = {
    "copied": 600, "evaluated": 80, "process": 4, "builder": 40, "independent": 40,
}
WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle": lambda x: pickle.loads(pickle.dumps(x)),
    "protocol-2": lambda x: pickle.loads(pickle.dumps(x, protocol=2)),
    "cloudpickle": lambda x: cloudpickle.loads(cloudpickle.dumps(x)),
}


def cases(tier):
    return 40 if tier == "quick" else 500


def descriptions(ctx, decay):
    chain = decay.chains[int(ctx.rng.integers(len(decay.chains)))]
    objects = [
        decay, chain, chain.production_node, chain.decay_node, chain.resonance,
        decay.initial_state, *decay.final_state.values(), chain.incoming_ls, chain.outgoing_ls,
    ]
    for obj in objects:
        for name, way in WAYS.items():
            ctx.event("copied")
            other = way(obj)
            ctx.require(
                type(other) is type(obj) and other == obj and repr(other) == repr(obj),
                "description", f"{name} of {type(obj).__name__} is not equal to it",
                original=obj, copied=other,
            )
            if attrs.has(type(obj)) and type(obj) is not type(decay):
                ctx.require(
                    hash(other) == hash(obj) and {obj: 1}.get(other) == 1,
                    "description-hash", f"{name} of {type(obj).__name__} has another hash",
                )
            evolved = attrs.evolve(other)
            ctx.require(evolved == obj, "evolve", f"evolved {type(obj).__name__} differs")
    p = chain.resonance
    ctx.require(
        attrs.evolve(p, mass=p.mass + 1) != p
        and attrs.evolve(p, mass=p.mass + 1).width == p.width,
        "evolve", "changing the mass of a particle has no or another effect",
    )
    for name, way in WAYS.items():
        other = way(decay)
        for k in {c.spectator.index for c in decay.chains}:
            ctx.require(
                other.get_subsystem(k) == decay.get_subsystem(k), "description",
                f"{name} of a decay has another subsystem {k}",
            )
        for c in decay.chains:
            ctx.require(
                other.find_chain(c.resonance.name) == decay.find_chain(c.resonance.name),
                "description", f"{name} of a decay finds other chains",
            )


def models(ctx, model, kin, what, ways):
    expected = M.intensity(model, kin)
    for name, way in ways.items():
        other = way(model)
        ctx.event("copied")
        ctx.event("evaluated")
        ctx.distinct(what, name, ctx.idx)
        ctx.require(
            other == model and digest(other) == digest(model), f"{what}-model",
            f"{name} of a model is not equal to it",
        )
        ctx.close(
            f"{what}-intensity", M.intensity(other, kin), expected, rtol=1e-9, atol=1e-14,
            way=name,
        )
        if name != "copy":
            before = digest(model)
            for table in (other.parameter_defaults, other.variables, other.amplitudes):
                table.clear()
            ctx.event("independent")
            ctx.require(digest(model) == before, "shared-state", f"{name} shares its tables")


def builders(ctx, builder, spec, reference):
    expected = digest(M.formulate(builder, reference))
    for name in ("deepcopy", "cloudpickle"):
        other = WAYS[name](builder)
        ctx.event("builder")
        ctx.require(
            digest(M.formulate(other, reference)) == expected, "builder",
            f"{name} of a builder makes another model",
        )
        # registering with one builder does not affect the other
        for c in other.decay.chains:
            other.dynamics_choices.register_builder(
                c, lambda chain: M.toy_builder(chain) * M.toy_builder(chain)
            )
        ctx.event("independent")
        ctx.require(
            digest(M.formulate(builder, reference)) == expected, "shared-builder",
            f"registering dynamics with a {name} affects the original",
        )


def expressions(ctx, spec, decay, kin):
    from ampform_dpd.dynamics.builder import BreitWignerBuilder

    rng = ctx.rng
    chain = decay.chains[int(rng.integers(len(decay.chains)))]
    builder = BreitWignerBuilder(*(bool(b) for b in rng.integers(0, 2, 3)))
    defined = builder(chain)
    values = kin.symbols()
    from mon.evalx import Evaluator, symbol_table

    ev = Evaluator({**values, **symbol_table(defined.parameters)})
    expected = np.asarray(ev(defined.expression), dtype=complex)
    for name, way in WAYS.items():
        other = way(defined)
        ctx.event("copied")
        ctx.event("evaluated")
        ctx.require(
            other == defined and sp.srepr(other.expression) == sp.srepr(defined.expression),
            "dynamics", f"{name} of dynamics is not equal to it",
        )
        ctx.close(
            "dynamics", np.asarray(ev(other.expression), dtype=complex), expected, rtol=1e-12,
            atol=1e-14, way=name,
        )
        unfolded = way(defined.expression.doit())
        ctx.require(
            unfolded == defined.expression.doit(), "unfolded", f"{name} of unfolded dynamics",
        )
        if name in {"deepcopy", "cloudpickle", "pickle", "protocol-2"}:
            before = dict(other.parameters)
            other.parameters.clear()
            ctx.event("independent")
            ctx.require(
                dict(defined.parameters) == before, "shared-dynamics",
                f"{name} of dynamics shares its parameters",
            )
        ctx.require(
            way(builder) == builder, "dynamics-builder",
            f"{name} of a dynamics builder is not equal to it",
        )
        ctx.require(
            way(builder)(chain) == defined, "dynamics-builder",
            f"{name} of a dynamics builder builds something else",
        )


def elsewhere(ctx, model, kin, decay, spec):
    """Send a model to another process, which evaluates it and sends it back."""
    script = (
        "import sys, pickle\n"
        "from mon import model as M\n"
        "from mon.checks.c09 import digest\n"
        "model, kin, decay, spec = pickle.load(sys.stdin.buffer)\n"
        "from mon import gen\n"
        "mine = gen.build_decay(spec)\n"
        "one = lambda d: [d.initial_state, *d.final_state.values(), *d.chains, *(x for c in d.chains"
        " for x in (c.production_node, c.decay_node, c.resonance, c.incoming_ls, c.outgoing_ls))]\n"
        "same = [a == b and hash(a) == hash(b) and a in {b} for a, b in zip(one(decay), one(mine))]\n"
        "b = M.make_builder(spec)\n"
        "work = all(b.dynamics_choices.get_builder(c)(c) == M.toy_builder(c) for c in decay.chains)\n"
        "out = (model, digest(model), M.intensity(model, kin), same, work)\n"
        "sys.stdout.buffer.write(b'RESULT ' + pickle.dumps(out))\n"
    )
    done = subprocess.run(  # noqa: S603
        [sys.executable, "-W", "ignore", "-c", script], input=pickle.dumps((model, kin, decay, spec)),
        capture_output=True, env={**os.environ, "PYTHONHASHSEED": str(ctx.idx)}, check=False,
    )
    _, found, payload = done.stdout.partition(b"RESULT ")
    ctx.event("process")
    if not ctx.require(
        bool(found), "process", f"another process cannot use it: {done.stderr[-400:]!r}"
    ):
        return
    other, their_digest, values, same, work = pickle.loads(payload)  # noqa: S301
    ctx.require(
        all(same), "process-hash",
        "what arrives in another process differs from, or hashes unlike, what is made there",
        same=same,
    )
    ctx.require(work, "process-lookup", "chains that arrive in another process are not found there")
    ctx.require(
        other == model and their_digest == digest(model) == digest(other), "process",
        "a model differs after being sent through another process",
    )
    ctx.close("process", values, M.intensity(model, kin), rtol=1e-9, atol=1e-14)


def run(ctx):
    from ampform_dpd.io.serialization.amplitude import formulate

    rng = ctx.rng
    spec = gen.random_decay(
        rng, gen.SPIN_SETS[ctx.idx % len(gen.SPIN_SETS)], max_chains=2, max_spin=gen.F(3, 2)
    )
    min_ls = [True, False, (True, False), (False, True)][int(rng.integers(4))]
    reference = int(rng.choice(spec.subsystems))
    ctx.info = {"decay": spec.describe(), "min_ls": min_ls, "reference": reference}
    ctx.sample(ctx.info)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 4)
    decay = gen.build_decay(spec)
    descriptions(ctx, decay)
    builder = M.make_builder(spec, min_ls=min_ls)
    model = M.formulate(
        builder, reference, use_coefficients=bool(rng.integers(2)),
        cleanup_summations=bool(rng.integers(2)),
    )
    keep = list(WAYS)[ctx.idx % 2 :: 2]
    models(ctx, model, kin, "builder", {k: WAYS[k] for k in keep})
    builders(ctx, builder, spec, reference)
    expressions(ctx, spec, decay, kin)
    if ctx.idx < 6:
        elsewhere(ctx, model, kin, decay, spec)
    if ctx.idx % 3 == 0:
        given = ser.random_model(rng, shared_radii=True, unique_weights=True)
        point = ref.random_kinematics(rng, given.masses[0], given.masses[1:], 4)
        model = formulate(
            given.definition, additional_builders={"Custom": ser.custom_builder}
        )
        models(ctx, model, point, "serialized", {k: WAYS[k] for k in keep})
