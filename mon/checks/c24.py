"""The documented analysis workflow computes the intensity of the model."""

from __future__ import annotations

import numpy as np
import sympy as sp

from mon import gen, ref
from mon import model as M
from mon.evalx import indexed_key

ID = "C24"
RULE = (
    "A case takes one random decay through the workflow of the documentation: builder,"
    " cached unfolding, substitution of fixed parameters, third invariant and angles"
    " computed from two invariants and the default masses, compiled JAX or NumPy"
    " function with free couplings. The function is evaluated at its defaults, after"
    " random updates of the couplings and with all resonances but one switched off,"
    " and compared with an independent spinor evaluation of the same decay. Distinct:"
    " (spins, chains, options, backend)."
)
REQUIRED = {"compiled": 15, "updated": 30, "isolated": 20, "restored": 15}
SPINS = [
    (0, 0, 0, 0), (1, 0, 0, 0), ("1/2", "1/2", 0, 0), ("1/2", 0, "1/2", 0),
    ("1/2", 0, 0, "1/2"), (0, 1, 0, 0), (0, "1/2", "1/2", 0), ("3/2", "1/2", 0, 0),
    (0, "1/2", 0, "1/2"), (2, 0, 0, 0), (1, 0, 1, 0), (1, "1/2", "1/2", 0),
]


def cases(tier):
    return 24 if tier == "quick" else 260


def run(ctx):
    from tensorwaves.data import SympyDataTransformer

    from ampform_dpd.io import cached

    rng = ctx.rng
    spins = SPINS[ctx.idx % (9 if ctx.tier == "quick" else len(SPINS))]
    spec = gen.random_decay(
        rng, spins, massless=False, max_chains=1 + ctx.idx % 2, max_spin=gen.F(3, 2),
    )
    min_ls = [True, False, (True, False), (False, True)][int(rng.integers(4))]
    gen.drop_ls(rng, spec, min_ls)
    reference = int(rng.choice(spec.subsystems))
    backend = ["jax", "numpy"][int(rng.integers(2))]
    cleanup = bool(rng.integers(2))
    ctx.info = {
        "decay": spec.describe(), "min_ls": min_ls, "reference": reference,
        "backend": backend, "cleanup": cleanup,
    }
    ctx.sample(ctx.info)
    ctx.distinct(spec.key(), min_ls, reference, backend, cleanup)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 6)
    model = M.formulate(
        M.make_builder(spec, min_ls=min_ls), reference, cleanup_summations=cleanup
    )
    # two invariants are data; everything else follows from the model
    k = int(rng.integers(1, 4))
    sigma = {int(str(s)[-1]): s for s in model.invariants}
    definitions = dict(model.variables)
    definitions[sigma[k]] = model.invariants[sigma[k]]
    definitions = {
        s: e.xreplace(definitions).xreplace(model.masses) for s, e in definitions.items()
    }
    data = {f"sigma{i}": kin.sigma[i] for i in (1, 2, 3) if i != k}
    transform = SympyDataTransformer.from_sympy(definitions, backend=backend)
    data.update(transform(data))
    data = {name: np.asarray(v) for name, v in data.items()}
    usable = np.ones(kin.n, dtype=bool)
    for v in data.values():  # rounding may take arccos(1 + 1e-16) out of its domain
        usable &= np.isfinite(np.broadcast_to(v, (kin.n,)))
    if not usable.all():
        ctx.event("edge-points", int((~usable).sum()))
    if not usable.any():
        return

    free = {s: v for s, v in model.parameter_defaults.items() if isinstance(s, sp.Indexed)}
    zeros = set()
    if ctx.idx % 3 == 0:  # fits start with some resonances switched off
        zeros = {s for s in free if rng.integers(3) == 0}
        free.update({s: [0, 0.0, 0j][int(rng.integers(3))] for s in zeros})
    off = {indexed_key(s) for s in zeros}
    fixed = {s: v for s, v in model.parameter_defaults.items() if s not in free}
    expr = cached.xreplace(cached.unfold(model), fixed)
    func = cached.lambdify(expr, parameters=free, backend=backend)
    ctx.event("compiled")
    names = {s: str(s) for s in free}
    original = dict(func.parameters)
    ctx.require(
        original == {names[s]: v for s, v in free.items()},
        "parameters", "function does not have the free parameters", observed=original,
    )
    tol = dict(rtol=M.tolerance(spec), atol=1e-9)

    def judge(what, spec, couplings):
        got = np.broadcast_to(np.asarray(func(data), dtype=complex), (kin.n,))
        expected = M.reference_intensity(
            spec, kin, min_ls, reference, couplings=couplings
        )
        ctx.event(what)
        ctx.close(what, got[usable], np.asarray(expected)[usable], **tol)

    judge("default", spec, lambda label, indices: 0.0 if (label, indices) in off else 1.0)
    for n in range(2):
        salt = int(rng.integers(1000))

        def couplings(label, indices, salt=salt):
            return M.coupling_value(label, (*indices, salt))

        func.update_parameters({
            names[s]: couplings(*indexed_key(s)) for s in free
        })
        judge("updated", spec, couplings)
    # switch off all resonances but one
    before = dict(func.parameters)
    for c in spec.chains:
        others = {
            name: 0 for s, name in names.items() if indexed_key(s)[1][0] != c.latex
        }
        func.update_parameters(others)
        alone = gen.DecaySpec(
            spec.spins, spec.masses, spec.parities, spec.names, spec.latex, [c]
        )
        judge("isolated", alone, couplings)
        func.update_parameters(before)
    judge("restored", spec, couplings)
    # a second function of the same model starts from the defaults again
    again = cached.lambdify(expr, parameters=free, backend=backend)
    ctx.require(
        again.parameters == original, "fresh-parameters",
        "new function does not start from its defaults", observed=again.parameters,
    )
