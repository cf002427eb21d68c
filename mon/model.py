"""Drive the model builder and evaluate what it returns; build the matching reference."""

from __future__ import annotations

import hashlib
import warnings

import numpy as np
import sympy as sp

from mon import ref
from mon.evalx import Evaluator, symbol_table
from mon.gen import DecaySpec, build_decay
from mon.ref import IJ, fr


def pseudo_complex(*key) -> complex:
    """Deterministic generic complex number per key."""
    h = hashlib.md5(repr(key).encode()).digest()
    a, b = int.from_bytes(h[:4], "big") / 2**32, int.from_bytes(h[4:8], "big") / 2**32
    return complex(0.3 + a, 0) * complex(np.cos(6.283 * b), np.sin(6.283 * b))


def coupling_value(label: str, indices: tuple) -> complex:
    """Value for one indexed coupling of the model, a function of its own identity."""
    kind = "prod" if "production" in label else "dec" if "decay" in label else "chain"
    basis = "LS" if "LS" in label else "hel"
    return pseudo_complex(kind, basis, indices)


def toy_builder(chain):
    """Complex σ-dependent dynamics that is unique per chain name (user-made builder)."""
    from ampform_dpd import DefinedExpression

    k = chain.spectator.index
    s = sp.Symbol(f"sigma{k}", nonnegative=True)
    mass = sp.Symbol(f"M_{{{chain.resonance.latex}}}", nonnegative=True)
    width = sp.Symbol(f"W_{{{chain.resonance.latex}}}", nonnegative=True)
    return DefinedExpression(
        1 / (mass**2 - s - sp.I * mass * width),
        {mass: chain.resonance.mass, width: chain.resonance.width},
    )


def toy_value(c, kin):
    return 1 / (c.mass**2 - kin.sigma[c.spectator] - 1j * c.mass * c.width)


def make_builder(spec: DecaySpec, *, min_ls=True, all_subsystems=False, dynamics=toy_builder):
    from ampform_dpd import DalitzPlotDecompositionBuilder

    decay = build_decay(spec)
    builder = DalitzPlotDecompositionBuilder(
        decay, min_ls=min_ls, all_subsystems=all_subsystems
    )
    if dynamics is not None:
        for chain in decay.chains:
            builder.dynamics_choices.register_builder(chain, dynamics)
    return builder


def formulate(builder, *args, **kwargs):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return builder.formulate(*args, **kwargs)


def evaluator(model, kin, *, couplings=coupling_value, extra=None, use_defaults=True):
    values = symbol_table(model.parameter_defaults) if use_defaults else {}
    values.update(kin.symbols())
    values.update(extra or {})
    return Evaluator(
        values,
        couplings=couplings,
        definitions=model.variables,
        amplitudes=model.amplitudes,
    )


def intensity(model, kin, **kwargs):
    ev = evaluator(model, kin, **kwargs)
    val = ev(model.intensity)
    return np.broadcast_to(np.asarray(val, dtype=complex), (kin.n,))


# ----------------------------------------------------------------- reference
def h_functions(spec: DecaySpec, c, min_ls, couplings=coupling_value, coefficient=None):
    """Helicity couplings of chain `c` as functions of helicities, in (i, j) order."""
    prod_hel, dec_hel = (min_ls, min_ls) if isinstance(min_ls, bool) else min_ls
    k = c.spectator
    i, j = IJ[k]
    ji, jj, jk, j0 = spec.spins[i], spec.spins[j], spec.spins[k], spec.spins[0]

    def h_prod(lr, lk):
        if prod_hel:
            return couplings(r"\mathcal{H}^\mathrm{production}", (c.latex, lr, lk))
        el, s = c.prod_ls
        value = couplings(r"\mathcal{H}^\mathrm{LS,production}", (c.latex, fr(el), fr(s)))
        swap = ref.sign(el + s - j0) if c.swap_prod else 1
        return value * swap * ref.ls_to_helicity(el, s, j0, c.spin, lr, jk, lk)

    def h_dec(li, lj):
        if dec_hel:
            return couplings(r"\mathcal{H}^\mathrm{decay}", (c.latex, li, lj))
        el, s = c.dec_ls
        value = couplings(r"\mathcal{H}^\mathrm{LS,decay}", (c.latex, fr(el), fr(s)))
        swap = ref.sign(el + s - c.spin) if c.swap_dec else 1
        return value * swap * ref.ls_to_helicity(el, s, c.spin, ji, li, jj, lj)

    return h_prod, h_dec


def reference_amplitude(spec, kin, min_ls, *, couplings=coupling_value, dynamics=toy_value):
    """Function (k, λ) → A^k summed over the chains of subsystem k."""
    dyn = {id(c): np.asarray(dynamics(c, kin)) * np.ones(kin.n) for c in spec.chains}
    hs = {id(c): h_functions(spec, c, min_ls, couplings) for c in spec.chains}

    def amplitude(k, lam):
        total = np.zeros(kin.n, dtype=complex)
        for c in spec.chains:
            if c.spectator == k:
                total = total + ref.chain_amplitude(
                    kin, k, spec.spins, c.spin, lam, *hs[id(c)], dyn[id(c)]
                )
        return total

    return amplitude


def reference_intensity(spec, kin, min_ls, reference, **kwargs):
    amp = reference_amplitude(spec, kin, min_ls, **kwargs)
    return ref.total_intensity(kin, spec.spins, amp, spec.subsystems, reference)


def tolerance(spec) -> float:
    """Relative tolerance: rounding in the invariants is amplified by tiny masses."""
    return 1e-3 if min(spec.masses) < 1e-2 else 1e-5
