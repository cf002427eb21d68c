"""Vectorized numerical interpreter for the expressions of an amplitude model.

It evaluates the *returned* SymPy trees node by node: sums over helicities, Wigner
functions, Clebsch-Gordan coefficients, and unfolds expression classes through their
public `evaluate()`.  Unknown node types fall back to `doit()` and `sympy.lambdify`.
"""

from __future__ import annotations

from fractions import Fraction as F
from itertools import product

import numpy as np
import sympy as sp
from ampform.sympy import PoolSum
from sympy.physics.quantum.cg import CG
from sympy.physics.quantum.spin import WignerD

from mon.ref import cg, fr, wigner_d


class Undefined(LookupError):
    """A symbol of the model has no definition and no default value."""


class Evaluator:
    def __init__(self, values, couplings=None, definitions=None, amplitudes=None):
        """Prepare evaluation.

        `values` maps symbols or names to numbers or arrays; `couplings` is a function of
        (label, indices) or a dict for indexed parameters; `definitions` maps symbols to
        expressions; `amplitudes` maps indexed amplitude symbols to expressions.
        """
        self.values = {}
        for k, v in values.items():
            self.values[k if isinstance(k, str) else str(k.name)] = v
        self.couplings = couplings or {}
        self.definitions = {k: v for k, v in (definitions or {}).items()}
        self.amplitudes = {
            indexed_key(k): v for k, v in (amplitudes or {}).items()
        }
        self.used_symbols: set[str] = set()
        self.used_couplings: set = set()
        self.used_amplitudes: set = set()
        self._memo: dict = {}
        self._free: dict = {}

    # ------------------------------------------------------------------
    def free_names(self, e) -> frozenset:
        got = self._free.get(e)
        if got is None:
            if isinstance(e, sp.Symbol):
                got = frozenset([e])
            elif isinstance(e, sp.Basic) and e.args:
                got = frozenset().union(*(self.free_names(a) for a in e.args))
            else:
                got = frozenset()
            self._free[e] = got
        return got

    def __call__(self, e, idx=None):
        e = sp.sympify(e)
        return self._ev(e, idx or {})

    def _ev(self, e, idx):
        if e.is_Number:
            return complex(e) if e.is_real is False else float(e)
        if idx:
            free = self.free_names(e)
            key = (e, tuple((k, v) for k, v in idx.items() if k in free))
        else:
            key = (e, ())
        if key in self._memo:
            return self._memo[key]
        out = self._eval_node(e, idx)
        self._memo[key] = out
        return out

    def exact(self, e, idx) -> F | None:
        """Evaluate a helicity-like expression exactly."""
        e = sp.sympify(e)
        if idx:
            e = e.xreplace({k: sp.Rational(v.numerator, v.denominator) for k, v in idx.items()})
        e = e.doit() if not e.is_Number else e
        if isinstance(e, sp.Float):
            e = sp.nsimplify(e)
        if isinstance(e, (sp.Rational, sp.Integer)):
            return F(int(e.p), int(e.q))
        return None

    def _eval_node(self, e, idx):  # noqa: C901, PLR0911, PLR0912
        if isinstance(e, sp.Symbol):
            if e in idx:
                return float(idx[e])
            if e in self.definitions:
                self.used_symbols.add(e.name)
                return self._ev(sp.sympify(self.definitions[e]), {})
            if e.name in self.values:
                self.used_symbols.add(e.name)
                return self.values[e.name]
            raise Undefined(str(e))
        if e is sp.I:
            return 1j
        if isinstance(e, sp.NumberSymbol):
            return float(e)
        if isinstance(e, sp.Add):
            return sum(self._ev(a, idx) for a in e.args)
        if isinstance(e, sp.Mul):
            out = 1.0
            for a in sorted(e.args, key=_cost):
                val = self._ev(a, idx)
                if np.isscalar(val) and val == 0:
                    return 0.0
                out = out * val
            return out
        if isinstance(e, sp.Pow):
            base, exponent = e.args
            exact = self.exact(exponent, idx) if not exponent.is_Number else fr(exponent)
            b = self._ev(base, idx)
            if exact is not None and exact.denominator == 1:
                n = int(exact)
                return (1.0 / b ** (-n)) if n < 0 else b**n
            if exact is not None and exact.denominator == 2:
                r = np.sqrt(np.asarray(b, dtype=complex))
                n = int(2 * exact)
                return 1 / r ** (-n) if n < 0 else r**n
            return np.asarray(b, dtype=complex) ** self._ev(exponent, idx)
        if isinstance(e, sp.Abs):
            return np.abs(self._ev(e.args[0], idx))
        if isinstance(e, sp.acos):
            x = np.asarray(self._ev(e.args[0], idx))
            if np.iscomplexobj(x):
                x = np.where(np.abs(x.imag) < 1e-12, x.real, np.nan)
            x = np.where(np.abs(x) > 1 + 1e-6, np.nan, np.clip(x, -1, 1))
            return np.arccos(x)
        if isinstance(e, PoolSum):
            return self._pool_sum(e, idx)
        if isinstance(e, sp.KroneckerDelta):
            a, b = (self.exact(x, idx) for x in e.args[:2])
            if a is not None and b is not None:
                return 1.0 if a == b else 0.0
        if isinstance(e, WignerD):
            j, m, mp, alpha, beta, gamma = e.args
            jj, mm, nn = (self.exact(x, idx) for x in (j, m, mp))
            if alpha == 0 and gamma == 0 and None not in {jj, mm, nn}:
                return wigner_d(jj, mm, nn, np.real(self._ev(beta, idx)))
        if isinstance(e, CG):
            args = [self.exact(x, idx) for x in e.args]
            if None not in args:
                return cg(*args)
        if isinstance(e, sp.Indexed):
            return self._indexed(e, idx)
        if isinstance(e, sp.Piecewise):
            return self._piecewise(e, idx)
        if isinstance(e, (sp.core.relational.Relational, sp.logic.boolalg.Boolean)):
            return self._condition(e, idx)
        if hasattr(e, "evaluate"):
            return self._ev(sp.sympify(e.evaluate()), idx)
        return self._fallback(e, idx)

    def _pool_sum(self, e, idx):
        expression, *pools = e.args
        names = [p[0] for p in pools]
        values = [[fr(v) for v in p[1]] for p in pools]
        total = 0.0
        for combo in product(*values):
            total = total + self._ev(expression, {**idx, **dict(zip(names, combo))})
        return total

    def _indexed(self, e, idx):
        label = str(e.base.label)
        indices = []
        for i in e.indices:
            exact = self.exact(i, idx) if i.is_Number or i.free_symbols & set(idx) else None
            indices.append(str(i) if exact is None else exact)
        key = (label, tuple(indices))
        if key in self.amplitudes:
            self.used_amplitudes.add(key)
            return self._ev(sp.sympify(self.amplitudes[key]), {})
        self.used_couplings.add(key)
        if callable(self.couplings):
            return self.couplings(label, tuple(indices))
        if key not in self.couplings:
            raise Undefined(str(key))
        return self.couplings[key]

    def _piecewise(self, e, idx):
        out = np.nan
        for value, condition in reversed(e.args):
            holds = self._condition(condition, idx)
            if np.all(holds):
                out = self._ev(value, idx)
            elif np.any(holds):
                out = np.where(holds, self._ev(value, idx), out)
        return out

    def _condition(self, e, idx):
        if e in {sp.true, sp.false}:
            return bool(e)
        if isinstance(e, sp.core.relational.Relational):
            a, b = (np.asarray(self._ev(x, idx)) for x in e.args)
            if not isinstance(e, (sp.Eq, sp.Ne)):
                a, b = np.real(a), np.real(b)
            return RELATIONS[type(e)](a, b)
        args = [self._condition(a, idx) for a in e.args]
        if isinstance(e, sp.Not):
            return np.logical_not(args[0])
        combine = np.logical_and if isinstance(e, sp.And) else np.logical_or
        return combine.reduce(np.broadcast_arrays(*args))

    def _fallback(self, e, idx):
        done = e.doit()
        if done != e:
            return self._ev(done, idx)
        args = [self._ev(a, idx) for a in e.args]
        dummies = [sp.Dummy() for _ in args]
        func = sp.lambdify(dummies, e.func(*dummies), "numpy")
        return func(*args)


RELATIONS = {
    sp.Eq: np.equal, sp.Ne: np.not_equal, sp.Lt: np.less, sp.Le: np.less_equal,
    sp.Gt: np.greater, sp.Ge: np.greater_equal,
}


def _cost(e):
    if isinstance(e, sp.KroneckerDelta):
        return 0
    if e.is_Number:
        return 1
    if isinstance(e, CG):
        return 2
    return 3


def indexed_key(e):
    """(label, indices) of an indexed symbol, with exact numbers for helicities."""
    out = []
    for i in e.indices:
        if i.is_Number:
            out.append(fr(sp.nsimplify(i)) if isinstance(i, sp.Float) else fr(i))
        else:
            out.append(str(i))
    return (str(e.base.label), tuple(out))


def coupling_table(parameter_defaults) -> dict:
    return {
        indexed_key(k): v
        for k, v in parameter_defaults.items()
        if isinstance(k, sp.Indexed)
    }


def symbol_table(parameter_defaults) -> dict:
    return {
        k.name: v for k, v in parameter_defaults.items() if isinstance(k, sp.Symbol)
    }
