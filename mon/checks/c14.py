"""Spin projections and LS couplings by exhaustive enumeration."""

from __future__ import annotations

from fractions import Fraction as F
from itertools import product

import sympy as sp

from mon import ref
from mon.ref import fr

ID = "C14"
RULE = (
    "Exhaustive: case n takes parent spin n/2 and runs through all child spins up to 9/2"
    " (thorough: 13/2) and maximal angular momenta 0-9, with spins given as int, float,"
    " Fraction or SymPy Rational; results are compared with the angular-momentum selection"
    " rules, and the parity filter with the intrinsic-parity rule for all eight parity"
    " assignments. Distinct: (parent, child, child, L_max) with at least one coupling."
)
REQUIRED = {"ls": 3000, "projections": 30, "parity": 3000}


def cases(tier):
    return 10 if tier == "quick" else 14


def forms(x: F, n: int):
    options = [
        sp.Rational(x.numerator, x.denominator), float(x), x,
        int(x) if x.denominator == 1 else float(x),
    ]
    return options[n % len(options)]


def run(ctx):
    from qrules.particle import Parity

    from ampform_dpd.spin import (
        create_rational_range,
        create_spin_range,
        filter_parity_violating_ls,
        generate_ls_couplings,
    )

    j0 = F(ctx.idx, 2)
    for n in range(4):
        got = create_spin_range(forms(j0, n))
        ctx.event("projections")
        ctx.require(
            [fr(x) for x in got] == ref.projections(j0)
            and all(isinstance(x, sp.Rational) for x in got),
            "projections", f"projections of spin {j0}: {got}",
        )
        got.clear()  # results are the caller's
        ctx.require(
            [fr(x) for x in create_spin_range(forms(j0, n))] == ref.projections(j0),
            "shared-result", f"projections of spin {j0} change with an earlier result",
        )
    for upper in range(12):
        lo, hi = -j0, F(upper, 2)
        got = create_rational_range(float(lo), float(hi))
        exp, x = [], lo
        while x <= hi or x - hi < F(1, 2):
            exp.append(x)
            x += 1
        exp = [x for x in exp if x < hi + F(1, 2)]
        ctx.require([fr(x) for x in got] == exp, "range", f"{lo}..{hi}: {got}")
    for _ in range(10):  # far beyond the spins of the grid
        x, y, z = (F(int(n), 2) for n in ctx.rng.integers(16, 60, 3))
        spread = [fr(m) for m in create_spin_range(x)]
        ctx.require(
            spread == [n - x for n in range(int(2 * x) + 1)], "projections", f"{x}: {spread}"
        )
        max_l = int(ctx.rng.integers(5, 30))
        got = [(el, fr(s)) for el, s in generate_ls_couplings(x, y, z, max_L=max_l)]
        ctx.require(
            got == ref.ls_list(x, y, z, max_l), "ls-couplings", f"{x} -> {y} {z}, L <= {max_l}"
        )
    count = 0
    top = cases(ctx.tier)
    for a, b, max_l in product(range(top), range(top), range(10)):
        j1, j2 = F(a, 2), F(b, 2)
        count += 1
        args = [forms(x, count + m) for m, x in enumerate((j0, j1, j2))]
        got = generate_ls_couplings(*args, max_L=max_l)
        exp = ref.ls_list(j0, j1, j2, max_l)
        ctx.event("ls")
        if exp:
            ctx.distinct(j0, j1, j2, max_l)
        ok = [(int(el), fr(s)) for el, s in got] == exp
        ctx.require(
            ok and all(isinstance(el, int) and isinstance(s, sp.Rational) for el, s in got),
            "ls-couplings",
            f"{j0} -> {j1} {j2}, L <= {max_l}: {got} instead of {exp}",
        )
        if max_l == 3:
            got.reverse()  # results are the caller's
            got.append(None)
            got = generate_ls_couplings(*args, max_L=max_l)
            ctx.require(
                [(int(el), fr(s)) for el, s in got] == exp, "shared-result",
                f"{j0} -> {j1} {j2}: another call gives {got}",
            )
            default = generate_ls_couplings(*args)
            ctx.require(default == got, "default-max-l", f"{j0} -> {j1} {j2}: {default}")
        if max_l % 3 == 0:
            for p0, p1, p2 in product((1, -1), repeat=3):
                ctx.event("parity")
                if (a + b) % 3 == 1:  # anything that converts to an integer
                    p0, p1, p2 = Parity(p0), float(p1), sp.Integer(p2)
                left = filter_parity_violating_ls(list(got), p0, p1, p2)
                want = [x for x in got if int(p0) == int(p1) * int(p2) * (1 if x[0] % 2 == 0 else -1)]
                ctx.require(
                    left == want, "parity-filter", f"{p0} -> {p1} {p2} of {got}: {left}"
                )
                other = filter_parity_violating_ls(list(got), -int(p0), p1, p2)
                ctx.require(
                    sorted(left + other) == sorted(got), "parity-partition",
                    "couplings of both parent parities do not add up",
                )
    ctx.sample({"parent": str(j0), "last": [str(x) for x in got[:3]]})
