"""LaTeX rendering shows the decay, model and dynamics that it was made of."""

from __future__ import annotations

from fractions import Fraction as F

import sympy as sp

from mon import gen
from mon import model as M
from mon.checks.c25 import parse_jp, random_particle
from mon.ref import fr

ID = "C26"
RULE = (
    "A case renders random particles, states, nodes, chains and decays with and without"
    " J^P and LS couplings and reads them back; renders parametrized dynamics and whole"
    " models and checks that there is one row per definition, with both sides; and"
    " renders every lineshape with symbolic arguments (the angular momentum too). Distinct: one decay or lineshape"
    " rendering."
)
REQUIRED = {"particle": 200, "node": 150, "decay": 50, "defined": 50, "lineshape": 200, "model": 30}
CHUNK = 4


def cases(tier):
    return 160 if tier == "quick" else 1600


def expected_particle(p, with_jp):
    if not with_jp:
        return p.latex
    spin = fr(p.spin)
    j = str(spin) if spin.denominator == 1 else Rf"\frac{{{spin.numerator}}}{{{spin.denominator}}}"
    jp = f"J={j}" if p.parity is None else f"{j}^{'+' if p.parity > 0 else '-'}"
    return Rf"{p.latex}\left[{jp}\right]"


def squeeze(text: str) -> str:
    return "".join(text.split())


def expected_chain(spec, c, states, with_jp):
    """Write the decay down from the specification."""
    from ampform_dpd.decay import Particle

    i, j = gen.IJ[c.spectator]
    resonance = Particle(c.name, c.latex, gen.rational(c.spin), c.parity, c.mass, c.width)
    show = lambda p: expected_particle(p, with_jp)  # noqa: E731

    def arrow(ls):
        if ls is None:
            return R"\to"
        return Rf"\xrightarrow[S={fr(ls[1])}]{{L={ls[0]}}}"

    children = [show(states[i]), show(states[j])]
    if c.swap_dec:
        children.reverse()
    node = Rf"\left({show(resonance)}{arrow(c.dec_ls)}{''.join(children)}\right)"
    pair = [node, show(states[c.spectator])]
    if c.swap_prod:
        pair.reverse()
    top = f"{show(states[0])}{arrow(c.prod_ls)}{''.join(pair)}"
    return squeeze(node), squeeze(top)


def decays(ctx, rng):
    from ampform_dpd.io import aslatex

    for n in range(4):
        p = random_particle(rng, n, index=[None, 1][n % 2])
        ctx.event("particle")
        ctx.require(aslatex(p) == p.latex, "particle", f"{aslatex(p)} for {p!r}")
        text = aslatex(p, only_jp=True)
        ctx.require(
            parse_jp(text) == (F(str(p.spin)), p.parity), "only-jp", f"{text} for {p!r}"
        )
        ctx.require(
            squeeze(aslatex(p, with_jp=True)) == squeeze(expected_particle(p, True)),
            "with-jp", f"{aslatex(p, with_jp=True)} for {p!r}",
        )
    spec = gen.random_decay(rng, max_chains=3, max_spin=gen.F(15, 2), unknown_parity=True)
    for c in spec.chains:
        if rng.integers(3) == 0:
            c.prod_ls = None
        if rng.integers(3) == 0:
            c.dec_ls = None
    states = gen.build_states(spec)
    decay = gen.build_decay(spec)
    with_jp = bool(rng.integers(2))
    kwargs = {"with_jp": True} if with_jp else {}
    tops = []
    for c, chain in zip(spec.chains, decay.chains):
        node, top = expected_chain(spec, c, states, with_jp)
        tops.append(top)
        for obj, want in ((chain.decay_node, node), (chain.production_node, top), (chain, top)):
            got = squeeze(aslatex(obj, **kwargs))
            ctx.event("node")
            ctx.require(got == want, "node", "rendering differs", observed=got, expected=want)
    got = squeeze(aslatex(decay, **kwargs))
    ctx.event("decay")
    ctx.distinct(got)
    positions = [got.find(t) for t in tops]
    ctx.require(-1 not in positions, "decay", "a chain is not shown", observed=got, expected=tops)
    ctx.require(
        sum(got.count(t) for t in set(tops)) >= len(tops)
        and got.count(R"\\") == len(tops),
        "decay-rows", "not one row per chain", observed=got,
    )
    return spec


def lineshapes(ctx, rng):
    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics import (
        BreitWigner,
        BreitWignerMinL,
        BuggBreitWigner,
        ChannelArguments,
        FlattéSWave,
        MultichannelBreitWigner,
        RelativisticBreitWigner,
        SimpleBreitWigner,
    )
    from ampform_dpd.io import aslatex
    from ampform_dpd.io.serialization.amplitude import (
        HelicityRecoupling,
        LSRecoupling,
        ParityRecoupling,
    )

    names = rng.permutation([f"x_{{{n}}}" for n in "abcdefghijklmn"])
    a = [sp.Symbol(str(n), nonnegative=True) for n in names]
    s, m0, w = a[:3]
    el, lp = (sp.Integer(n) for n in rng.integers(0, 4, 2))
    if rng.random() < 0.3:  # angular momentum not chosen yet
        el = sp.Symbol(R"\ell", integer=True, nonnegative=True)
    if rng.random() < 0.3:
        lp = sp.Symbol("L", integer=True, nonnegative=True)
    channels = tuple(
        ChannelArguments(s, m0, a[5 + n], a[8], a[9], el, 1) for n in range(int(rng.integers(1, 4)))
    )
    table = [
        (SimpleBreitWigner(s, m0, w), [s, m0, w]),
        (RelativisticBreitWigner(s, m0, w, a[3], a[4], el, a[5]), [s, m0, w, el]),
        (BreitWigner(s, m0, w), [s, m0, w]),
        (BreitWigner(s, m0, w, a[3], a[4], el, a[5]), [s, m0, w, el]),
        (BreitWignerMinL(s, a[3], a[4], m0, w, a[5], a[6], el, lp, a[7], a[8]), [s, el, lp]),
        (BuggBreitWigner(s, m0, w, a[3], a[4], a[5]), [s]),
        (FlattéSWave(s, m0, (w, a[3]), (a[4], a[5]), (a[6], a[7])), [s]),
        (MultichannelBreitWigner(s, m0, channels), [s, *(c.args[2] for c in channels)]),
        (channels[0], [s, m0, a[5]]),
        (HelicityRecoupling(*a[:4]), a[:4]),
        (ParityRecoupling(*a[:5]), a[:5]),
        (LSRecoupling(*a[:7]), a[:7]),
    ]
    labels = set()
    for cls, n in ((HelicityRecoupling, 4), (ParityRecoupling, 5), (LSRecoupling, 7)):
        labels.add(sp.latex(cls(*a[:n])).split(R"\left(")[0])
    ctx.require(len(labels) == 3, "labels", f"recouplings look the same: {labels}")
    for expr, shown in table:
        ctx.event("lineshape")
        text = aslatex(expr)
        ctx.distinct(text)
        for x in shown:
            ctx.require(
                sp.latex(x) in text, "lineshape",
                f"{type(expr).__name__}: argument {x} is not shown", observed=text,
            )
        ctx.require(text == sp.latex(expr), "printer", "differs from the SymPy printer")
        unfolded = aslatex(expr.doit(deep=False))
        ctx.require(unfolded != text, "unfold", f"{type(expr).__name__} does not unfold")
        parameters = {x: float(rng.uniform(0, 3)) for x in a[:int(rng.integers(0, 5))]}
        defined = aslatex(DefinedExpression(expr, parameters))
        rows = [r for r in defined.split(R"\\") if "&=&" in r]
        ctx.event("defined")
        ctx.require(
            len(rows) == 1 + len(parameters), "defined-rows",
            f"{len(rows)} rows for {len(parameters)} parameters", observed=defined,
        )
        left, _, right = rows[0].partition("&=&")
        ctx.require(
            text in left and right.strip() == unfolded, "defined",
            "first row is not the expression and its definition", observed=rows[0],
        )
        for row, (key, value) in zip(rows[1:], parameters.items()):
            left, _, right = row.partition("&=&")
            ctx.require(
                left.strip() == sp.latex(key) and abs(float(right) - value) < 1e-9,
                "defined-parameter", f"{row} for {key}={value}",
            )
    plain = aslatex(DefinedExpression(s**2, {s: 1.5}))
    ctx.require(
        plain.count("&=&") == 1 and sp.latex(s**2) in plain, "defined-plain",
        "an expression without unfolded form is not shown once", observed=plain,
    )


def models(ctx, rng, spec):
    from ampform_dpd.io import aslatex

    min_ls = all(c.prod_ls is None or c.dec_ls is None for c in spec.chains) or bool(rng.integers(2))
    if any(c.prod_ls is None or c.dec_ls is None for c in spec.chains):
        min_ls = True
    model = M.formulate(M.make_builder(spec, min_ls=min_ls))
    for name in ("amplitudes", "variables", "parameter_defaults", "invariants", "masses"):
        mapping = getattr(model, name)
        if not mapping:
            continue
        text = aslatex(mapping)
        rows = [r for r in text.split("\n") if R"\;&=\;" in r]
        ctx.event("model")
        if ctx.require(
            len(rows) == len(mapping), "model-rows",
            f"{len(rows)} rows for {len(mapping)} {name}",
        ):
            for row, (lhs, rhs) in zip(rows, mapping.items()):
                left, _, right = row.partition(R"\;&=\;")
                ctx.require(left.strip() == sp.latex(lhs), "model-lhs", f"{row} for {lhs}")
                if isinstance(rhs, sp.Basic):
                    ctx.require(sp.latex(rhs) in right, "model-rhs", f"{row} for {rhs}")


def run(ctx):
    rng = ctx.rng
    spec = decays(ctx, rng)
    lineshapes(ctx, rng)
    if ctx.idx % 4 == 0 or ctx.tier == "thorough":
        models(ctx, rng, spec)
    if ctx.idx % 8 == 7:
        from ampform_dpd.io import simplify_latex_rendering

        base = sp.IndexedBase(R"\mathcal{H}")
        i, j = sp.symbols("i j")
        simplify_latex_rendering()
        ctx.event("indexed")
        for idx in ((i,), (i, j), (1, sp.Rational(-1, 2), j)):
            text = sp.latex(base[idx])
            want = R"\mathcal{H}_{" + ", ".join(sp.latex(sp.sympify(x)) for x in idx) + "}"
            ctx.require(squeeze(text) == squeeze(want), "indexed", f"{text} for {idx}")
    ctx.sample({"decay": spec.describe()})
