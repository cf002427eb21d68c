"""Lineshapes against closed formulas."""

from __future__ import annotations

import pickle

import numpy as np
import sympy as sp

from mon import ref
from mon.evalx import Evaluator

ID = "C12"
RULE = (
    "A case draws masses, widths, radii, angular momenta 0-9 and 12 values of s (above the"
    " thresholds, and 12 more below, between and above those of two channels), evaluates"
    " every lineshape node by node, after complete unfolding through NumPy, after"
    " substitution of symbols and after a pickle round trip, and compares with closed"
    " formulas. Distinct: (lineshape, angular momenta, parameter point)."
)
REQUIRED = {"lineshape": 600, "unfolded": 150, "substituted": 150, "phase-space": 60, "below-threshold": 400}
CHUNK = 2


def cases(tier):
    return 64 if tier == "quick" else 800


def custom_phsp(s, m1, m2):
    """Phase-space factor of a user: differs from all built-in ones."""
    return 1 + s * (m1 + m2 + 3 * m1 * m2)


def custom_rho(s, m1, m2):
    return 1 + s * (m1 + m2 + 3 * m1 * m2)


def run(ctx):
    from ampform.dynamics import phasespace as ps

    from ampform_dpd import dynamics as dyn

    rng = ctx.rng
    u = lambda a, b: float(rng.uniform(a, b))  # noqa: E731
    m1, m2 = u(0.05, 1.0), u(0.05, 1.0)
    if ctx.idx % 5 == 0:
        m2 = m1
    if ctx.idx % 5 == 1:
        m2 = 0.0
    m0 = (m1 + m2) * u(1.05, 2.5) + 0.05
    w0, radius, radius2 = u(0.01, 0.6), u(0.5, 6), u(0.5, 6)
    m_spec = u(0.0, 1.0)
    m_top = m0 + m_spec + u(0.1, 3)
    el, el2 = (int(rng.integers(*((0, 5) if rng.uniform() < 0.75 else (5, 10)))) for _ in "pd")
    lo, hi = (m1 + m2) ** 2, (m_top - m_spec) ** 2
    s = lo + (hi - lo) * rng.uniform(0.01, 0.99, 12)
    s[0] = m0**2
    ctx.info = {
        "m": [m1, m2], "m0": m0, "w0": w0, "R": [radius, radius2], "L": [el, el2],
        "m_spec": m_spec, "m_top": m_top,
    }
    ctx.sample(ctx.info)
    names = "s M W a b d D S T G"
    S, M, W, A, B, D, D2, SPEC, TOP, GAM = sp.symbols(names, nonnegative=True)
    gamma = u(0, 1)
    values = {
        "s": s, "M": m0, "W": w0, "a": m1, "b": m2, "d": radius, "D": radius2,
        "S": m_spec, "T": m_top, "G": gamma,
    }
    x1, x2 = u(0.05, 0.6), u(0.05, 0.6)  # second channel
    w2 = u(0.01, 0.6)
    X1, X2, W2 = sp.symbols("x1 x2 w2", nonnegative=True)
    values.update(x1=x1, x2=x2, w2=w2)

    def judge(name, expr, expected, keys=(), cheap=True):
        ctx.event("lineshape")
        ctx.distinct(name, keys, m0, m1)
        obs = Evaluator(values)(expr)
        ctx.close(name, obs, expected, rtol=1e-8, atol=1e-13, keys=keys)
        table = {k: sp.Float(v, 17) for k, v in values.items() if k != "s"}
        fixed = expr.xreplace({sp.Symbol(k, nonnegative=True): v for k, v in table.items()})
        ctx.event("substituted")
        ctx.close(f"{name}/substituted", Evaluator({"s": s})(fixed), expected, rtol=1e-8)
        if cheap:
            again = pickle.loads(pickle.dumps(expr))
            ctx.require(again == expr and hash(again) == hash(expr), "pickle", name)
            unfolded = expr.doit()
            ctx.event("unfolded")
            args = sorted(unfolded.free_symbols, key=str)
            func = sp.lambdify(args, unfolded, "numpy")
            got = func(*[np.asarray(values[a.name], dtype=complex) for a in args])
            ctx.close(f"{name}/unfolded", got, expected, rtol=1e-7, keys=keys)

    # --- Breit-Wigners with every phase-space factor
    factors = {
        "default": (None, ref.phase_space),
        "custom": (custom_phsp, custom_rho),
        "abs": (ps.PhaseSpaceFactorAbs, lambda *a: np.abs(ref.phase_space(*a))),
        "s-wave": (ps.PhaseSpaceFactorSWave, _library_rho(ps.PhaseSpaceFactorSWave)),
    }
    if m2 == 0:
        factors.pop("s-wave")
    for kind, (factor, rho) in factors.items():
        kwargs = {} if factor is None else {"phsp_factor": factor}
        width = ref.energy_dependent_width(s, m0, w0, m1, m2, el, radius, rho)
        ctx.event("phase-space")
        cheap = kind in {"default", "custom"}
        judge(
            "relativistic-breit-wigner",
            dyn.RelativisticBreitWigner(S, M, W, A, B, el, D, **kwargs),
            m0 * w0 / (m0**2 - s - 1j * m0 * width), (kind, el), cheap,
        )
        judge(
            "breit-wigner", dyn.BreitWigner(S, M, W, A, B, el, D, **kwargs),
            1 / (m0**2 - s - 1j * m0 * width), (kind, el), cheap,
        )
        ff = (
            ref.form_factor(el2, radius2, m_top**2, np.sqrt(s), m_spec)
            / ref.form_factor(el2, radius2, m_top**2, m0, m_spec)
            * ref.form_factor(el, radius, s, m1, m2)
            / ref.form_factor(el, radius, m0**2, m1, m2)
        )
        judge(
            "breit-wigner-form-factors",
            dyn.BreitWignerMinL(S, TOP, SPEC, M, W, B, A, el, el2, D, D2, **kwargs),
            ff / (m0**2 - s - 1j * m0 * width), (kind, el, el2), cheap,
        )
    # two phase-space factors in one expression stay distinct
    one = dyn.RelativisticBreitWigner(S, M, W, A, B, el, D)
    two = dyn.RelativisticBreitWigner(S, M, W, A, B, el, D, phsp_factor=custom_phsp)
    ctx.require(one != two, "phase-space-identity", "phase space is not part of identity")
    w_1 = ref.energy_dependent_width(s, m0, w0, m1, m2, el, radius)
    w_2 = ref.energy_dependent_width(s, m0, w0, m1, m2, el, radius, custom_rho)
    judge(
        "sum-of-breit-wigners", one - 2 * two,
        m0 * w0 * (1 / (m0**2 - s - 1j * m0 * w_1) - 2 / (m0**2 - s - 1j * m0 * w_2)),
    )
    # --- simple ones, also below threshold
    below = dict(values, s=rng.uniform(0.01, 4, 12))
    exp = 1 / (m0**2 - below["s"] - 1j * m0 * w0)
    for expr in (dyn.SimpleBreitWigner(S, M, W), dyn.BreitWigner(S, M, W)):
        ctx.event("lineshape")
        ctx.close("constant-width", Evaluator(below)(expr), exp, rtol=1e-9)
    # constant width only if there is neither mass nor angular momentum
    judge(
        "breit-wigner-one-mass", dyn.BreitWigner(S, M, W, A, 0, 0, D),
        1 / (m0**2 - s - 1j * m0 * ref.energy_dependent_width(s, m0, w0, m1, 0, 0, radius)),
    )
    judge(
        "breit-wigner-massless", dyn.BreitWigner(S, M, W, 0, 0, 2, D),
        1 / (m0**2 - s - 1j * m0 * ref.energy_dependent_width(s, m0, w0, 0, 0, 2, radius)),
    )
    bw = dyn.BreitWigner(S, M, W, A, B, el, D)
    ctx.close(
        "width", Evaluator(values)(bw.energy_dependent_width()),
        ref.energy_dependent_width(s, m0, w0, m1, m2, el, radius), rtol=1e-8,
    )
    adler = m1**2 - m2**2 / 2
    bugg = m0 * w0 * np.exp(-gamma * s) * (s - adler) / (m0**2 - adler)
    judge("bugg", dyn.BuggBreitWigner(S, M, W, A, B, GAM), 1 / (m0**2 - s - 1j * bugg))

    # --- coupled channels
    q = lambda a, b, at: ref.breakup_momentum(at, a, b)  # noqa: E731
    norm = q(x1, x2, m0**2)
    flatte = (w0 * q(m1, m2, s) + w2 * q(x1, x2, s)) / norm * m0 / np.sqrt(s)
    judge(
        "flatte", dyn.FlattéSWave(S, M, (W, W2), (A, B), (X1, X2)),
        1 / (m0**2 - s - 1j * m0 * flatte),
    )

    def channel(w, a, b, ell, r):
        return w * 2 * q(a, b, s) / np.sqrt(s) * ref.form_factor(ell, r, s, a, b) ** 2

    specs = [(W, A, B, el, D), (W2, X1, X2, el2, D2), (W, X1, B, 0, D)][
        : int(rng.integers(1, 4))
    ]
    if ctx.idx % 4 == 3:  # channels that agree in every argument add up
        specs.insert(int(rng.integers(len(specs) + 1)), specs[0])
    specs = [specs[i] for i in rng.permutation(len(specs))]
    numbers = {"W": w0, "w2": w2, "a": m1, "b": m2, "x1": x1, "x2": x2, "d": radius, "D": radius2}
    total = 0
    for w, a, b, ell, r in specs:
        args = [numbers[x.name] for x in (w, a, b)]
        total = total + channel(*args, ell, numbers[r.name])
        judge(
            "channel-width", dyn.ChannelArguments(S, M, w, a, b, ell, r),
            channel(*args, ell, numbers[r.name]), (ell,),
        )
    channels = tuple(dyn.ChannelArguments(S, M, *c) for c in specs)
    judge(
        "multichannel", dyn.MultichannelBreitWigner(S, M, channels),
        1 / (m0**2 - s - 1j * m0 * total), (len(specs), el, el2), cheap=True,
    )


    # below the thresholds of all, some and no channels, the resonance itself included
    heavy = [(u(0.3, 1.0), u(0.3, 1.0)) for _ in range(2)]
    gates = sorted((a + b) ** 2 for a, b in heavy)
    (ha, hb), (hx1, hx2) = heavy
    far = np.concatenate([
        gates[0] * rng.uniform(0.05, 0.98, 4),
        gates[0] + (gates[1] - gates[0]) * rng.uniform(0.05, 0.95, 4),
        gates[1] * rng.uniform(1.02, 3, 4),
    ])
    hm = np.sqrt(gates[1]) * u(0.6, 2)
    deep = dict(values, s=far, M=hm, a=ha, b=hb, x1=hx1, x2=hx2)

    def judge_below(name, expr, expected, keys=()):
        ctx.event("lineshape")
        ctx.event("below-threshold")
        ctx.distinct(name, keys, hm, ha)
        ctx.close(name, Evaluator(deep)(expr), expected, rtol=1e-8, atol=1e-13, keys=keys)
        unfolded = expr.doit()
        args = sorted(unfolded.free_symbols, key=str)
        func = sp.lambdify(args, unfolded, "numpy")
        got = func(*[np.asarray(deep[a.name], dtype=complex) for a in args])
        ctx.close(f"{name}/unfolded", got, expected, rtol=1e-7, keys=keys)

    width = (w0 * q(ha, hb, far) + w2 * q(hx1, hx2, far)) / q(hx1, hx2, hm**2)
    width = width * hm / np.sqrt(far)
    judge_below(
        "flatte-below-threshold", dyn.FlattéSWave(S, M, (W, W2), (A, B), (X1, X2)),
        1 / (hm**2 - far - 1j * hm * width),
    )
    for one, two in ((el, el2), (1 + el % 4, el2 // 2), (0, 0)):
        parts = [
            w * 2 * q(a, b, far) / np.sqrt(far) * ref.form_factor(ell, r, far, a, b) ** 2
            for w, a, b, ell, r in ((w0, ha, hb, one, radius), (w2, hx1, hx2, two, radius2))
        ]
        channels = tuple(
            dyn.ChannelArguments(S, M, *c) for c in ((W, A, B, one, D), (W2, X1, X2, two, D2))
        )
        for channel_, part, ell in zip(channels, parts, (one, two)):
            judge_below("channel-below-threshold", channel_, part, (ell,))
        judge_below(
            "multichannel-below-threshold", dyn.MultichannelBreitWigner(S, M, channels),
            1 / (hm**2 - far - 1j * hm * sum(parts)), (one, two),
        )
        width = ref.energy_dependent_width(far, hm, w0, ha, hb, one, radius)
        judge_below(
            "breit-wigner-below-threshold", dyn.BreitWigner(S, M, W, A, B, one, D),
            1 / (hm**2 - far - 1j * hm * width), (one,),
        )
        judge_below(
            "relativistic-breit-wigner-below-threshold",
            dyn.RelativisticBreitWigner(S, M, W, A, B, one, D),
            hm * w0 / (hm**2 - far - 1j * hm * width), (one,),
        )
    adler = ha**2 - hb**2 / 2
    bugg = hm * w0 * np.exp(-gamma * far) * (far - adler) / (hm**2 - adler)
    judge_below(
        "bugg-below-threshold", dyn.BuggBreitWigner(S, M, W, A, B, GAM),
        1 / (hm**2 - far - 1j * bugg),
    )

    # arguments that are left out: massless children in an S-wave, unit radius
    defaults = (0, 0, 0, 1)
    for given in range(4):
        args = (A, B, el, D)[:given]
        nums = (*(m1, m2, el, radius)[:given], *defaults[given:])
        judge(
            "channel-width-defaults", dyn.ChannelArguments(S, M, W, *args),
            channel(w0, *nums), (given, el),
        )
        judge(
            "breit-wigner-defaults", dyn.BreitWigner(S, M, W, *args),
            1 / (m0**2 - s - 1j * m0 * (
                w0 if given == 0 else ref.energy_dependent_width(s, m0, w0, *nums)
            )), (given, el),
        )
    for ell in {1, el, el2}:  # given by keyword
        keywords = {"angular_momentum": ell}
        judge(
            "channel-width-defaults",
            dyn.ChannelArguments(S, M, W, **keywords), channel(w0, 0, 0, ell, 1), (ell,),
        )


def _library_rho(cls):
    s, a, b = sp.symbols("s a b", nonnegative=True)

    def rho(sv, av, bv):
        return Evaluator({"s": sv, "a": av, "b": bv})(cls(s, a, b))

    return rho
