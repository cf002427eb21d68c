"""Workload generators: random decays through the public data structures."""

from __future__ import annotations

from dataclasses import dataclass, field
from fractions import Fraction as F

import sympy as sp

from mon.ref import IJ, fr, ls_list, projections

SPIN_SETS = [
    # (j0, j1, j2, j3) that are cheap but cover every fermion/boson assignment
    ("0", "0", "0", "0"),
    ("1", "0", "0", "0"),
    ("0", "1", "0", "0"),
    ("0", "0", "1", "0"),
    ("0", "0", "0", "1"),
    ("1/2", "1/2", "0", "0"),
    ("1/2", "0", "1/2", "0"),
    ("1/2", "0", "0", "1/2"),
    ("0", "1/2", "1/2", "0"),
    ("0", "0", "1/2", "1/2"),
    ("0", "1/2", "0", "1/2"),
    ("1", "1/2", "1/2", "0"),
    ("1", "0", "1/2", "1/2"),
    ("1", "1/2", "0", "1/2"),
    ("1/2", "1/2", "1", "0"),
    ("1/2", "0", "1/2", "1"),
    ("1/2", "1", "0", "1/2"),
    ("1/2", "1/2", "1/2", "1/2"),
    ("3/2", "1/2", "0", "0"),
    ("3/2", "0", "1/2", "0"),
    ("3/2", "0", "0", "1/2"),
    ("1/2", "3/2", "0", "0"),
    ("1", "1", "0", "0"),
    ("1", "0", "1", "0"),
    ("1", "0", "0", "1"),
    ("2", "0", "0", "1"),
    ("0", "1", "1", "0"),
    ("3/2", "0", "3/2", "0"),
    ("1", "1/2", "1/2", "1"),
    ("1/2", "1", "1/2", "1"),
    ("3/2", "1/2", "1", "0"),
    ("2", "1/2", "1/2", "0"),
]
LATEX_NAMES = [
    R"\Lambda(1405)", R"\Lambda(1520)", R"\Lambda(1600)", R"\Lambda", R"\lambda(1520)",
    "K^{*}(892)", "K^{*}(892)^{0}", "K_{0}^{*}(1430)", "K_{2}^{*}(1430)", "K", "k",
    R"\Delta(1232)^{++}", R"\Delta(1232)^{+}", R"\overline{K}^{*}(892)", "f_{0}(980)",
]
BIG_SPIN_SETS = [
    ("3/2", "3/2", "1", "1"),
    ("2", "1", "1", "0"),
    ("1", "1", "1", "1"),
    ("5/2", "1/2", "1", "1"),
    ("2", "3/2", "1/2", "1"),
    ("3", "0", "1", "0"),
    ("3/2", "1/2", "1/2", "1/2"),
    ("5/2", "0", "3/2", "1"),
]


def rational(x) -> sp.Rational:
    x = fr(x)
    return sp.Rational(x.numerator, x.denominator)


@dataclass
class ChainSpec:
    name: str
    latex: str
    spectator: int
    spin: F
    parity: int | None
    mass: float
    width: float
    prod_ls: tuple | None
    dec_ls: tuple | None
    swap_prod: bool = False
    swap_dec: bool = False


@dataclass
class DecaySpec:
    spins: tuple
    masses: tuple
    parities: tuple
    names: tuple
    latex: tuple
    chains: list[ChainSpec] = field(default_factory=list)
    width0: float = 0.0

    @property
    def subsystems(self) -> list[int]:
        return sorted({c.spectator for c in self.chains})

    def describe(self) -> dict:
        return {
            "spins": [str(s) for s in self.spins],
            "masses": list(self.masses),
            "chains": [
                f"{c.name}(spectator={c.spectator}, J={c.spin}, m={c.mass:.4g}, "
                f"Γ={c.width:.3g}, prod={_ls(c.prod_ls)}, dec={_ls(c.dec_ls)}, "
                f"swap={int(c.swap_prod)}{int(c.swap_dec)})"
                for c in self.chains
            ],
        }

    def key(self):
        return (
            self.spins,
            tuple(
                (c.name, c.spectator, c.spin, c.prod_ls, c.dec_ls, c.swap_prod, c.swap_dec)
                for c in self.chains
            ),
        )


def _ls(ls):
    return None if ls is None else f"({ls[0]},{ls[1]})"


def random_masses(rng, *, massless=True) -> tuple[float, float, float, float]:
    style = rng.integers(0, 7)
    m = [float(x) for x in rng.uniform(0.08, 1.6, 3)]
    if style == 0:
        m[1] = m[0]
    elif style == 1:
        m = [m[0]] * 3
    elif style == 2 and massless:
        m[int(rng.integers(0, 3))] = 0.0
    elif style == 3:
        m[int(rng.integers(0, 3))] = 0.0005
    elif style == 4:
        m = [round(x, 3) for x in m]
    excess = float(rng.choice([0.05, 0.4, 1.5, 5.0])) * float(rng.uniform(0.5, 1.5))
    return (sum(m) + excess, *m)


def resonance_spins(spins, k, max_spin) -> list[F]:
    """Spins of an isobar opposite to k for which at least one helicity is allowed."""
    i, j = IJ[k]
    start = (spins[i] + spins[j]) % 1
    out = []
    s = start
    while s <= max_spin:
        if (s + spins[k] - spins[0]).denominator == 1:
            out.append(s)
        s += 1
    return out


def _pick_twins(rng, spins) -> tuple[int, ...]:
    groups = [
        [i for i in (1, 2, 3) if spins[i] == s] for s in sorted(set(spins[1:]), reverse=True)
    ]
    groups = [g for g in groups if len(g) > 1]
    if not groups:
        return ()
    group = groups[0 if rng.uniform() < 0.7 else int(rng.integers(0, len(groups)))]
    n = int(rng.integers(2, len(group) + 1))
    return tuple(sorted(int(i) for i in rng.choice(group, n, replace=False)))


def random_decay(  # noqa: PLR0913
    rng,
    spins=None,
    *,
    masses=None,
    subsystems=None,
    max_chains=2,
    max_spin=F(5, 2),
    with_ls=True,
    massless=True,
    shared_names=False,
    swap=True,
    simple_names=False,
    max_l=None,
    unique_helicity_chain=False,
    identical=True,
    cross_names=False,
    unknown_parity=False,
) -> DecaySpec:
    if spins is None:
        spins = SPIN_SETS[int(rng.integers(0, len(SPIN_SETS)))]
    spins = tuple(fr(s) for s in spins)
    twins = ()
    if masses is None:
        masses = random_masses(rng, massless=massless)
        if identical and rng.uniform() < 0.5:
            twins = _pick_twins(rng, spins)
            if twins:
                excess = masses[0] - sum(masses[1:])
                masses = list(masses)
                for i in twins[1:]:
                    masses[i] = masses[twins[0]]
                masses[0] = sum(masses[1:]) + excess
                masses = tuple(masses)
    if subsystems is None:
        n = int(rng.choice([1, 2, 2, 3, 3, 3]))
        subsystems = sorted(int(x) for x in rng.choice([1, 2, 3], n, replace=False))
    parities = tuple(int(rng.choice([-1, 1])) for _ in range(4))
    names = ("Parent", *(("a", "b", "c")[i] for i in rng.permutation(3)))
    latex = (R"P^{*}", "a", R"\beta^+", R"\overline{c}")
    for i in twins[1:]:  # identical particles
        names, latex, parities = (
            (*t[:i], t[twins[0]], *t[i + 1 :]) for t in (names, latex, parities)
        )
    spec = DecaySpec(spins, tuple(masses), parities, names, latex)
    counter = 0
    crowd = 0
    if max_chains > 1 and sum(spins) <= 1:  # cheap: many chains, high spins
        if rng.uniform() < 0.12:
            crowd = 8
        if rng.uniform() < 0.15 and max_spin == F(5, 2):
            max_spin = F(11, 2)
    for k in subsystems:
        i, j = IJ[k]
        options = resonance_spins(spins, k, max_spin)
        for _ in range(int(rng.integers(max(1, crowd - 3), max(max_chains, crowd) + 1))):
            s = options[int(rng.integers(0, len(options)))]
            prod_ls = dec_ls = None
            if with_ls:
                prod = ls_list(spins[0], s, spins[k], max_l)
                dec = ls_list(s, spins[i], spins[j], max_l)
                prod_ls = prod[int(rng.integers(0, len(prod)))]
                dec_ls = dec[int(rng.integers(0, len(dec)))]
            name = f"R{k}{chr(65 + counter)}"
            tex = name if simple_names else Rf"R_{{{k}}}^{{{chr(65 + counter)}}}"
            if shared_names and spec.chains and rng.uniform() < 0.5:
                other = spec.chains[int(rng.integers(0, len(spec.chains)))]
                if other.spectator == k:
                    s, name, tex = other.spin, other.name, other.latex
                    mass, width, parity = other.mass, other.width, other.parity
                    if with_ls:
                        prod = ls_list(spins[0], s, spins[k], max_l)
                        dec = ls_list(s, spins[i], spins[j], max_l)
                        used = {
                            (c.prod_ls, c.dec_ls)
                            for c in spec.chains
                            if c.name == name and c.spectator == k
                        }
                        free = [(a, b) for a in prod for b in dec if (a, b) not in used]
                        if not free:
                            continue
                        prod_ls, dec_ls = free[int(rng.integers(0, len(free)))]
                    elif unique_helicity_chain:
                        continue
                    else:
                        continue
                    spec.chains.append(
                        ChainSpec(
                            name, tex, k, s, parity, mass, width, prod_ls, dec_ls,
                            other.swap_prod, other.swap_dec,
                        )
                    )
                    continue
            if cross_names and rng.uniform() < 0.5:  # same resonance, other spectator
                known = {c.name for c in spec.chains if c.spectator == k}
                others = [
                    c for c in spec.chains
                    if c.spectator != k and c.spin in options and c.name not in known
                ]
                if others:
                    other = others[int(rng.integers(0, len(others)))]
                    if with_ls:
                        prod = ls_list(spins[0], other.spin, spins[k], max_l)
                        dec = ls_list(other.spin, spins[i], spins[j], max_l)
                        prod_ls = prod[int(rng.integers(0, len(prod)))]
                        dec_ls = dec[int(rng.integers(0, len(dec)))]
                    spec.chains.append(
                        ChainSpec(
                            other.name, other.latex, k, other.spin, other.parity,
                            other.mass, other.width, prod_ls, dec_ls,
                            bool(swap and rng.uniform() < 0.4),
                            bool(swap and rng.uniform() < 0.4),
                        )
                    )
                    continue
            counter += 1
            lo = masses[i] + masses[j]
            hi = masses[0] - masses[k]
            mass = float(lo + (hi - lo) * rng.uniform(0.1, 1.1) + 0.01)
            width = float(rng.uniform(0.01, 0.4)) if rng.uniform() < 0.93 else 0.0
            spec.chains.append(
                ChainSpec(
                    name,
                    tex,
                    k,
                    s,
                    int(rng.choice([-1, 1])),
                    mass,
                    width,
                    prod_ls,
                    dec_ls,
                    bool(swap and rng.uniform() < 0.4),
                    bool(swap and rng.uniform() < 0.4),
                )
            )
    if unknown_parity and rng.uniform() < 0.2:
        if rng.uniform() < 0.5:
            spec.parities = (None,) * 4
        for c in spec.chains:
            c.parity = None
    if rng.uniform() < 0.2:  # names that are part of each other, in any order
        nested = ["R", "RR", "R1", "R12", "1R", "r", "R(1)", "R(12)", "xR", "R ", "r1", "Rx"]
        old = sorted({c.name for c in spec.chains})
        renamed = dict(zip(old, (nested[int(n)] for n in rng.permutation(len(nested)))))
        if len(renamed) == len(old):
            for c in spec.chains:
                c.name = renamed[c.name]
    if not simple_names and rng.uniform() < 0.25:  # as in the particle listings
        old = sorted({c.latex for c in spec.chains})
        styled = dict(zip(old, (LATEX_NAMES[int(n)] for n in rng.permutation(len(LATEX_NAMES)))))
        if len(styled) == len(old):
            for c in spec.chains:
                c.latex = styled[c.latex]
    return spec


def drop_ls(rng, spec: DecaySpec, min_ls) -> bool:
    """Leave out LS couplings of nodes that are in the helicity basis, now and then."""
    prod, dec = min_ls if isinstance(min_ls, tuple) else (min_ls, min_ls)
    labels = [(c.name, c.spectator) for c in spec.chains]
    if rng.uniform() < 0.6 or not (prod or dec) or len(set(labels)) != len(labels):
        return False
    share = rng.choice([0.5, 1.0])
    for c in spec.chains:
        if prod and rng.uniform() < share:
            c.prod_ls = None
        if dec and rng.uniform() < share:
            c.dec_ls = None
    return True


def build_decay(spec: DecaySpec):
    """Create a `ThreeBodyDecay` through the public API."""
    from ampform_dpd.decay import ThreeBodyDecay

    states = build_states(spec)
    return ThreeBodyDecay(states, tuple(build_chain(spec, c, states) for c in spec.chains))


def build_states(spec: DecaySpec):
    from ampform_dpd.decay import State

    return {
        i: State(
            name=spec.names[i],
            latex=spec.latex[i],
            spin=rational(spec.spins[i]),
            parity=spec.parities[i],
            mass=spec.masses[i],
            width=spec.width0 if i == 0 else 0.0,
            index=i,
        )
        for i in range(4)
    }


def build_chain(spec: DecaySpec, c: ChainSpec, states=None):
    from ampform_dpd.decay import IsobarNode, Particle, ThreeBodyDecayChain

    states = states or build_states(spec)
    i, j = IJ[c.spectator]
    resonance = Particle(c.name, c.latex, rational(c.spin), c.parity, c.mass, c.width)
    children = [states[i], states[j]]
    if c.swap_dec:
        children.reverse()
    node = IsobarNode(resonance, *children, interaction=_to_tuple(c.dec_ls))
    pair = [node, states[c.spectator]]
    if c.swap_prod:
        pair.reverse()
    return ThreeBodyDecayChain(
        IsobarNode(states[0], *pair, interaction=_to_tuple(c.prod_ls))
    )


def _to_tuple(ls):
    return None if ls is None else (ls[0], rational(ls[1]))


def helicity_combinations(spec: DecaySpec):
    from itertools import product

    return list(product(*(projections(s) for s in spec.spins)))
