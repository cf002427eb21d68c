"""Random serialized amplitude models and their reference evaluation."""

from __future__ import annotations

import copy
from dataclasses import dataclass, field
from fractions import Fraction as F

import numpy as np

from mon import gen, ref
from mon.ref import IJ, fr, projections


@dataclass
class Chain:
    name: str
    k: int
    spin: F
    prod: tuple  # (kind, (λR, λk), parity factor)
    dec: tuple  # (kind, (λi, λj), parity factor)
    weight: complex
    function: dict
    ff_dec: tuple | None = None  # (name, L, radius)
    ff_prod: tuple | None = None
    shape: str = "BreitWigner"


@dataclass
class Ser:
    spins: tuple
    masses: tuple
    names: tuple
    reference: int
    chains: list[Chain] = field(default_factory=list)
    definition: dict = field(default_factory=dict)

    @property
    def subsystems(self):
        return sorted({c.k for c in self.chains})

    def describe(self):
        return {
            "spins": [str(s) for s in self.spins],
            "masses": list(self.masses),
            "reference": self.reference,
            "chains": [
                f"{c.name} spectator={c.k} J={c.spin} prod={c.prod[0]}{_strs(c.prod[1])}{c.prod[2]!r}"
                f" dec={c.dec[0]}{_strs(c.dec[1])}{c.dec[2]!r} w={c.weight:.3g} {c.shape}"
                f" FF={c.ff_prod and c.ff_prod[1:]},{c.ff_dec and c.ff_dec[1:]}"
                for c in self.chains
            ],
        }


def _strs(x):
    return tuple(str(v) for v in x)


def weight_key(name, k, hel_prod, hel_dec):
    """Resonance with its helicity, and the helicities of states 1, 2, 3."""
    i, j = IJ[k]
    by_state = {k: hel_prod[1], i: hel_dec[0], j: hel_dec[1]}
    return name, hel_prod[0], tuple(by_state[n] for n in (1, 2, 3))


def orbital(rng, top: int) -> int:
    return int(rng.integers(top) if rng.uniform() < 0.9 else rng.integers(top, 10))


def write_weight(rng, w: complex) -> tuple[str, complex]:
    style = int(rng.integers(0, 6))
    if style == 0:
        return repr(w.real), complex(w.real)
    if style == 1:
        return f"{w.real!r}{'+' if w.imag >= 0 else '-'}{abs(w.imag)!r}i", w
    if style == 2:
        return f"{w.imag!r}i", 1j * w.imag
    if style == 3:  # exponents have signs of their own
        re, im = f"{w.real:.8e}", f"{w.imag:+.8e}"
        return f"{re} {im[0]} {im[1:]}i", complex(float(re), float(im))
    return f"{w.real!r} {'+' if w.imag >= 0 else '-'} {abs(w.imag)!r}i", w


def random_model(
    rng, *, shared_radii=True, unique_weights=True, own_masses=False, max_chains=3
) -> Ser:
    """Random model definition; nodes in cyclic order, resonance first."""
    spins = tuple(fr(s) for s in gen.SPIN_SETS[int(rng.integers(len(gen.SPIN_SETS)))])
    masses = tuple(gen.random_masses(rng, massless=False))
    names = ("Mother", "a", "b", "c")
    u = lambda a, b: float(rng.uniform(a, b))  # noqa: E731
    n_sub = int(rng.choice([1, 2, 3, 3]))
    subsystems = sorted(int(x) for x in rng.choice([1, 2, 3], n_sub, replace=False))
    out = Ser(spins, masses, names, int(rng.integers(1, 4)))
    r_res, r_ini = u(0.5, 3), u(0.5, 6)
    functions, n = [], 0
    frugal = rng.uniform() < 0.35  # one form factor function per radius and L
    shared_functions: dict = {}
    if frugal and rng.uniform() < 0.6:
        r_ini = r_res
    seen: list = []
    used = set()
    crowded = sum(spins) <= 1 and rng.uniform() < 0.12
    for k in subsystems:
        i, j = IJ[k]
        options = gen.resonance_spins(spins, k, F(11, 2) if crowded else F(5, 2))
        for _ in range(int(rng.integers(3, 7) if crowded else rng.integers(1, 3))):
            spin = options[int(rng.integers(len(options)))]
            name = "X" + "123456789ABCDEFGHI"[:n]  # each name is the beginning of the next one
            label = name
            n += 1
            other = None
            if seen and rng.uniform() < 0.35:  # the same resonance in another subsystem
                free = [
                    (c, f) for c, f in seen
                    if c[1] != k and c[2] in options and (c[0], k) not in {x[:2] for x, _ in seen}
                ]
                if free:
                    (name, _, spin), other = free[int(rng.integers(len(free)))]
                    label = f"{name}_{k}"
            lo, hi = masses[i] + masses[j], masses[0] - masses[k]
            mass, width = lo + (hi - lo) * u(0.1, 0.95) + 1e-3, u(0.01, 0.4)
            if rng.uniform() < 0.06:  # stable, with the pole outside phase space
                mass, width = hi + u(0.05, 0.5), 0.0
            new = lambda r: r if shared_radii else u(0.5, 6)  # noqa: E731
            shape = ["BreitWigner", "BreitWigner", "MultichannelBreitWigner", "Custom"][
                int(rng.integers(4))
            ]
            function = {"name": f"f_{label}", "type": shape, "mass": mass}
            if other is not None:
                shape = other["type"]
                function = copy.deepcopy(dict(other, name=f"f_{label}"))
                target = function["channels"][0] if "channels" in function else function
                if shape != "Custom":
                    target.update(ma=masses[i], mb=masses[j])
            elif shape == "BreitWigner":
                function.update(
                    width=width, ma=masses[i], mb=masses[j], l=orbital(rng, 4),
                    d=new(r_res),
                )
            elif shape == "Custom":
                function.update(width=width, slope=u(0, 1))
            else:
                channels = [dict(
                    gsq=u(0.05, 0.6), ma=masses[i], mb=masses[j],
                    l=orbital(rng, 3), d=u(0.5, 5),
                )]
                for _ in range(int(rng.integers(1, 5) if rng.uniform() < 0.9 else rng.integers(5, 12))):
                    channels.append(dict(
                        gsq=0.0 if rng.uniform() < 0.06 else u(0.05, 0.6), ma=u(0.05, 1), mb=u(0.05, 1),
                        l=orbital(rng, 3), d=u(0.5, 5),
                    ))
                function["channels"] = channels
            functions.append(function)
            seen.append(((name, k, spin), function))
            ffs = []
            for kind, radius in (("dec", new(r_res)), ("prod", new(r_ini))):
                if rng.uniform() < 0.5:
                    ffs.append(None)
                    continue
                el = orbital(rng, 4)
                if frugal and ffs and ffs[0] and radius == ffs[0][2] and rng.uniform() < 0.6:
                    el = ffs[0][1]  # both nodes refer to one function
                ff = (f"bw_{kind}_{label}", el, radius)
                if frugal:
                    ff = shared_functions.setdefault((el, radius), ff)
                if all(f["name"] != ff[0] for f in functions):
                    functions.append({
                        "name": ff[0], "type": "BlattWeisskopf", "l": ff[1], "radius": ff[2]
                    })
                ffs.append(ff)
            hel_prod = [
                (a, b) for a in projections(spin) for b in projections(spins[k])
                if abs(a - b) <= spins[0]
            ]
            hel_dec = [
                (a, b) for a in projections(spins[i]) for b in projections(spins[j])
                if abs(a - b) <= spin
            ]
            for _ in range(int(rng.integers(1, max_chains + 1))):
                hp = hel_prod[int(rng.integers(len(hel_prod)))]
                hd = hel_dec[int(rng.integers(len(hel_dec)))]
                key = weight_key(name, k, hp, hd)
                if unique_weights and key in used:
                    continue
                used.add(key)
                vertices = [
                    (
                        kind := ["helicity", "parity"][int(rng.integers(2))],
                        h,
                        ["+", "-", ""][int(rng.choice([0, 0, 1, 1, 2]))]
                        if kind == "parity" else None,
                    )
                    for h in (hp, hd)
                ]
                w = complex(u(-4, 4), u(-4, 4))
                if rng.uniform() < 0.06:  # switched off
                    w = 0j
                chain = Chain(name, k, spin, *vertices, w, function, ffs[0], ffs[1], shape)
                # now and then the same definition twice
                out.chains.extend([chain] * (2 if rng.uniform() < 0.08 else 1))
    if rng.uniform() < 0.3:  # functions that are not meant, with almost the same name
        for f in [functions[int(x)] for x in rng.permutation(len(functions))[:3]]:
            name = [f["name"].upper(), f["name"].swapcase(), f["name"] + "_", f["name"] + " "][
                int(rng.integers(4))
            ]
            decoy = dict(copy.deepcopy(f), name=name)
            for key in ("mass", "width", "radius", "d"):
                if key in decoy:
                    decoy[key] *= 1.7
            if "channels" in decoy:
                decoy["channels"][0]["gsq"] *= 1.7
            functions.append(decoy)
    if own_masses:  # lineshapes for other particles than the decay products
        for f in functions:
            for part in (f, *f.get("channels", ())[:1]):
                if "ma" in part:
                    part.update(ma=part["ma"] * u(0.7, 0.95), mb=part["mb"] * u(0.7, 0.95))
    order = rng.permutation(len(out.chains))
    out.chains = [out.chains[int(x)] for x in order]
    out.definition = write_definition(rng, out, functions)
    return out


def node_of(k):
    i, j = IJ[k]
    return [i, j]


def write_definition(rng, spec: Ser, functions) -> dict:
    chains = []
    texts = {}
    for c in spec.chains:
        if id(c) not in texts:
            texts[id(c)], c.weight = write_weight(rng, c.weight)
        text = texts[id(c)]
        node = node_of(c.k)
        vertices = []
        for (kind, hel, parity), where, ff in (
            (c.prod, [node, c.k], c.ff_prod), (c.dec, node, c.ff_dec)
        ):
            v = {
                "type": kind, "helicities": [str(h) for h in hel], "node": where,
                "formfactor": ff[0] if ff else "",
            }
            if kind == "parity":
                v["parity_factor"] = parity
            vertices.append(v)
        if rng.uniform() < 0.2:
            vertices.reverse()
        chains.append({
            "name": c.name,
            "propagators": [{
                "spin": str(c.spin), "node": node, "parametrization": c.function["name"]
            }],
            "weight": text, "vertices": vertices, "topology": [node, c.k],
        })
    states = [
        {"index": i, "name": spec.names[i], "spin": str(spec.spins[i]), "mass": spec.masses[i]}
        for i in range(4)
    ]
    final = [states[int(x)] for x in 1 + rng.permutation(3)]
    functions = [functions[int(x)] for x in rng.permutation(len(functions))]
    return {
        "distributions": [{
            "name": "model", "type": "HadronicUnpolarizedIntensity",
            "decay_description": {
                "kinematics": {"initial_state": states[0], "final_state": final},
                "reference_topology": [node_of(spec.reference), spec.reference],
                "chains": chains, "appendix": {},
            },
            "variables": [], "parameters": [],
        }],
        "functions": functions, "domains": [], "misc": {}, "parameter_points": [],
    }


# ----------------------------------------------------------------- reference
def custom_builder(propagator, resonance, model):
    """Dynamics of the user for the additional function type."""
    import sympy as sp

    from ampform_dpd import DefinedExpression

    (function,) = [f for f in model["functions"] if f["name"] == propagator["parametrization"]]
    (k,) = {1, 2, 3} - set(propagator["node"])
    s = sp.Symbol(f"sigma{k}", nonnegative=True)
    mass = sp.Symbol(f"M_{{{resonance}}}", nonnegative=True)
    width = sp.Symbol(f"W_{{{resonance}}}", nonnegative=True)
    slope = sp.Symbol(f"B_{{{resonance}}}", nonnegative=True)
    return DefinedExpression(
        sp.exp(-slope * s) / (mass**2 - s - sp.I * mass * width),
        {mass: function["mass"], width: function["width"], slope: function["slope"]},
    )


def lineshape(f: dict, s, radius=None):
    if f["type"] == "Custom":
        m, w = f["mass"], f["width"]
        return np.exp(-f["slope"] * s) / (m**2 - s - 1j * m * w)
    if f["type"] == "BreitWigner":
        m, w = f["mass"], f["width"]
        d = f["d"] if radius is None else radius
        g = ref.energy_dependent_width(s, m, w, f["ma"], f["mb"], f["l"], d)
        return 1 / (m**2 - s - 1j * m * g)
    total = 0
    for c in f["channels"]:
        q = ref.breakup_momentum(s, c["ma"], c["mb"])
        ff = ref.form_factor(c["l"], c["d"], s, c["ma"], c["mb"])
        total = total + c["gsq"] * 2 * q / np.sqrt(s) * ff**2
    return 1 / (f["mass"] ** 2 - s - 1j * f["mass"] * total)


def vertex_value(vertex, la, lb):
    kind, (a, b), parity = vertex
    value = int((la, lb) == (a, b))
    if kind == "parity":
        f = {"+": 1, "-": -1, "": 0}[parity]
        if (a, b) != (0, 0):
            value += f * int((la, lb) == (-a, -b))
    return value


def shared_values(spec: Ser) -> list[dict]:
    """Radii and weights if all of one kind have to share one symbol.

    The value of one of them remains, of the first or the last chain, and of the first
    or last function of that chain.
    """
    items = []
    for c, d in zip(spec.chains, spec.definition["distributions"][0]["decay_description"]["chains"]):
        own = []
        if c.shape == "BreitWigner":
            own.append(("res", c.function["d"]))
        for v in d["vertices"]:
            if len([n for n in v["node"] if isinstance(n, int)]) == 2:
                if c.ff_dec:
                    own.append(("res", c.ff_dec[2]))
            elif c.ff_prod:
                own.append(("ini", c.ff_prod[2]))
        own.append((("weight", weight_key(c.name, c.k, c.prod[1], c.dec[1])), c.weight))
        items.append(own)
    out = []
    for chains in (items, items[::-1]):
        for flip in (False, True):
            out.append({k: v for own in chains for k, v in (own[::-1] if flip else own)})
    return out


def reference_amplitude(spec: Ser, kin, shared=None):
    shared = shared or {}
    s_of = kin.sigma
    factors = []
    for c in spec.chains:
        i, j = IJ[c.k]
        s = s_of[c.k]
        function = c.function
        if shared.get("masses"):  # those of the decay products
            function = copy.deepcopy(function)
            own = function["channels"][0] if "channels" in function else function
            own.update(ma=kin.m[i], mb=kin.m[j])
        dyn = lineshape(function, s, shared.get("res"))
        if c.ff_dec:
            _, el, r = c.ff_dec
            dyn = dyn * ref.form_factor(el, shared.get("res", r), s, kin.m[i], kin.m[j])
        if c.ff_prod:
            _, el, r = c.ff_prod
            dyn = dyn * ref.form_factor(
                el, shared.get("ini", r), kin.m0**2, np.sqrt(s), kin.m[c.k]
            )
        key = weight_key(c.name, c.k, c.prod[1], c.dec[1])
        w = shared.get(("weight", key), c.weight)
        factors.append(w * dyn * np.sqrt(float(2 * c.spin + 1)))

    def amplitude(k, lam):
        total = np.zeros(kin.n, dtype=complex)
        for c, factor in zip(spec.chains, factors):
            if c.k == k:
                total = total + ref.chain_amplitude(
                    kin, k, spec.spins, c.spin, lam,
                    lambda a, b, c=c: vertex_value(c.prod, a, b),
                    lambda a, b, c=c: vertex_value(c.dec, a, b),
                    factor,
                )
        return total

    return amplitude


def reference_intensity(spec: Ser, kin, shared=None):
    amp = reference_amplitude(spec, kin, shared)
    return ref.total_intensity(kin, spec.spins, amp, spec.subsystems, spec.reference)
