"""Independent numerical reference: nothing in here imports the code under test.

Spins and helicities are :class:`fractions.Fraction`; kinematics are numpy arrays.
"""

from __future__ import annotations

from fractions import Fraction as F
from functools import cache
from itertools import product
from math import factorial, sqrt

import numpy as np

IJ = {1: (2, 3), 2: (3, 1), 3: (1, 2)}


def fr(x) -> F:
    """Convert anything number-like (sympy Rational, float, str) to a Fraction."""
    if isinstance(x, F):
        return x
    if isinstance(x, (int, float, str)):
        return F(x)
    return F(str(x))


def projections(j) -> list[F]:
    j = fr(j)
    return [-j + n for n in range(int(2 * j) + 1)]


def sign(exponent) -> int:
    exponent = fr(exponent)
    if exponent.denominator != 1:
        msg = f"(-1)^{exponent} is not real"
        raise ValueError(msg)
    return -1 if int(exponent) % 2 else 1


# ----------------------------------------------------------------- angular momentum
def fact(x) -> int:
    return factorial(int(x))


def wigner_d(j, m, n, beta):
    """Small Wigner d^j_{mn}(β) from Wigner's formula."""
    j, m, n = fr(j), fr(m), fr(n)
    beta = np.asarray(beta, dtype=float)
    if abs(m) > j or abs(n) > j:
        return np.zeros_like(beta)
    c, s = np.cos(beta / 2), np.sin(beta / 2)
    pref = sqrt(fact(j + m) * fact(j - m) * fact(j + n) * fact(j - n))
    total = np.zeros_like(beta)
    for k in range(int(max(0, n - m)), int(min(j + n, j - m)) + 1):
        den = fact(j + n - k) * fact(k) * fact(m - n + k) * fact(j - m - k)
        term = sign(m - n + k) * pref / den
        total = total + term * c ** int(2 * j + n - m - 2 * k) * s ** int(m - n + 2 * k)
    return total


@cache
def cg(j1, m1, j2, m2, j3, m3) -> float:
    """Clebsch-Gordan coefficient ⟨j1 m1 j2 m2|j3 m3⟩ from Racah's formula."""
    j1, m1, j2, m2, j3, m3 = map(fr, (j1, m1, j2, m2, j3, m3))
    if m1 + m2 != m3 or not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0.0
    if (j1 + j2 + j3).denominator != 1:
        return 0.0
    if abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.0
    if (j1 - m1).denominator != 1 or (j2 - m2).denominator != 1:
        return 0.0
    delta = F(
        fact(j1 + j2 - j3) * fact(j1 - j2 + j3) * fact(-j1 + j2 + j3),
        fact(j1 + j2 + j3 + 1),
    )
    norm = (
        (2 * j3 + 1)
        * delta
        * fact(j3 + m3)
        * fact(j3 - m3)
        * fact(j1 - m1)
        * fact(j1 + m1)
        * fact(j2 - m2)
        * fact(j2 + m2)
    )
    total = F(0)
    for k in range(int(j1 + j2 + j3) + 2):
        dens = [
            k,
            j1 + j2 - j3 - k,
            j1 - m1 - k,
            j2 + m2 - k,
            j3 - j2 + m1 + k,
            j3 - j1 - m2 + k,
        ]
        if any(d < 0 for d in dens):
            continue
        den = 1
        for d in dens:
            den *= fact(d)
        total += F((-1) ** k, den)
    return float(total) * sqrt(norm)


def ls_list(j0, j1, j2, max_l=None) -> list[tuple[int, F]]:
    """All (L, S) with |j1-j2| ≤ S ≤ j1+j2 and |L-S| ≤ j0 ≤ L+S, integer steps."""
    j0, j1, j2 = map(fr, (j0, j1, j2))
    out = []
    s = abs(j1 - j2)
    while s <= j1 + j2:
        if (j0 - s).denominator == 1:
            for el in range(int(abs(j0 - s)), int(j0 + s) + 1):
                if max_l is None or el <= max_l:
                    out.append((el, s))
        s += 1
    return sorted(out)


def ls_to_helicity(el, s, j, j1, l1, j2, l2) -> float:
    """Recoupling ⟨J; λ1 λ2|J; L S⟩ (Jacob-Wick)."""
    j1, l1, j2, l2, s, j = map(fr, (j1, l1, j2, l2, s, j))
    return (
        sqrt((2 * el + 1) / float(2 * j + 1))
        * cg(j1, l1, j2, -l2, s, l1 - l2)
        * cg(F(el), F(0), s, l1 - l2, j, l1 - l2)
    )


# ----------------------------------------------------------------- kinematics
def kallen(a, b, c):
    return a * a + b * b + c * c - 2 * (a * b + b * c + c * a)


class Kinematics:
    """Planar three-body kinematics in the rest frame of the decaying particle.

    Isobar (23) moves along +z and particle 2 has positive x.  Arrays are vectorized over
    phase-space points; four-vectors are (E, px, pz).
    """

    def __init__(self, m0, masses, sigma1, cos_theta23):
        m1, m2, m3 = masses
        self.m0 = m0
        self.m = {0: m0, 1: m1, 2: m2, 3: m3}
        s1 = np.asarray(sigma1, dtype=float)
        c = np.asarray(cos_theta23, dtype=float)
        s = np.sqrt(1 - c * c)
        q = np.sqrt(np.maximum(kallen(s1, m2**2, m3**2), 0)) / (2 * np.sqrt(s1))
        p = np.sqrt(np.maximum(kallen(m0**2, m1**2, s1), 0)) / (2 * m0)
        g, gb = np.sqrt(s1 + p * p) / np.sqrt(s1), p / np.sqrt(s1)

        def boost(mass, px, pz):
            e = np.sqrt(mass**2 + px**2 + pz**2)
            return np.array([g * e + gb * pz, px, gb * e + g * pz])

        self.p = {
            1: np.array([np.sqrt(m1**2 + p * p), 0 * p, -p]),
            2: boost(m2, q * s, q * c),
            3: boost(m3, -q * s, -q * c),
        }
        self.sigma = {}
        for k, (i, j) in IJ.items():
            tot = self.p[i] + self.p[j]
            self.sigma[k] = tot[0] ** 2 - tot[1] ** 2 - tot[2] ** 2
        self.sigma[1] = s1

    @property
    def n(self):
        return self.sigma[1].shape[0]

    def symbols(self) -> dict[str, np.ndarray]:
        return {
            **{f"m{i}": self.m[i] for i in range(4)},
            **{f"sigma{k}": self.sigma[k] for k in (1, 2, 3)},
        }

    def scattering_angle(self, i, j):
        """Angle of i to the direction opposite to the spectator in the (ij) rest frame."""
        (k,) = {1, 2, 3} - {i, j}
        tot = self.p[i] + self.p[j]
        pi = to_rest_frame(self.p[i], tot)
        pk = to_rest_frame(self.p[k], tot)
        return angle_between(pi[1:], -pk[1:])

    def orientation(self) -> dict[int, np.ndarray]:
        """Rotation angle α_k about y that takes +z to the direction of isobar k.

        Chosen such that α_1=0, α_2 ∈ [-2π, 0], α_3 ∈ [0, 2π].
        """
        alpha = {1: np.zeros_like(self.sigma[1])}
        for k, rot in ((2, -1), (3, +1)):
            a = np.arctan2(-self.p[k][1], -self.p[k][2])
            wrong = a * rot < 0
            alpha[k] = np.where(wrong, a + rot * 2 * np.pi, a)
        return alpha

    def frames(self) -> dict[tuple[int, int], np.ndarray]:
        """SL(2,C) transformation from rest to flight of particle i, built along chain k.

        Second decay products and spectators are flipped with R_y(π), as in Jacob-Wick.
        """
        if not hasattr(self, "_frames"):
            alpha = self.orientation()
            out = {}
            for k, (i, j) in IJ.items():
                theta = self.scattering_angle(i, j)
                root = np.sqrt(self.sigma[k])
                pk = np.hypot(self.p[k][1], self.p[k][2])
                q2 = kallen(self.sigma[k], self.m[i] ** 2, self.m[j] ** 2)
                q = np.sqrt(np.maximum(q2, 0)) / (2 * root)
                mi, mj, mk = (self.m[a] if self.m[a] > 0 else 1e-4 for a in (i, j, k))
                base = mul(rot_y(alpha[k]), boost_z(np.arcsinh(pk / root)), rot_y(theta))
                flip = rot_y(np.full_like(root, np.pi))
                out[k, i] = mul(base, boost_z(np.arcsinh(q / mi)))
                out[k, j] = mul(base, flip, boost_z(np.arcsinh(q / mj)))
                out[k, k] = mul(
                    rot_y(alpha[k]), flip, boost_z(np.arcsinh(pk / mk))
                )
            self._frames = out
        return self._frames

    def wigner_rotation(self, i, k, r):
        """Angle in (-2π, 2π] of the rotation between the rest frames of i via k and r.

        Defined in SU(2), so modulo 4π.
        """
        if i == 0:
            alpha = self.orientation()
            return alpha[k] - alpha[r]
        frames = self.frames()
        if self.m[i] == 0:  # helicity is invariant: only the sign in SU(2) is left
            w = mul(inverse(frames[k, i]), frames[r, i])
            angle = 2 * np.arctan2(w[:, 1, 0], w[:, 0, 0])
            return 2 * np.pi * np.round(angle / (2 * np.pi))
        w = mul(inverse(frames[k, i]), frames[r, i])
        return 2 * np.arctan2(w[:, 1, 0], w[:, 0, 0])


def to_rest_frame(p, frame):
    """Boost (E, px, pz) to the rest frame of `frame` (a rotation-free boost)."""
    mass = np.sqrt(frame[0] ** 2 - frame[1] ** 2 - frame[2] ** 2)
    b = frame[1:] / frame[0]
    b2 = np.sum(b * b, axis=0)
    g = frame[0] / mass
    bp = np.sum(b * p[1:], axis=0)
    with np.errstate(invalid="ignore", divide="ignore"):
        coef = np.where(b2 > 0, (g - 1) * bp / np.where(b2 > 0, b2, 1), 0)
    return np.array([
        g * (p[0] - bp),
        *(p[1:] + coef * b - g * b * p[0]),
    ])


def angle_between(a, b):
    cross = a[0] * b[1] - a[1] * b[0]
    return np.abs(np.arctan2(cross, a[0] * b[0] + a[1] * b[1]))


def rot_y(a):
    c, s = np.cos(a / 2), np.sin(a / 2)
    return np.moveaxis(np.array([[c, -s], [s, c]]), -1, 0)


def boost_z(xi):
    z = np.zeros_like(xi)
    return np.moveaxis(np.array([[np.exp(xi / 2), z], [z, np.exp(-xi / 2)]]), -1, 0)


def mul(*mats):
    out = mats[0]
    for m in mats[1:]:
        out = out @ m
    return out


def inverse(m):
    """Inverse of a 2x2 matrix with determinant one."""
    out = np.empty_like(m)
    out[:, 0, 0], out[:, 1, 1] = m[:, 1, 1], m[:, 0, 0]
    out[:, 0, 1], out[:, 1, 0] = -m[:, 0, 1], -m[:, 1, 0]
    return out


def random_kinematics(rng, m0, masses, n, *, edge=True) -> Kinematics:
    m1, m2, m3 = masses
    lo, hi = (m2 + m3) ** 2, (m0 - m1) ** 2
    u = rng.uniform(0.02, 0.98, n)
    c = rng.uniform(-0.98, 0.98, n)
    if edge and n >= 4:
        u[0], c[1], c[2], u[3] = 1e-3, 0.9995, -0.9995, 0.999
    return Kinematics(m0, masses, lo + u * (hi - lo), c)


# ----------------------------------------------------------------- dynamics
@cache
def _bw_poly(el: int) -> tuple[list[F], float]:
    """Coefficients of |x h_l(x)|² as polynomial in 1/x² (real x), value at x=1."""
    c = [F(fact(el + k), fact(el - k) * fact(k) * 2**k) for k in range(el + 1)]
    poly = [F(0)] * (el + 1)
    for a in range(el + 1):
        for b in range(el + 1):
            if (a + b) % 2 == 0:
                # i^a * conj(i^b) summed over (a, b) and (b, a): real part
                poly[(a + b) // 2] += c[a] * c[b] * (-1) ** ((a - b) // 2)
    return poly, float(sum(poly))


def blatt_weisskopf_squared(el: int, z):
    """B_L²(z) with B_L²(1)=1, from spherical Hankel functions: |h(1)|²/(z|h(√z)|²)."""
    poly, at_one = _bw_poly(int(el))
    z = np.asarray(z)
    num = at_one * z ** int(el)
    den = sum(float(c) * z ** (int(el) - p) for p, c in enumerate(poly))
    return num / den


def breakup_momentum_squared(s, m1, m2):
    return (s - (m1 + m2) ** 2) * (s - (m1 - m2) ** 2) / (4 * s)


def form_factor(el, radius, s, m1, m2):
    z = breakup_momentum_squared(s, m1, m2) * radius**2
    return np.sqrt(np.asarray(blatt_weisskopf_squared(el, z), dtype=complex))


def csqrt(x):
    return np.sqrt(np.asarray(x, dtype=complex))


def breakup_momentum(s, m1, m2):
    return csqrt(s - (m1 + m2) ** 2) * csqrt(s - (m1 - m2) ** 2) / (2 * csqrt(s))


def phase_space(s, m1, m2):
    return 2 * breakup_momentum(s, m1, m2) / csqrt(s)


def energy_dependent_width(s, m0, w0, m1, m2, el, radius, rho=phase_space):
    """Γ(s) = Γ0 · B_L²(s)/B_L²(m0²) · ρ(s)/ρ(m0²)."""
    z = breakup_momentum_squared(s, m1, m2) * radius**2
    z0 = breakup_momentum_squared(m0**2, m1, m2) * radius**2
    ff2 = blatt_weisskopf_squared(el, z) / blatt_weisskopf_squared(el, z0)
    return w0 * ff2 * rho(s, m1, m2) / rho(m0**2, m1, m2)


# ----------------------------------------------------------------- amplitudes
def chain_amplitude(kin, k, spins, res_spin, lam, h_prod, h_dec, dynamics):
    """A^k for helicities `lam` = (λ0, λ1, λ2, λ3) defined in the frames of chain k.

    `h_prod(λR, λk)` and `h_dec(λi, λj)` are helicity couplings (Jacob-Wick).
    """
    i, j = IJ[k]
    l_res = lam[0] + lam[k]
    if abs(l_res) > res_spin:
        return np.zeros(kin.n, dtype=complex)
    d = wigner_d(res_spin, l_res, lam[i] - lam[j], kin.scattering_angle(i, j))
    phase = sign(spins[k] - lam[k]) * sign(spins[j] - lam[j])
    return phase * h_prod(l_res, lam[k]) * h_dec(lam[i], lam[j]) * d * dynamics


def chain_sign(k, spins) -> int:
    """Sign between chain k in DPD convention and its SU(2) construction.

    The decomposition leaves the overall sign of a chain to the couplings; this is the
    one that follows from the ranges of the alignment angles.
    """
    exponent = {1: F(0), 2: 2 * spins[3], 3: 2 * spins[2]}[k]
    return sign(exponent)


def total_intensity(kin, spins, subsystem_amplitude, subsystems, reference):
    """Σ|A|² with spin frames aligned by explicit SL(2,C) Wigner rotations.

    `subsystem_amplitude(k, lam)` gives A^k; no formula of the paper's appendix is used.
    """
    hel = {i: projections(spins[i]) for i in range(4)}
    dims = [len(hel[i]) for i in range(4)]
    total = np.zeros((*dims, kin.n), dtype=complex)
    for k in subsystems:
        amp = np.empty((*dims, kin.n), dtype=complex)
        for idx in product(*map(range, dims)):
            lam = tuple(hel[i][n] for i, n in enumerate(idx))
            amp[idx] = subsystem_amplitude(k, lam)
        for i in range(4):
            w = kin.wigner_rotation(i, k, reference)
            # |r, λ⟩ = Σ_λ' d_{λ'λ}(w)|k, λ'⟩ for final states, inverse for the initial
            mat = np.array([
                [
                    wigner_d(spins[i], a, b, w) if i == 0 else wigner_d(spins[i], b, a, w)
                    for b in hel[i]
                ]
                for a in hel[i]
            ])
            moved = np.moveaxis(amp, i, 0)
            moved = np.einsum("abn,b...n->a...n", mat, moved)
            amp = np.moveaxis(moved, 0, i)
        total += chain_sign(k, spins) * amp
    return np.sum(np.abs(total) ** 2, axis=(0, 1, 2, 3))
