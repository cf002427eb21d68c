"""Serialized models evaluate to the amplitude that they specify."""

from __future__ import annotations

import copy
import json

import numpy as np
import sympy as sp

from mon import gen, ref, ser
from mon import model as M
from mon.core import REPO

ID = "C21"
RULE = (
    "A case is one made-up serialized model (helicity and parity vertices, Breit-Wigner,"
    " multichannel and user-made lineshapes, form factors, complex weights in several"
    " notations, shuffled chains, vertices and functions) of which intensity and every"
    " subsystem amplitude are compared with an independent evaluation on 6 phase-space"
    " points; case 0 evaluates the published Lc→pπK model against its own checksum."
    " A tenth of the cases each has different radii per form factor, several weights for the"
    " same helicities, and lineshapes with other masses than those of the decay products, which"
    " triggers known findings. Distinct: one model definition."
    " Weights are written with exponents, signs and spaces in all places that Python's"
    " complex numbers allow."
)
REQUIRED = {"intensity": 25, "amplitude": 300, "weight": 50, "checksum": 1, "own-radii": 2, "own-masses": 2}
CASE_LIMIT = {"quick": 300, "thorough": 1200}
FINDING = "shared-radius-symbols"
FINDING_WEIGHT = "shared-weight-symbols"
FINDING_MASS = "shared-mass-symbols"
FINDINGS = {"own-radii": FINDING, "weights": FINDING_WEIGHT, "own-masses": FINDING_MASS}


def cases(tier):
    return 90 if tier == "quick" else 600


def published(ctx):
    """The published model reproduces the checksum that comes with it."""

    from ampform_dpd import DefinedExpression
    from ampform_dpd.dynamics import BuggBreitWigner
    from ampform_dpd.io.serialization.amplitude import formulate

    definition = json.loads((REPO / "docs" / "Lc2ppiK.json").read_text())
    functions = {f["name"]: f for f in definition["functions"]}
    dd = definition["distributions"][0]["decay_description"]
    kinematics = dd["kinematics"]
    m = {s["index"]: s["mass"] for s in kinematics["final_state"]}
    m[0] = kinematics["initial_state"]["mass"]

    def bugg(propagator, resonance, model):
        f = functions[propagator["parametrization"]]
        (k,) = {1, 2, 3} - set(propagator["node"])
        s = sp.Symbol(f"sigma{k}", nonnegative=True)
        args = [sp.Symbol(f"{x}_{resonance}", nonnegative=True) for x in "MWG"]
        m_kaon, m_pion = (sp.Symbol(f"m{i}", nonnegative=True) for i in (3, 2))
        mass, width, slope = args
        return DefinedExpression(
            BuggBreitWigner(s, mass, width, m_kaon, m_pion, slope),
            {mass: f["mass"], width: f["width"], slope: f["slope"]},
        )

    # the weights of this model belong to form factors that are 1 at the pole
    for c in dd["chains"]:
        pole = functions[c["propagators"][0]["parametrization"]]["mass"]
        weight = complex(c["weight"].replace(" ", "").replace("i", "j"))
        for v in c["vertices"]:
            if not v["formfactor"]:
                continue
            f = functions[v["formfactor"]]
            if all(isinstance(n, int) for n in v["node"]):
                args = (pole**2, *(m[n] for n in v["node"]))
            else:
                args = (m[0] ** 2, pole, m[v["node"][1]])
            weight /= complex(ref.form_factor(f["l"], f["radius"], *args))
        c["weight"] = f"{weight.real!r} + {weight.imag!r}i".replace("+ -", "- ")
    model = formulate(
        definition, additional_builders={"BreitWignerWidthExpLikeBugg": bugg}
    )
    s3, s2 = 1.9247541217931925, 3.6486261122281745
    s1 = sum(v**2 for v in m.values()) - s2 - s3
    # kinematics of this point
    (point,) = definition["parameter_points"]
    values = {p["name"]: p["value"] for p in point["parameters"]}
    ctx.close("published-point", s2, values["m_31"] ** 2, rtol=1e-9)

    class Point:
        n = 1

        @staticmethod
        def symbols():
            return {
                **{f"m{i}": m[i] for i in range(4)},
                **{f"sigma{k}": np.array([s]) for k, s in ((1, s1), (2, s2), (3, s3))},
            }

    got = M.intensity(model, Point)
    (expected,) = [c["value"] for c in definition["misc"]["amplitude_model_checksums"]]
    ctx.event("checksum")
    ctx.close("checksum", got, expected, rtol=1e-9)


def run(ctx):
    from ampform_dpd.io.serialization.amplitude import formulate

    if ctx.idx == 0:
        published(ctx)
        return
    rng = ctx.rng
    style = {5: "own-radii", 7: "weights", 3: "own-masses"}.get(ctx.idx % 10, "plain")
    spec = ser.random_model(
        rng, shared_radii=style != "own-radii", unique_weights=style != "weights",
        own_masses=style == "own-masses",
    )
    if style in {"own-radii", "own-masses"}:
        ctx.event(style)
    given = copy.deepcopy(spec.definition)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 6)
    ctx.info = {"model": spec.describe(), "style": style}
    ctx.sample(ctx.info)
    ctx.distinct(json.dumps(spec.definition))
    cleanup = bool(rng.integers(2))
    tex = {"to_latex": lambda name: Rf"\mathrm{{{name.replace('_', '')}}}"}
    kwargs = tex if rng.uniform() < 0.3 else {}
    model = formulate(
        spec.definition, cleanup_summations=cleanup,
        additional_builders={"Custom": ser.custom_builder}, **kwargs,
    )
    ctx.require(spec.definition == given, "input-modified", "definition was modified")
    defined = set(model.parameter_defaults) | set(model.variables) | set(model.invariants)
    homonyms = {s.name for s in defined if isinstance(s, sp.Symbol)}
    for expr in [*model.amplitudes.values(), *model.variables.values()]:
        for s in sp.sympify(expr).free_symbols - defined:
            # substitution goes by symbol, not by name
            ctx.require(
                str(s) not in homonyms, "homonym",
                f"{s} is not the symbol of that name that the model defines",
                symbol=sp.srepr(s),
            )
    tol = dict(rtol=M.tolerance(spec), atol=1e-9)
    observed = M.intensity(model, kin)
    from mon.evalx import indexed_key

    evaluate = M.evaluator(model, kin)
    amplitudes = {}
    missing = 0
    table = {indexed_key(k): v for k, v in model.amplitudes.items()}
    for lam in gen.helicity_combinations(spec):
        for k in spec.subsystems:
            hits = [
                v for (label, indices), v in table.items()
                if str(k) in label and indices == tuple(lam)
            ]
            if len(hits) != 1:
                missing += 1
                continue
            value = np.asarray(evaluate(hits[0]), dtype=complex)
            amplitudes[k, tuple(lam)] = np.broadcast_to(value, (kin.n,))
    ctx.require(missing == 0, "amplitude-missing", f"{missing} amplitudes are not defined")

    def oracle(shared):
        """What the definition specifies, with the given shared values (if any)."""
        amp = ser.reference_amplitude(spec, kin, shared)
        expected = {key: amp(*key) for key in amplitudes}
        return ser.reference_intensity(spec, kin, shared), expected

    def explains(intensity, expected):
        # every part has to agree: a dominant chain hides deviations of the others
        scale = max((float(np.max(np.abs(v))) for v in expected.values()), default=0) + 1e-30
        return ctx.agrees("intensity", observed, intensity, **tol) and all(
            ctx.agrees("amplitude", amplitudes[key], value, scale=scale, **tol)
            for key, value in expected.items()
        )

    intensity, expected = oracle(None)
    if style != "plain" and not explains(intensity, expected):
        choices = [{"masses": True}] if style == "own-masses" else ser.shared_values(spec)
        for shared in choices:
            shared_oracle = oracle(shared)
            if explains(*shared_oracle):
                intensity, expected = shared_oracle
                ctx.finding(
                    FINDINGS[style], "values of different radii, weights or masses are shared"
                )
                break
    ctx.max_deviation.pop("intensity", None)
    ctx.max_deviation.pop("amplitude", None)
    ctx.event("intensity")
    ctx.close("intensity", observed, intensity, cleanup=cleanup, **tol)
    scale = max((float(np.max(np.abs(v))) for v in expected.values()), default=0) + 1e-30
    for (k, lam), value in expected.items():
        ctx.event("amplitude")
        ctx.close(
            "amplitude", amplitudes[k, lam], value, scale=scale, helicities=lam,
            subsystem=k, **tol,
        )
    # weights and masses are parameters with the values from the definition
    defaults = [complex(v) for s, v in model.parameter_defaults.items() if s.name.startswith("c^")]
    for c in spec.chains if style == "plain" else []:
        ctx.event("weight")
        ctx.require(
            any(abs(v - c.weight) < 1e-12 for v in defaults), "weight",
            "weight is not among the parameters", weight=c.weight, defaults=defaults,
        )
    for i in range(4):
        (value,) = [v for s, v in model.masses.items() if s.name == f"m{i}"]
        ctx.require(float(value) == spec.masses[i], "mass", f"mass m{i} differs", value=value)
