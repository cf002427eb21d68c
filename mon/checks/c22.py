"""Vertices and lineshapes of serialized models, piece by piece."""

from __future__ import annotations

import copy
import json

import numpy as np

from mon import gen, ref, ser
from mon.evalx import Evaluator, symbol_table
from mon.ref import IJ, fr, ls_list, projections

ID = "C22"
RULE = (
    "A case is one made-up serialized model whose masses and radii are unrelated to the"
    " final state; recoupling of every vertex (helicity, parity, LS) is evaluated for all"
    " helicity pairs, lineshape and form factor of every chain on 8 phase-space points,"
    " with the parameters they come with, and compared with closed formulas; corrupted"
    " definitions have to be rejected. Distinct: (vertex) and (function)."
    " Functions of unknown type whose name is that of a known one, and definitions with"
    " one entry left out, have to be rejected."
)
REQUIRED = {
    "helicity": 500, "parity": 500, "ls": 500, "lineshape": 80, "form-factor": 50,
    "rejections": 200, "override": 20,
}
CHUNK = 2


def cases(tier):
    return 144 if tier == "quick" else 1200


def run(ctx):
    from ampform_dpd.io.serialization.amplitude import formulate_recoupling
    from ampform_dpd.io.serialization.dynamics import (
        formulate_breit_wigner,
        formulate_dynamics,
        formulate_form_factor,
        formulate_multichannel_breit_wigner,
    )

    rng = ctx.rng
    spec = ser.random_model(rng, shared_radii=False)
    definition = spec.definition
    dd = definition["distributions"][0]["decay_description"]
    for c in spec.chains:  # masses in the function differ from those of the final state
        if c.shape == "BreitWigner":
            c.function["ma"] *= float(rng.uniform(0.5, 1))
            c.function["mb"] *= float(rng.uniform(0.5, 1))
        elif c.shape == "MultichannelBreitWigner":
            c.function["channels"][0]["ma"] *= float(rng.uniform(0.5, 1))
    given = copy.deepcopy(definition)
    ctx.info = {"model": spec.describe()}
    ctx.sample(ctx.info)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 8)

    # ---------------------------------------------------------------- recoupling
    def judge_recoupling(model, n, index, kind, names, spins, value):
        expr = formulate_recoupling(model, n, index)
        for a in projections(spins[0]):
            for b in projections(spins[1]):
                ctx.event(kind)
                values = {names[0]: gen.rational(a), names[1]: gen.rational(b)}
                fixed = expr.xreplace({x: values[x.name] for x in expr.free_symbols})
                obs = Evaluator({})(fixed)
                ctx.close(
                    f"recoupling:{kind}", obs, value(a, b), rtol=1e-9,
                    vertex=vertex, helicities=(a, b),
                )

    for n, c in enumerate(spec.chains):
        i, j = IJ[c.k]
        model = copy.deepcopy(definition)
        d = model["distributions"][0]["decay_description"]["chains"][n]
        flip = rng.uniform() < 0.4
        for index, vertex in enumerate(d["vertices"]):
            if all(isinstance(x, int) for x in vertex["node"]):
                parent, names = c.spin, [f"lambda{i}", f"lambda{j}"]
                spins, (kind, hel, factor) = [spec.spins[i], spec.spins[j]], c.dec
            else:
                parent, names = spec.spins[0], [r"\lambda_R", f"lambda{c.k}"]
                spins, (kind, hel, factor) = [c.spin, spec.spins[c.k]], c.prod
            hel = list(hel)
            if flip:
                for x in (names, spins, hel):
                    x.reverse()
                vertex["node"] = vertex["node"][::-1]
                vertex["helicities"] = [str(h) for h in hel]
            ctx.distinct("vertex", kind, hel, factor, names)
            judge_recoupling(
                model, n, index, kind, names, spins,
                lambda a, b: ser.vertex_value((kind, tuple(hel), factor), a, b),
            )
            options = ls_list(parent, *spins, 4)
            for o in rng.permutation(len(options))[:3]:
                el, s = options[int(o)]
                vertex["type"] = "ls"
                vertex["l"] = str(el) if rng.uniform() < 0.5 else el
                vertex["s"] = str(s)
                ctx.distinct("ls", el, s, parent, spins)
                judge_recoupling(
                    model, n, index, "ls", names, spins,
                    lambda a, b: ref.ls_to_helicity(el, s, parent, spins[0], a, spins[1], b),
                )
            vertex["type"] = "unknown"
            ctx.raises("vertex-type", (NotImplementedError,), formulate_recoupling, model, n, index)
            vertex.update(type="parity", parity_factor="*")
            ctx.raises("parity-factor", (NotImplementedError,), formulate_recoupling, model, n, index)
            vertex.update(parity_factor=" - ")
            judge_recoupling(
                model, n, index, "parity", names, spins,
                lambda a, b: ser.vertex_value(("parity", tuple(hel), "-"), a, b),
            )
        ctx.raises("vertex-index", (ValueError,), formulate_recoupling, model, n, 2)
        d["vertices"].append(d["vertices"][0])
        ctx.raises("vertex-count", (ValueError,), formulate_recoupling, model, n, 0)

    # ---------------------------------------------------------------- dynamics
    def evaluate(defined):
        values = kin.symbols()
        values.update(symbol_table(defined.parameters))
        return Evaluator(values)(defined.expression)

    seen = set()
    for c, d in zip(spec.chains, dd["chains"]):
        if (c.name, c.k) in seen:
            continue
        seen.add((c.name, c.k))
        s = kin.sigma[c.k]
        expected = ser.lineshape(c.function, s)
        extra = {"Custom": ser.custom_builder}
        ctx.event("lineshape")
        ctx.distinct("function", json.dumps(c.function))
        got = formulate_dynamics(d, definition, additional_definitions=extra)
        ctx.close(f"lineshape:{c.shape}", evaluate(got), expected, rtol=1e-7, function=c.function)
        direct = {
            "BreitWigner": formulate_breit_wigner,
            "MultichannelBreitWigner": formulate_multichannel_breit_wigner,
        }.get(c.shape)
        if direct:
            again = direct(d["propagators"][0], c.name, definition)
            ctx.close(f"direct:{c.shape}", evaluate(again), expected, rtol=1e-7)
        tex = formulate_dynamics(
            d, definition, lambda x: Rf"\mathbf{{{x}}}", additional_definitions=extra
        )
        ctx.close("latex-names", evaluate(tex), expected, rtol=1e-7, function=c.function)
        # the order of the decay products does not matter
        turned = copy.deepcopy(d)
        turned["propagators"][0]["node"].reverse()
        again = formulate_dynamics(turned, definition, additional_definitions=extra)
        values = _masses_swapped(c, definition)
        ctx.close(
            "turned-node",
            evaluate(formulate_dynamics(turned, values, additional_definitions=extra)),
            expected, rtol=1e-7, function=c.function,
        )
        if c.shape != "Custom":
            f = c.function["channels"][0] if c.shape == "MultichannelBreitWigner" else c.function
            for given_node, result in ((IJ[c.k], got), (IJ[c.k][::-1], again)):
                table = symbol_table(result.parameters)
                for x, key in zip(given_node, ("ma", "mb")):
                    ctx.require(
                        table.get(f"m{x}") == f[key], "mass-parameter",
                        f"m{x} is {table.get(f'm{x}')} instead of {key}", function=c.function,
                    )
        # builders of the user take precedence
        override = formulate_dynamics(
            d, definition, additional_definitions={c.shape: _constant}
        )
        ctx.event("override")
        ctx.close("override", evaluate(override), 7.0)
        if c.shape == "Custom":
            ctx.raises("no-builder", (NotImplementedError,), formulate_dynamics, d, definition)
        for v in d["vertices"]:
            is_decay = all(isinstance(x, int) for x in v["node"])
            ff = c.ff_dec if is_decay else c.ff_prod
            got = formulate_form_factor(v, definition)
            ctx.event("form-factor")
            if ff is None:
                expected = 1.0
            else:
                i, j = IJ[c.k]
                args = (
                    (s, kin.m[i], kin.m[j]) if is_decay
                    else (kin.m0**2, np.sqrt(s), kin.m[c.k])
                )
                expected = ref.form_factor(ff[1], ff[2], *args)
            ctx.close(
                "form-factor:decay" if is_decay else "form-factor:production",
                evaluate(got), expected, rtol=1e-6, atol=1e-7, form_factor=ff,
            )
            turned = dict(v, node=v["node"][::-1])
            ctx.close(
                "form-factor:turned", evaluate(formulate_form_factor(turned, definition)),
                expected, rtol=1e-6, atol=1e-7, form_factor=ff,
            )
            bad = dict(v, formfactor="missing")
            ctx.raises("unknown-form-factor", (KeyError,), formulate_form_factor, bad, definition)
            bad = dict(v, formfactor=c.function["name"])
            ctx.raises(
                "not-a-form-factor", (NotImplementedError,), formulate_form_factor, bad, definition
            )
        wrong = copy.deepcopy(d)
        wrong["propagators"][0]["parametrization"] = "missing"
        ctx.raises("unknown-function", (KeyError,), formulate_dynamics, wrong, definition)
        wrong = copy.deepcopy(definition)
        for f in wrong["functions"]:
            if f["name"] == c.function["name"]:
                f["type"] = "Unknown"
        ctx.raises("unknown-type", (NotImplementedError,), formulate_dynamics, d, wrong)
        for f in wrong["functions"]:  # names of functions are not types
            if f["name"] == c.function["name"]:
                f["name"] = "BreitWigner"
        alias = copy.deepcopy(d)
        alias["propagators"][0]["parametrization"] = "BreitWigner"
        ctx.raises("unknown-type", (NotImplementedError,), formulate_dynamics, alias, wrong)
        if c.shape != "Custom":  # every argument is needed
            many = c.function.get("channels", [])
            place = int(rng.integers(-1, len(many)))
            for key in list(many[place] if place >= 0 else c.function):
                if key in {"name", "type", "channels"}:
                    continue
                wrong = copy.deepcopy(definition)
                for f in wrong["functions"]:
                    if f["name"] == c.function["name"]:
                        del (f["channels"][place] if place >= 0 else f)[key]
                ctx.raises(f"incomplete:{key}", (KeyError, TypeError, ValueError), formulate_dynamics, d, wrong)
        if c.shape == "MultichannelBreitWigner":
            zero = copy.deepcopy(definition)  # a radius of zero is a value
            for f in zero["functions"]:
                if f["name"] == c.function["name"]:
                    f["channels"][-1]["d"] = 0.0
            table = formulate_dynamics(d, zero).parameters
            ctx.require(
                any(v == 0 for v in table.values()), "zero-radius",
                "a radius of zero is replaced", parameters=str(table),
            )
            single = copy.deepcopy(definition)
            for f in single["functions"]:
                if f["name"] == c.function["name"]:
                    f["channels"] = f["channels"][:1]
            ctx.raises("one-channel", (NotImplementedError,), formulate_dynamics, d, single)
    # two propagators multiply
    if len(seen) > 1:
        a, b = dd["chains"][:2]
        both = dict(a, propagators=[*a["propagators"], *b["propagators"]])
        extra = {k: _constant for k in ("BreitWigner", "MultichannelBreitWigner", "Custom")}
        got = formulate_dynamics(both, definition, additional_definitions=extra)
        ctx.close("product", evaluate(got), 49.0)
    ctx.require(definition == given, "input-modified", "definition was modified")


def _masses_swapped(chain, definition):
    """Definition in which the two decay products of one function are exchanged."""
    out = copy.deepcopy(definition)
    for f in out["functions"]:
        if f["name"] == chain.function["name"]:
            target = f["channels"][0] if "channels" in f else f
            if "ma" in target:
                target["ma"], target["mb"] = target["mb"], target["ma"]
    return out


def _constant(propagator, resonance, model):
    import sympy as sp

    from ampform_dpd import DefinedExpression

    x = sp.Symbol("x", nonnegative=True)
    return DefinedExpression(x, {x: 7.0})
