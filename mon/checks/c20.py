"""Decay structure of serialized models."""

from __future__ import annotations

import copy
import json
import warnings

from mon import ser
from mon.ref import IJ, fr

ID = "C20"
RULE = (
    "A case is one made-up serialized model with nodes in any order (spectator first or"
    " last, decay products swapped), LS and helicity vertices, several helicity entries"
    " per resonance; states, chains, look-ups and rejections are compared with the"
    " definition, also for shuffled definitions. Distinct: one model definition."
)
REQUIRED = {"decay": 100, "chain": 150, "lookup": 150, "rejections": 150, "warned": 20}
CHUNK = 4


def cases(tier):
    return 240 if tier == "quick" else 2000


def run(ctx):
    from ampform_dpd.io.serialization import decay as sd
    from ampform_dpd.io.serialization import format as sf
    from ampform_dpd.io.serialization.amplitude import get_existing_subsystem_ids

    rng = ctx.rng
    spec = ser.random_model(rng)
    definition = spec.definition
    dd = definition["distributions"][0]["decay_description"]
    # scramble the order within nodes, per resonance
    layout = {}
    for c, d in zip(spec.chains, dd["chains"]):
        node = list(IJ[c.k])
        flip, first = layout.setdefault((c.name, c.k), (rng.uniform() < 0.5, rng.uniform() < 0.5))
        if flip:
            node.reverse()
        top = [c.k, node] if first else [node, c.k]
        d["topology"] = copy.deepcopy(top)
        d["propagators"][0]["node"] = list(node)
        for v in d["vertices"]:
            is_production = any(not isinstance(n, int) for n in v["node"])
            v["node"] = copy.deepcopy(top if is_production else node)
            if rng.uniform() < 0.3:
                v["type"] = "ls"
                v["l"], v["s"] = "1", "1/2"
                v.pop("helicities")
    k = spec.reference
    dd["reference_topology"] = [k, list(IJ[k])] if rng.uniform() < 0.5 else [list(IJ[k]), k]
    ctx.info = {"model": spec.describe()}
    ctx.sample(ctx.info)
    ctx.distinct(json.dumps(definition))
    given = copy.deepcopy(definition)

    def judge(to_latex, definition):
        args = () if to_latex is None else (to_latex,)
        tex = (lambda x: x) if to_latex is None else to_latex
        decay = sd.to_decay(definition, *args)
        states = sd.get_states(definition, *args)
        initial = sd.get_initial_state(definition, *args)
        final = sd.get_final_state(definition, *args)
        ctx.event("decay")
        for source, got in (
            ("decay", dict(decay.states)), ("states", dict(states)),
            ("separate", {0: initial, **final}),
        ):
            ctx.require(
                {i: (s.name, s.latex, fr(s.spin), s.mass, s.index) for i, s in got.items()}
                == {
                    i: (spec.names[i], tex(spec.names[i]), spec.spins[i], spec.masses[i], i)
                    for i in range(4)
                },
                f"states:{source}", "states differ from the definition", observed=got,
            )
        expected = set()
        for c in spec.chains:
            flip, _ = layout[c.name, c.k]
            i, j = IJ[c.k]
            products = (j, i) if flip else (i, j)
            expected.add((c.name, tex(c.name), c.spin, products, c.k))
        observed = [
            (
                c.resonance.name, c.resonance.latex, fr(c.resonance.spin),
                tuple(p.index for p in c.decay_products), c.spectator.index,
            )
            for c in decay.chains
        ]
        ctx.event("chain", len(observed))
        ctx.require(
            len(observed) == len(set(observed)) and set(observed) == expected,
            "chains", "chains differ from the definition",
            observed=observed, expected=expected,
        )
        ctx.require(
            all(c.parent == decay.initial_state for c in decay.chains)
            and all(
                decay.final_state[p.index] == p
                for c in decay.chains for p in (*c.decay_products, c.spectator)
            ),
            "chain-states", "states in chains differ from the states of the decay",
        )
        return decay

    decay = judge(None, definition)
    judge(lambda x: Rf"\mathrm{{{x}}}", definition)
    for d, c in zip(dd["chains"], spec.chains):
        chain = sd.to_decay_chain(d, decay.initial_state, decay.final_state)
        ctx.require(chain in decay.chains, "single-chain", "chain is not part of the decay")
        ctx.require(
            sd.get_spectator_id(d["topology"]) == c.k, "spectator", "wrong spectator",
            topology=d["topology"],
        )
        ctx.event("lookup")
        ctx.require(
            sf.get_function_definition(c.function["name"], definition) == c.function,
            "function", "wrong function definition",
        )
    ctx.require(
        sd.get_spectator_id(sf.get_reference_topology(definition)) == k
        and list(get_existing_subsystem_ids(definition)) == spec.subsystems
        and sf.get_decay_chains(definition) == dd["chains"],
        "subsystems", "reference or existing subsystems differ",
    )
    ctx.require(definition == given, "input-modified", "definition was modified")
    shuffled = copy.deepcopy(definition)
    sdd = shuffled["distributions"][0]["decay_description"]
    for items in (sdd["chains"], sdd["kinematics"]["final_state"], shuffled["functions"]):
        items[:] = [items[int(x)] for x in rng.permutation(len(items))]
    for c in sdd["chains"]:
        c["vertices"].reverse()
    ctx.require(judge(None, shuffled) == decay, "order", "decay depends on order of entries")
    # more than one distribution: first one, with a warning
    double = copy.deepcopy(definition)
    double["distributions"].append({"name": "other"})
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        again = sd.to_decay(double)
    ctx.event("warned")
    ctx.require(
        again == decay and any("distribution" in str(w.message) for w in caught),
        "several-distributions", "second distribution changed the decay or was not reported",
    )
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        sd.to_decay(definition)
        sf.get_reference_topology(definition)
    ctx.require(
        not caught, "unfounded-warning", f"{[str(w.message) for w in caught]} for one distribution"
    )
    name = spec.chains[0].function["name"]
    try:
        sf.get_function_definition(name + "_", definition)
    except KeyError as exc:
        ctx.require(
            repr(name + "_")[1:-1] in str(exc) and name in str(exc).replace(name + "_", ""),
            "suggestion", f"message for unknown {name}_ does not mention {name}: {exc}",
        )
    empty = dict(definition, distributions=[])
    ctx.raises("no-distribution", (ValueError,), sd.to_decay, empty)
    ctx.raises(
        "unknown-function", (KeyError,), sf.get_function_definition,
        spec.chains[0].function["name"] + "x", definition,
    )
    # definitions are documents that people edit in place
    edited = copy.deepcopy(definition)
    for n, f in enumerate(edited["functions"]):
        ctx.require(
            sf.get_function_definition(f["name"], edited) == f, "function", "first look-up"
        )
        new = {**copy.deepcopy(f), "edited": n}
        edited["functions"][n] = new
        ctx.require(
            sf.get_function_definition(f["name"], edited) == new, "function-edited",
            "look-up does not give the current definition",
        )
    new["name"] += "x"
    ctx.require(
        sf.get_function_definition(new["name"], edited) == new, "function-edited",
        "renamed function is not found",
    )
    ctx.raises(
        "function-renamed", (KeyError,), sf.get_function_definition, new["name"][:-1], edited
    )
    edited = copy.deepcopy(definition)
    sd.to_decay(edited)
    state = edited["distributions"][0]["decay_description"]["kinematics"]["final_state"][0]
    state["mass"] = 2 * state["mass"] + 0.5
    ctx.require(
        sd.get_states(edited)[state["index"]].mass == state["mass"]
        and sd.to_decay(edited).states[state["index"]].mass == state["mass"]
        and sd.to_decay(definition) == decay,
        "state-edited", "decay does not follow the current definition",
    )
    for bad in ([1, 2], [[1, 2], [3, 4]], [1, 2, 3]):
        ctx.raises("not-three-body", (ValueError,), sd.get_spectator_id, bad)
    for index in (0, 1):
        broken = copy.deepcopy(definition)
        c = broken["distributions"][0]["decay_description"]["chains"][0]
        is_decay = [all(isinstance(n, int) for n in v["node"]) for v in c["vertices"]]
        c["vertices"] = [v for v, d in zip(c["vertices"], is_decay) if d == bool(index)]
        ctx.raises("missing-vertex", (ValueError,), sd.to_decay, broken)
