"""The particle collection is the QRules one plus the missing Λ(2000)."""

from __future__ import annotations

import os

import attrs

from mon import qr

ID = "C27"
RULE = (
    "A case loads the collection in one way (repeatedly, from another directory, after"
    " the caller changed an earlier result, after loading QRules' own collection) and"
    " compares it with QRules' own collection, particle by particle, and with the"
    " published properties of the addition. The particles of the collection are divided"
    " over the cases and each of them is converted in the role of resonance, initial"
    " state and final state. Distinct: one particle."
)
REQUIRED = {"loaded": 16, "compared": 4000, "converted": 450, "addition": 16}
ADDED = {
    "name": "Lambda(2000)", "latex": R"\Lambda(2000)", "mass": 2.0, "width": 0.21,
    "pid": 11111111, "spin": 0.5, "parity": -1, "charge": 0, "strangeness": -1,
    "baryon_number": 1, "charmness": 0, "bottomness": 0, "topness": 0,
    "electron_lepton_number": 0, "muon_lepton_number": 0, "tau_lepton_number": 0,
}
PARTS = 16


def cases(tier):
    return PARTS if tier == "quick" else 8 * PARTS


def judge_collection(ctx, found, default):
    """All defaults are there, unchanged, and exactly one addition."""
    ctx.event("loaded")
    expected = {p.name: p for p in default}
    observed = {p.name: p for p in found}
    added = set(observed) - set(expected)
    missing = set(expected) - set(observed)
    ctx.require(
        not missing and added == {ADDED["name"]}, "names",
        f"missing {sorted(missing)[:5]}, additional {sorted(added)[:5]}",
    )
    ctx.require(len(list(found)) == len(observed), "unique", "a name appears twice")
    for name, p in expected.items():
        ctx.event("compared")
        q = observed.get(name)
        same = q is not None and attrs.asdict(q) == attrs.asdict(p)
        ctx.require(same, "default-changed", f"{name} differs from QRules", observed=q, expected=p)
        if q is not None:
            ctx.require(
                found.find(name).pid == p.pid and found.find(p.pid).name == name,
                "lookup", f"{name} cannot be looked up by name and ID",
            )
    p = observed.get(ADDED["name"])
    if p is None:
        return
    ctx.event("addition")
    for key, value in ADDED.items():
        got = getattr(p, key)
        got = int(got) if key == "parity" else got
        ctx.require(got == value, "addition", f"{key} of {p.name} is {got}, not {value}")
    iso = p.isospin
    ctx.require(
        iso is not None and (iso.magnitude, iso.projection) == (0, 0), "addition",
        f"isospin of {p.name} is {iso}",
    )
    ctx.require(found.find(ADDED["pid"]) == p, "lookup", f"{p.name} by ID")


def convert(ctx, p, rng, helper):
    """The particle keeps its properties in each of the three roles of a decay."""
    from qrules.quantum_numbers import InteractionProperties
    from qrules.topology import FrozenTransition
    from qrules.transition import ReactionInfo, State

    from ampform_dpd.adapter.qrules import to_three_body_decay

    a, b = helper
    # the final state has to be able to carry the spins; angular momentum is not checked
    k = int(rng.integers(1, 4))
    for role in ("resonance", "initial", "final"):
        particles = [a, b, b, b, a]
        position = {"resonance": 4, "initial": 0, "final": k}[role]
        particles[position] = p
        ids = qr.IDS["dpd"]
        t = FrozenTransition(
            qr.topology(k, "dpd"),
            {ids[n]: State(x, -x.spin) for n, x in enumerate(particles)},
            {0: InteractionProperties(), 1: InteractionProperties()},
        )
        obj = [t] if rng.integers(2) else ReactionInfo([t], formalism="helicity")
        decay = to_three_body_decay(getattr(obj, "transitions", obj))
        ctx.event("converted")
        (chain,) = decay.chains
        got = {
            "resonance": chain.resonance, "initial": decay.initial_state,
            "final": decay.final_state[k],
        }[role]
        ctx.require(
            qr.dpd_fields(got) == qr.fields(p), f"converted-{role}",
            f"{p.name} changed", observed=qr.dpd_fields(got), expected=qr.fields(p),
        )


def run(ctx):
    import qrules

    from ampform_dpd.adapter.qrules import load_particles

    rng = ctx.rng
    cwd = os.getcwd()
    order = int(rng.integers(3))
    default = qrules.load_default_particles() if order == 0 else None
    first = load_particles()
    if default is None:
        default = qrules.load_default_particles()
    ctx.require(
        ADDED["name"] not in {p.name for p in default}, "default-collection",
        "the collection of QRules itself was modified",
    )
    judge_collection(ctx, first, default)
    # whatever happens to a returned collection stays there
    victim = sorted(p.name for p in first)[int(rng.integers(len(list(first))))]
    first.remove(first.find(victim))
    try:
        os.chdir(os.environ.get("VERIF_SCRATCH", "/tmp"))
        second = load_particles()
    finally:
        os.chdir(cwd)
    judge_collection(ctx, second, default)
    if order == 2:
        for p in list(first)[::2]:
            first.remove(p)
        judge_collection(ctx, load_particles(), qrules.load_default_particles())
    particles = sorted(second, key=lambda p: p.name)
    helper = (second.find("pi0"), second.find("eta"))
    for p in particles[ctx.idx % PARTS :: PARTS]:
        ctx.distinct(p.name)
        convert(ctx, p, rng, helper)
    ctx.sample({"particles": len(particles), "removed": victim, "order": order})
