"""Options, ordering, repetition and processes do not change the model."""

from __future__ import annotations

import dataclasses
import hashlib
import os
import pickle
import subprocess
import sys
import threading
import traceback

import numpy as np
import sympy as sp

from mon import gen, qr, ref, ser
from mon import model as M

ID = "C09"
RULE = (
    "A case is one random decay; its model is rebuilt with cleaned-up summations, all"
    " subsystems, permuted chains and states, a second builder and repeated calls, and"
    " for some cases in fresh processes with other hash seeds (as are serialized models and"
    " decays that are converted from QRules); intensities (or whole"
    " models) are compared. Distinct: (spins, chains, basis); non-trivial: at least one"
    " spinless and one spinful state, or several chains."
    " Some cases change the options of a builder back and forth, formulate with and"
    " without a reference in any order, or formulate in several threads at once."
)
REQUIRED = {"cleanup": 40, "all-subsystems": 40, "permuted": 40, "repeated": 40, "process": 12, "threads": 60}


def cases(tier):
    return 96 if tier == "quick" else 900


def digest(model) -> str:
    parts = [sp.srepr(model.intensity)]
    for table in (
        model.amplitudes,
        model.variables,
        model.parameter_defaults,
        model.masses,
        model.invariants,
    ):
        parts += [f"{sp.srepr(k)}={sp.srepr(sp.sympify(v))}" for k, v in table.items()]
    return hashlib.sha256("\n".join(sorted(parts)).encode()).hexdigest()


def make_case(rng, idx):
    spins = gen.SPIN_SETS[idx % len(gen.SPIN_SETS)]
    spec = gen.random_decay(rng, spins, max_chains=3, cross_names=True,
                            unknown_parity=True)
    min_ls = [True, False, (True, False), (False, True)][int(rng.integers(4))]
    gen.drop_ls(rng, spec, min_ls)
    return spec, min_ls


def portable(spec, min_ls, reference, coefficients, idx) -> list[str]:
    """Digests of what is made in this process, in the same way in each process."""
    from ampform_dpd.adapter.qrules import to_three_body_decay
    from ampform_dpd.io.serialization.amplitude import formulate

    builder = M.make_builder(spec, min_ls=min_ls)
    models = [
        M.formulate(
            builder, reference, use_coefficients=coefficients, cleanup_summations=clean
        )
        for clean in (False, True)
    ]
    rng = np.random.default_rng([9, idx])
    given = ser.random_model(rng, max_chains=2)
    models.append(
        formulate(given.definition, additional_builders={"Custom": ser.custom_builder})
    )
    results = [digest(m) for m in models]
    for formalism in ("canonical-helicity", "helicity"):
        for _ in range(3):
            transitions, *_ = qr.random_reaction(rng, formalism=formalism)
            for ls in (False, True, (False, True)) if formalism != "helicity" else (False,):
                decay = to_three_body_decay(transitions, min_ls=ls)
                results.append(hashlib.sha256(repr(decay).encode()).hexdigest())
    return results


def threads(ctx, spec, min_ls, reference, known):
    """Threads that formulate models of different decays at the same time."""
    jobs = [(spec, min_ls, reference)]
    for n in range(3):
        other, other_ls = make_case(ctx.rng, ctx.idx + n)
        jobs.append((other, other_ls, other.subsystems[0]))

    def make(other, other_ls, k):
        return digest(M.formulate(M.make_builder(other, min_ls=other_ls), k))

    expected = [known or make(*jobs[0]), *(make(*job) for job in jobs[1:])]
    observed = [None] * len(jobs)
    failures = []
    barrier = threading.Barrier(len(jobs))

    def work(n):
        barrier.wait()
        try:
            observed[n] = make(*jobs[n])
        except Exception:  # noqa: BLE001
            failures.append(traceback.format_exc()[-800:])

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        workers = [threading.Thread(target=work, args=(n,)) for n in range(len(jobs))]
        [t.start() for t in workers]
        [t.join() for t in workers]
    finally:
        sys.setswitchinterval(interval)
    ctx.event("threads", len(jobs))
    ctx.require(
        not failures and observed == expected, "threads",
        "models that are formulated in parallel threads differ", failures=failures[:2],
        equal=[a == b for a, b in zip(observed, expected)],
    )


def run(ctx):
    rng = ctx.rng
    spec, min_ls = make_case(rng, ctx.idx)
    reference = int(rng.choice(spec.subsystems))
    coefficients = bool(rng.integers(2))
    ctx.info = {"decay": spec.describe(), "min_ls": min_ls, "reference": reference}
    ctx.sample(ctx.info)
    ctx.distinct(spec.key(), min_ls)
    kin = ref.random_kinematics(rng, spec.masses[0], spec.masses[1:], 6)

    def couplings(label, indices):
        kind = "p" if "production" in label else "d" if "decay" in label else label
        return M.pseudo_complex(kind, indices)

    options = {"use_coefficients": coefficients}
    builder = M.make_builder(spec, min_ls=min_ls)
    model = M.formulate(builder, reference, **options)
    exp = M.intensity(model, kin, couplings=couplings)
    rtol = 1e-9

    cleaned = M.formulate(builder, reference, cleanup_summations=True, **options)
    ctx.event("cleanup")
    obs = M.intensity(cleaned, kin, couplings=couplings)
    ctx.close("cleanup_summations", obs, exp, rtol=rtol, atol=1e-14)
    names = {s.name for s in cleaned.intensity.atoms(sp.Symbol)}
    for i in range(4):
        if spec.spins[i] == 0:
            left = names & {f"lambda{i}", rf"\lambda_{i}^{{\prime}}"}
            ctx.require(not left, "cleanup-index", f"{left} of a spinless state is left")

    full = M.make_builder(spec, min_ls=min_ls, all_subsystems=True)
    all_model = M.formulate(full, reference, **options)
    ctx.event("all-subsystems")
    obs = M.intensity(all_model, kin, couplings=couplings)
    ctx.close("all_subsystems", obs, exp, rtol=rtol, atol=1e-14)
    combos = gen.helicity_combinations(spec)
    got = {(str(s.base.label), len(s.indices)) for s in all_model.amplitudes}
    ctx.require(
        got == {(f"A^{k}", 4) for k in (1, 2, 3)}
        and len(all_model.amplitudes) == 3 * len(combos),
        "all_subsystems-amplitudes",
        f"{len(all_model.amplitudes)} amplitudes for {len(combos)} helicity combinations",
    )
    for symbol, expr in all_model.amplitudes.items():
        k = int(str(symbol.base.label)[-1])
        if k not in spec.subsystems:
            ctx.require(expr == 0, "all_subsystems-nonzero", f"{symbol} = {expr}")

    from ampform_dpd import DalitzPlotDecompositionBuilder
    from ampform_dpd.decay import ThreeBodyDecay

    order = [int(x) for x in rng.permutation(len(spec.chains))]
    permuted = dataclasses.replace(spec, chains=[spec.chains[n] for n in order])
    decay = gen.build_decay(permuted)
    shuffled = [int(x) for x in rng.permutation(4)]
    decay = ThreeBodyDecay({i: decay.states[i] for i in shuffled}, iter(decay.chains))
    other = DalitzPlotDecompositionBuilder(decay, min_ls=min_ls)
    for chain in reversed(decay.chains):
        other.dynamics_choices.register_builder(chain, M.toy_builder)
    other_model = M.formulate(other, reference, **options)
    ctx.event("permuted")
    obs = M.intensity(other_model, kin, couplings=couplings)
    ctx.close("order", obs, exp, rtol=rtol, atol=1e-14, order=order, states=shuffled)
    ctx.require(
        dict(other_model.parameter_defaults) == dict(model.parameter_defaults),
        "order-parameters", "parameter defaults depend on the order of chains",
    )
    ctx.require(
        dict(other_model.variables) == dict(model.variables),
        "order-variables", "variables depend on the order of chains",
    )

    # history: formulating other models in between does not matter
    for k in (1, 2, 3):
        M.formulate(full, k, use_coefficients=not coefficients)
        if k in spec.subsystems:
            M.formulate(builder, k, use_coefficients=not coefficients)
    # options of one call are not remembered by the next
    for options_ in ({}, {"cleanup_summations": True}, {"use_coefficients": True}):
        default = M.formulate(M.make_builder(spec, min_ls=min_ls), **options_)
        found = M.formulate(builder, **options_)
        ctx.require(
            digest(found) == digest(default), "repeat-default",
            "a call without reference depends on the calls before", options=options_,
        )
    stranger = gen.random_decay(rng, spins=gen.SPIN_SETS[(ctx.idx * 7 + 3) % len(gen.SPIN_SETS)])
    M.formulate(M.make_builder(stranger, all_subsystems=True), 1 + ctx.idx % 3)
    again = M.formulate(builder, reference, **options)
    ctx.require(
        dict(again.variables) == dict(model.variables)
        and dict(again.parameter_defaults) == dict(model.parameter_defaults)
        and dict(again.masses) == dict(model.masses)
        and dict(again.invariants) == dict(model.invariants)
        and dict(again.amplitudes) == dict(model.amplitudes),
        "repeat-tables", "tables depend on which models were formulated before",
        before=len(model.variables), after=len(again.variables),
    )
    rebuilt = M.formulate(M.make_builder(spec, min_ls=min_ls), reference, **options)
    ctx.event("repeated")
    ctx.require(again == model, "repeat", "second call on one builder differs")
    ctx.require(rebuilt == model, "repeat", "second builder gives another model")
    ctx.require(digest(rebuilt) == digest(model), "repeat", "another content")
    # results are not shared between models: changing one leaves the others alone
    before = digest(rebuilt)
    for table in (model.parameter_defaults, model.variables, model.amplitudes):
        table.clear()
    third = M.formulate(builder, reference, **options)
    ctx.require(
        digest(third) == before and digest(rebuilt) == before, "shared-state",
        "clearing the tables of one model changes another",
    )

    if ctx.idx % 3 == 0:
        threads(ctx, spec, min_ls, reference, before if not coefficients else None)
    if ctx.idx % 12 == 5:
        here = portable(spec, min_ls, reference, coefficients, ctx.idx)
        ctx.require(here[0] == before, "process", "digest of the first model differs")
        for seed in ("1", "77"):
            script = (
                "import pickle, sys\n"
                "from mon.checks import c09\n"
                "job = pickle.load(sys.stdin.buffer)\n"
                "print('\\n'.join(c09.portable(*job)))\n"
            )
            job = pickle.dumps((spec, min_ls, reference, coefficients, ctx.idx))
            out = subprocess.run(
                [sys.executable, "-W", "ignore", "-c", script], input=job,
                capture_output=True, env={**os.environ, "PYTHONHASHSEED": seed},
                check=False, timeout=300,
            )
            ctx.event("process")
            there = out.stdout.decode().split()
            ctx.require(
                there == here, "process",
                f"another process builds another model {out.stderr[-300:].decode()}", seed=seed,
                differs=[n for n, (a, b) in enumerate(zip(here, there)) if a != b],
            )
    ctx.require(bool(np.all(np.isfinite(exp))), "finite", "intensity is not finite")
