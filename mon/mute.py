"""One process that uses AmpForm-DPD with or without muted warnings.

Run as `python -m mon.mute SEED CASE MODE`; prints the observations as JSON.
"""

from __future__ import annotations

import json
import logging
import os
import sys
import warnings

import numpy as np
import sympy as sp

MESSAGES = []


class Collect(logging.Handler):
    def emit(self, record):
        MESSAGES.append((record.name, record.levelno, record.getMessage()))


def main(argv):
    seed, idx, mode = int(argv[0]), int(argv[1]), argv[2]
    from mon import gen
    from mon import model as M
    from mon.checks.c09 import digest
    from mon.core import Ctx

    ctx = Ctx("C29", seed, idx, "quick")
    spec = gen.random_decay(
        ctx.rng, gen.SPIN_SETS[idx % len(gen.SPIN_SETS)], max_chains=1,
        subsystems=[[1], [2, 3], [1, 3], [2]][idx % 4], max_spin=gen.F(3, 2),
    )
    absent = next(k for k in (1, 2, 3) if k not in spec.subsystems)
    from ampform_dpd import io
    from ampform_dpd.io import cached

    logging.getLogger().addHandler(Collect())
    warnings.resetwarnings()
    warnings.simplefilter("always")
    # what the user has set up before
    warnings.filterwarnings("ignore", message="hush")
    warnings.filterwarnings("error", message="explode")
    shown = []
    warnings.showwarning = lambda message, *_, **__: shown.append(str(message))
    for name in ("analysis", "ampform.analysis", "qrules"):
        logging.getLogger(name).setLevel(logging.DEBUG)
    a, x, i = sp.symbols("a x i")
    H = sp.IndexedBase(R"\mathcal{H}")  # noqa: N806
    texts = [
        a**2 / (x + 1), sp.sqrt(x) * sp.exp(a), sp.Abs(a * x), sp.Function("f")(x, a),
        sp.Sum(a**i, (i, 0, 3)), sp.Matrix([[a, x], [1, 2]]), H,
    ]
    indexed = [H[i], H[i, 1], H[sp.Rational(-1, 2), i, 0], H[0, 0, i, 0]]
    lam = sp.Symbol("lambda0")
    for name in ("A", "alpha", "A^1", R"\mathcal{H}^\mathrm{decay}", "Gamma_R"):
        base = sp.IndexedBase(name)
        indexed += [base[lam], base[lam, lam, 1], base[sp.Rational(1, 2), -lam]]
    before = {
        "latex": [sp.latex(e) for e in texts], "str": [str(e) for e in texts + indexed],
        "srepr": [sp.srepr(e) for e in texts + indexed],
    }
    if mode in {"mute", "both"}:
        for _ in range(1 + idx % 2):
            io.mute_ampform_warnings()
    if mode in {"simplify", "both"}:
        for _ in range(1 + idx % 2):
            io.simplify_latex_rendering()
    out = {"mode": mode}
    with warnings.catch_warnings(record=True) as caught:
        # keeps the filters as they are
        decay = gen.build_decay(spec)
        sub = decay.get_subsystem(absent)
        out["empty"] = len(sub.chains) == 0
        model = M.make_builder(spec, all_subsystems=True).formulate(spec.subsystems[0])
        func = cached.lambdify(sp.Symbol("x") * (3 + idx) + a, {a: 1.5}, backend="numpy")
        out["value"] = float(np.asarray(func({"x": np.array([2.0])}))[0])
        out["unfold"] = sp.srepr(cached.doit(sp.Integral(x, (x, 0, 2 + idx))))
        lib = [str(w.message) for w in caught]
    with warnings.catch_warnings(record=True) as caught:
        # warnings of others
        warnings.warn("mine", UserWarning, stacklevel=1)
        warnings.warn("old", DeprecationWarning, stacklevel=1)
        warnings.warn_explicit("there", UserWarning, "decay.py", 1, module="analysis.decay")
        warnings.warn_explicit("deep", RuntimeWarning, "decay.py", 1, module="ampform_dpd.decay")
        np.log(np.array([-1.0]))
        out["others"] = [[str(w.message), w.category.__name__] for w in caught]
    warnings.warn("shown", UserWarning, stacklevel=1)
    warnings.warn("hush", UserWarning, stacklevel=1)
    exploded = False
    try:
        warnings.warn("explode", UserWarning, stacklevel=1)
    except UserWarning:
        exploded = True
    out["settings"] = {
        "shown": [x for x in shown if x in {"shown", "hush", "explode"}], "exploded": exploded,
    }
    out["warnings"] = lib
    out["log"] = list(MESSAGES)
    MESSAGES.clear()
    logging.getLogger("analysis").warning("mine")
    logging.getLogger("ampform.sympy._cache").error("disk")
    logging.getLogger("qrules").warning("theirs")
    logging.getLogger("ampform").warning("parent")
    for name in ("analysis", "ampform.analysis", "qrules"):
        logging.getLogger(name).debug("detail")
    out["other-log"] = [m[2] for m in MESSAGES]
    after = {
        "latex": [sp.latex(e) for e in texts], "str": [str(e) for e in texts + indexed],
        "srepr": [sp.srepr(e) for e in texts + indexed],
    }
    out["unchanged"] = {k: after[k] == before[k] for k in before}
    out["indexed"] = [sp.latex(e) for e in indexed]
    out["expected-indexed"] = [
        sp.latex(e.base) + "_{" + ", ".join(sp.latex(n) for n in e.indices) + "}"
        for e in indexed
    ]
    out["digest"] = digest(model)
    out["cache"] = os.environ["COMPWA_CACHE_DIR"]
    print("RESULT " + json.dumps(out))


if __name__ == "__main__":
    main(sys.argv[1:])
