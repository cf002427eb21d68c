"""One session (process) of a history of cached operations, sharing a disk cache.

Run as `python -m mon.session SEED CASE SESSION TIER`; prints the observations as JSON.
"""

from __future__ import annotations

import json
import logging
import sys
import threading
import warnings

import numpy as np
import sympy as sp

from mon.core import Ctx
from mon.evalx import Evaluator, indexed_key


def make_pool(rng) -> list:
    """Pairs (expression, symbols that can be parameters, data symbols)."""
    from ampform.kinematics.phasespace import Kallen
    from ampform.sympy import PoolSum

    from ampform_dpd.dynamics import BreitWigner, BreitWignerMinL, FormFactor, MultichannelBreitWigner, ChannelArguments

    x, y = sp.symbols("x y", nonnegative=True)
    a, b, c = sp.symbols("a b c", positive=True)
    H = sp.IndexedBase(R"\mathcal{H}")  # noqa: N806
    i, j = sp.symbols("i j", integer=True)
    ints = [int(n) for n in rng.integers(1, 9, 6)]
    frac = sp.Rational(ints[0], ints[1] + 1)
    poly = ints[2] * a * x**2 + b * y * frac + ints[3] * c * x * y
    pool = [
        (poly, [a, b, c], [x, y]),
        (poly + 1, [a, b, c], [x, y]),
        (poly, [b, c], [x, y, a]),
        (a / (b**2 - x - sp.I * b * c), [a, b, c], [x]),
        (b / (a**2 - x - sp.I * a * c), [a, b, c], [x]),
        (sp.Abs(a * sp.exp(sp.I * c * x) + b / (y + 1)) ** 2, [a, b, c], [x, y]),
        (Kallen(x + 9, a**2, b**2) * frac, [a, b], [x]),
        (BreitWigner(x, a, b, sp.Rational(1, 7), sp.Rational(1, 5), ints[4] % 4, c), [a, b, c], [x]),
        (BreitWignerMinL(x + 2, 4, sp.Rational(1, 11), a, b, sp.Rational(1, 7), sp.Rational(1, 5), ints[4] % 3, ints[5] % 3, c, 2 * c), [a, b, c], [x]),
        (FormFactor(x + 1, sp.Rational(1, 7), sp.Rational(1, 5), ints[5] % 4, c) * a, [a, c], [x]),
        (PoolSum(H[i, j] * x**i * (y + 1) ** j, (i, (0, 1)), (j, (0, sp.Rational(1, 2)))),
         [H[p, q] for p in (0, 1) for q in (0, sp.Rational(1, 2))], [x, y]),
        (sp.sqrt(x + a) * sp.cos(b * y) + sp.acos(y / (1 + y)) ** ints[0], [a, b], [x, y]),
    ]
    channels = (
        ChannelArguments(x + 2, a, b, sp.Rational(1, 7), sp.Rational(1, 5), 0, 1),
        ChannelArguments(x + 2, a, c, sp.Rational(1, 3), sp.Rational(1, 4), ints[3] % 3, 1),
    )
    pool.append((MultichannelBreitWigner(x + 2, a, channels), [a, b, c], [x]))
    # nothing but parameters
    pool.append((ints[0] * a * b**2 / 3 + sp.sqrt(c), [a, b, c], []))
    return pool


ZERO_OK = (0, 1, 2, 5, 6, 10)  # expressions in which any parameter can be zero


def random_values(rng, symbols, complex_ok, zero_ok=False) -> dict:
    out = {}
    for s in symbols:
        v = float(rng.uniform(0.5, 1.5))
        kind = int(rng.integers(5 if zero_ok else 4))
        if kind == 4:
            v = [0, 0.0, 1.0, 0j][int(rng.integers(4 if complex_ok else 3))]
        if kind == 0 and complex_ok:
            v = complex(v, float(rng.uniform(-1, 1)))
        if kind == 1:
            v = int(rng.integers(1, 3))
        out[s] = v
    return out


def evaluate(expr, values):
    plain = {str(k.name): v for k, v in values.items() if isinstance(k, sp.Symbol)}
    plain.update({k: v for k, v in values.items() if isinstance(k, str)})
    couplings = {indexed_key(k): v for k, v in values.items() if isinstance(k, sp.Indexed)}
    return Evaluator(plain, couplings=couplings)(expr)


class Handle:
    """A returned function with the state that it should have."""

    def __init__(self, func, expr, params, data, backend):
        self.func, self.expr, self.params = func, expr, dict(params or {})
        self.data, self.backend = data, backend

    def expected(self, data):
        return evaluate(self.expr, {**self.params, **data})


class Misses(logging.Handler):
    count = 0

    def emit(self, record):
        if "No cache file" in record.getMessage():
            self.count += 1


def run(ctx: Ctx, rng, pool, n_ops: int, session: int) -> None:  # noqa: C901, PLR0912, PLR0915
    from tensorwaves.function.sympy import create_function, create_parametrized_function

    from ampform_dpd.io import cached

    misses = Misses()
    logger = logging.getLogger("ampform.sympy._cache")
    logger.addHandler(misses)
    logger.propagate = False
    logger.setLevel(logging.WARNING)
    handles: list[Handle] = []
    parameter_sets: dict[int, list] = {}
    pool_rng = np.random.default_rng(ctx.seed * 1000 + ctx.idx)
    for n, (_, params, _) in enumerate(pool):
        parameter_sets[n] = [
            random_values(
                pool_rng, params, isinstance(params[0], sp.Indexed) or n < 1, n in ZERO_OK
            )
            for _ in range(2)
        ]

    def sample(symbols):
        # symbols that are parameters elsewhere keep away from thresholds
        return {
            s: rng.uniform(0.2, 2.0, 5) if str(s) in {"x", "y"} else rng.uniform(0.5, 1.5, 5)
            for s in symbols
        }

    def judge(h: Handle, what: str):
        data = sample(h.data)
        raw = h.func({str(k): v for k, v in data.items()})
        got = np.asarray(raw)
        ctx.event(what)
        ctx.require(
            type(raw).__module__.startswith("jax") == (h.backend == "jax"), "backend",
            f"function for {h.backend} returned {type(raw)}", expression=str(h.expr)[:200],
        )
        ctx.close(
            what, np.broadcast_to(got, (5,)), h.expected(data), rtol=1e-9,
            expression=str(h.expr)[:200], backend=h.backend,
            parameters={str(k): str(v) for k, v in h.params.items()}, session=session,
        )
        if hasattr(h.func, "parameters"):
            ctx.require(
                h.func.parameters == {sym_name(k): v for k, v in h.params.items()},
                "parameters", "function does not have the parameters it was given",
                observed=h.func.parameters, expected=h.params,
            )

    def make():
        n = int(rng.integers(len(pool)))
        expr, params, data = pool[n]
        backend = ["jax", "jax", "numpy"][int(rng.integers(3))]
        folded = bool(rng.integers(2)) and n < 6  # no classes to unfold
        arg = expr if folded else cached.doit(expr) if rng.integers(2) else expr.doit()
        style = int(rng.integers(5))
        before = misses.count
        if style == 0:
            func = cached.lambdify(arg, backend=backend)
            h = Handle(func, expr, None, data + params, backend)
        elif style == 1:
            func = cached.lambdify(arg, backend)
            h = Handle(func, expr, None, data + params, backend)
        else:
            given = dict(parameter_sets[n][int(rng.integers(2))])
            if rng.integers(2):
                given = dict(reversed(given.items()))
            if style == 2 and len(params) > 1:
                given.pop(params[-1])
            elif style == 3 and rng.integers(2):
                given.clear()  # a function with parameters, but without any
            kept = dict(given)
            func = cached.lambdify(arg, given, backend=backend)
            ctx.require(given == kept, "input-modified", "parameters were modified")
            for k in given:
                given[k] = -99.0  # the caller's dict is the caller's
            h = Handle(func, expr, kept, data + [p for p in params if p not in kept], backend)
        ctx.require(
            hasattr(func, "parameters") == (style > 1), "function-type",
            f"{type(func).__name__} with style {style}",
        )
        ctx.event("disk-miss" if misses.count > before else "cached")
        ctx.distinct(n, style, backend, str(h.params))
        handles.append(h)
        judge(h, "new-function")
        if rng.integers(2):
            values = {str(k): v for k, v in sample(h.data).items()}
            plain = (
                create_parametrized_function(expr.doit(), h.params, backend)
                if style > 1 else create_function(expr.doit(), backend)
            )
            got, want = np.asarray(h.func(values)), np.asarray(plain(values))
            ctx.event("uncached")
            ctx.require(
                got.dtype == want.dtype and got.shape == want.shape, "result-type",
                f"{got.dtype}{got.shape} instead of {want.dtype}{want.shape}",
                expression=str(h.expr)[:200], backend=backend,
            )

    def update():
        owners = [h for h in handles if h.params]
        if not owners:
            return
        h = owners[int(rng.integers(len(owners)))]
        keys = [k for k in h.params if rng.integers(2)] or list(h.params)[:1]
        new = {k: float(rng.uniform(0.5, 1.5)) for k in keys}
        if rng.integers(4) == 0:
            new = {k: int(v + 1) for k, v in new.items()}
        h.func.update_parameters({sym_name(k): v for k, v in new.items()})
        h.params.update(new)
        ctx.event("update")
        judge(h, "after-update")

    def bystander():
        if handles:
            judge(handles[int(rng.integers(len(handles)))], "bystander")

    def pair():
        """Two functions of the same expression and parameters, one of them updated."""
        n = [len(pool) - 1, int(rng.integers(len(pool)))][int(rng.integers(2))]
        expr, params, data = pool[n]
        given = parameter_sets[n][0]
        backend = ["jax", "numpy"][int(rng.integers(2))]
        arg = expr.doit()
        two = [
            Handle(cached.lambdify(arg, dict(given), backend=backend), expr, given, data, backend)
            for _ in range(2)
        ]
        one, _ = two
        new = {k: float(rng.uniform(0.5, 1.5)) for k in one.params}
        one.func.update_parameters({sym_name(k): v for k, v in new.items()})
        one.params.update(new)
        for h in two:
            judge(h, "pair")
        handles.extend(two)

    def symbolic():
        n = int(rng.integers(len(pool)))
        expr, params, data = pool[n]
        values = sample(data)
        everything = {**values, **parameter_sets[n][0]}
        expected = evaluate(expr, everything)
        op = int(rng.integers(5))
        given = dict(parameter_sets[n][0])
        given = {k: sp.sympify(v) for k, v in given.items()}
        if op == 0:
            got = evaluate(cached.doit(expr), everything)
        elif op == 1:
            got = evaluate(cached.xreplace(cached.doit(expr), given), values)
        elif op == 2:
            got = evaluate(cached.subs(cached.doit(expr), given), values)
        elif op == 3:
            got = evaluate(cached.unfold(expr, given).doit(), values)
        else:
            if n > 2:
                return
            func = [cached.simplify, cached.trigsimp][int(rng.integers(2))]
            got = evaluate(func(expr), everything)
        ctx.event("symbolic")
        ctx.close("symbolic", got, expected, rtol=1e-9, op=op, expression=str(expr)[:200])

    def threads():
        """Threads that each own a function of the same expression and parameters."""
        n = int(rng.integers(len(pool)))
        expr, params, data = pool[n]
        given = parameter_sets[n][0]
        arg = expr.doit()
        cached.lambdify(arg, given, backend="numpy")
        failures = []
        seeds = [int(s) for s in rng.integers(0, 2**31, 4)]
        barrier = threading.Barrier(4)

        def work(seed):
            r = np.random.default_rng(seed)
            func = cached.lambdify(arg, dict(given), backend="numpy")
            h = Handle(func, expr, given, data, "numpy")
            barrier.wait()
            for _ in range(6):
                new = {k: float(r.uniform(0.5, 1.5)) for k in h.params}
                func.update_parameters({sym_name(k): v for k, v in new.items()})
                h.params.update(new)
                values = {s: r.uniform(0.2, 2.0, 5) for s in data}
                got = func({str(k): v for k, v in values.items()})
                want = h.expected(values)
                if not np.allclose(got, want, rtol=1e-8):
                    failures.append((str(got[:2]), str(want[:2])))

        ts = [threading.Thread(target=work, args=(s,)) for s in seeds]
        [t.start() for t in ts]
        [t.join() for t in ts]
        ctx.event("threads", 4)
        ctx.require(
            not failures, "threads", "functions of different threads disturb each other",
            failures=failures[:2], expression=str(expr)[:200],
        )

    # the first function of a process may come from the disk cache
    first = (ctx.idx % 2, 3)[ctx.idx % 3 == 0]
    expr, params, data = pool[first]
    given = parameter_sets[first][0]
    before = misses.count
    func = cached.lambdify(expr.doit(), given, backend="jax")
    ctx.event("disk-miss" if misses.count > before else "read-first")
    handles.append(Handle(func, expr, given, data, "jax"))
    judge(handles[-1], "new-function")
    operations = [make] * 6 + [update] * 4 + [bystander] * 4 + [symbolic] * 3 + [threads, pair]
    for _ in range(n_ops):
        operations[int(rng.integers(len(operations)))]()
    for h in handles:  # nothing that happened later changed an older function
        judge(h, "bystander")


def sym_name(k) -> str:
    return str(k) if isinstance(k, sp.Indexed) else k.name


def main(argv) -> None:
    seed, idx, session, tier = int(argv[0]), int(argv[1]), int(argv[2]), argv[3]
    warnings.filterwarnings("ignore")
    ctx = Ctx("C23", seed, idx, tier)
    pool = make_pool(ctx.rng)
    rng = np.random.default_rng([seed, idx, session])
    n_ops = 14 if tier == "quick" else 40
    from mon.core import UNUSABLE, _through_repo

    try:
        run(ctx, rng, pool, n_ops, session)
    except Exception as exc:
        import traceback

        if not _through_repo(exc) and not isinstance(exc, UNUSABLE):
            raise
        ctx.violate(
            f"unexpected-exception:{type(exc).__name__}", f"valid call raised {exc!r}"[:400],
            traceback=traceback.format_exc().splitlines()[-12:],
        )
    print("RESULT " + json.dumps({
        "events": dict(ctx.events), "keys": sorted(ctx.keys),
        "violations": ctx.violations, "deviation": ctx.max_deviation,
    }, default=str))


if __name__ == "__main__":
    main(sys.argv[1:])
