"""Markdown tables show the objects they were made of."""

from __future__ import annotations

import re
from fractions import Fraction as F

from mon import gen
from mon.ref import fr

ID = "C25"
RULE = (
    "A case renders random particles, states, mixtures of both, decay chains with all,"
    " some or no LS couplings, and complete decays, in sequences of 1 to 12 items. Each"
    " table is parsed and every cell is compared with the object of its row: index,"
    " name, LaTeX, J^P, mass and width in MeV, L of decay and production. Sequences that"
    " are empty, mixed or of another type have to be rejected. Distinct: one table."
)
REQUIRED = {"particle-row": 150, "chain-row": 150, "partial-ls": 10, "rejections": 40}


def cases(tier):
    return 240 if tier == "quick" else 2000


CHUNK = 5


def random_particle(rng, n, cls=None, index=None):
    from ampform_dpd.decay import Particle, State

    spin = gen.rational(F(int(rng.integers(0, [10, 32][int(rng.integers(2))])), 2))
    parity = [-1, 1, None][int(rng.integers(3))]
    style = int(rng.integers(4))
    mass = [
        float(rng.uniform(0, 6)), float(rng.uniform(0, 2e-3)),
        float(rng.integers(0, 12000)) / 1e3, float(rng.uniform(1, 4000)),
    ][style]
    width = [float(rng.uniform(0, 0.5)), 0.0, 1e-3 * rng.uniform(0, 3), 2.5][int(rng.integers(4))]
    tex = [
        "K^{*}", R"\Lambda_c^+", R"f_0(980)", R"\overline{\Sigma}^{-}", "p",
        R"\mathrm{[cs][\bar{u}\bar{d}]}", R"X \to \left[J\right]",
    ][int(rng.integers(7))]
    name = tex if rng.uniform() < 0.15 else f"N{n}({1000 + n})"
    args = (name, tex, spin, parity, mass, float(width))
    return Particle(*args) if index is None else State(*args, index)


def parse(table: str):
    rows = []
    for line in table.strip().splitlines():
        line = line.strip()
        cells = line.split("|")
        rows.append([c.strip() for c in cells[1:-1]])
    return rows


def parse_jp(cell: str):
    text = cell.strip().strip("$")
    text = re.sub(r"\\frac\{(\d+)\}\{(\d+)\}", r"\1/\2", text)
    if text.startswith("J="):
        return F(text[2:]), None
    spin, _, parity = text.partition("^")
    return F(spin), {"+": 1, "-": -1}[parity.strip("{}")]


def is_number(cell: str, value: float) -> bool:
    """The rendered integer (in MeV) is the one nearest to the value (in GeV)."""
    if not re.fullmatch(r"-?\d{1,3}(,\d{3})*", cell):
        return False
    return abs(int(cell.replace(",", "")) - 1e3 * value) <= 0.5 + 1e-9


def judge_common(ctx, cells, p, table):
    cells["jp"] = parse_jp(cells["$J^P$"])
    ctx.require(
        cells["jp"] == (fr(p.spin), p.parity), "jp", f"{cells['$J^P$']} for {p!r}", table=table
    )
    for column, value in (("mass (MeV)", p.mass), ("width (MeV)", p.width)):
        ctx.require(
            is_number(cells[column], value), column, f"{cells[column]!r} for {p!r}", table=table
        )


def judge_table(ctx, table, n_items):
    rows = parse(table)
    header, ruler, body = rows[0], rows[1], rows[2:]
    ok = ctx.require(
        len(body) == n_items
        and all(len(r) == len(header) for r in rows)
        and all(set(c) == {"-"} for c in ruler),
        "shape", "table does not have one aligned row per item", table=table,
    )
    return [dict(zip(header, r)) for r in body] if ok else []


def particles(ctx, rng):
    from ampform_dpd.io import as_markdown_table

    kind = ["particles", "states", "mixed"][int(rng.integers(3))]
    items = []
    for n in range(int(rng.integers(1, 13))):
        with_index = kind == "states" or (kind == "mixed" and rng.integers(2))
        items.append(random_particle(rng, n, index=int(rng.integers(0, 4)) if with_index else None))
    seq = tuple(items) if rng.integers(2) else items
    has_index = any(hasattr(p, "index") for p in items)
    table = as_markdown_table(seq)
    ctx.distinct(table)
    rows = judge_table(ctx, table, len(items))
    for cells, p in zip(rows, items):
        ctx.event("particle-row")
        ctx.require(("index" in cells) == has_index, "index-column", f"{list(cells)}", table=table)
        if has_index:
            expected = str(p.index) if hasattr(p, "index") else ""
            ctx.require(cells["index"] == expected, "index", f"{cells['index']!r} for {p!r}")
        ctx.require(cells["name"].strip("`") == p.name, "name", f"{cells['name']} for {p!r}")
        ctx.require(cells["LaTeX"].strip("$") == p.latex, "latex", f"{cells['LaTeX']} for {p!r}")
        judge_common(ctx, cells, p, table)


def chains(ctx, rng):
    from ampform_dpd.io import as_markdown_table

    spec = gen.random_decay(rng, max_chains=4, with_ls=True, cross_names=True,
                            unknown_parity=True)
    style = ["all", "none", "partial"][int(rng.integers(3))]
    for c in spec.chains:
        if style == "none" or (style == "partial" and rng.integers(2)):
            c.prod_ls = None
        if style == "none" or (style == "partial" and rng.integers(2)):
            c.dec_ls = None
    decay = gen.build_decay(spec)
    items = list(decay.chains)
    if style == "partial":
        ctx.event("partial-ls")
    form = int(rng.integers(3))
    table = as_markdown_table([decay, items, tuple(items)][form])
    ctx.distinct(table)
    rows = judge_table(ctx, table, len(items))
    dec, prod = R"$L_\mathrm{dec}^\mathrm{min}$", R"$L_\mathrm{prod}^\mathrm{min}$"
    for cells, c, chain in zip(rows, spec.chains, items):
        ctx.event("chain-row")
        for column, ls, everything in (
            (dec, c.dec_ls, [x.dec_ls for x in spec.chains]),
            (prod, c.prod_ls, [x.prod_ls for x in spec.chains]),
        ):
            shown = any(x is not None for x in everything)
            ctx.require(
                (column in cells) == shown, "ls-column", f"columns are {list(cells)}", table=table
            )
            if shown:
                expected = "" if ls is None else str(ls[0])
                ctx.require(
                    cells.get(column) == expected, "ls",
                    f"{column}: {cells.get(column)!r} instead of {expected!r}", table=table,
                )
        tokens = cells["resonance"].strip("$").replace(R"\to", " ").split()
        products = [p.latex for p in chain.decay_products]
        ctx.require(
            tokens == " ".join([chain.resonance.latex, *products]).split(),
            "resonance", f"{cells['resonance']} for {c.name}", table=table,
        )
        judge_common(ctx, cells, chain.resonance, table)


def rejections(ctx, rng):
    from ampform_dpd.io import as_markdown_table

    p = random_particle(rng, 0)
    chain = gen.build_decay(gen.random_decay(rng)).chains[0]
    errors = (ValueError, NotImplementedError)
    for bad in (
        [], (), [1, 2], ["a", "b"], [p, 1], [p, chain], [chain, p], [chain, None], 3.5,
        {"a": p}, [[p], [p]],
    ):
        ctx.raises("rejection", errors, as_markdown_table, bad)


def run(ctx):
    rng = ctx.rng
    for _ in range(3):
        particles(ctx, rng)
        chains(ctx, rng)
    if ctx.idx % 5 == 0:
        rejections(ctx, rng)
    ctx.sample({"tables": 6})
