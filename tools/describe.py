"""Write properties.jsonl, MANIFEST.json and the properties section of DESIGN.md from one description of all properties."""

import ast
import json
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
S = "src/ampform_dpd/"
INIT, ANG, DEC, SPIN, DYN, BLD = (
    S + x for x in ("__init__.py", "angles.py", "decay.py", "spin.py", "dynamics/__init__.py", "dynamics/builder.py")
)
QR, IO, CACHED = S + "adapter/qrules.py", S + "io/__init__.py", S + "io/cached.py"
SA, SD, SDYN, SF = (S + f"io/serialization/{x}.py" for x in ("amplitude", "decay", "dynamics", "format"))
ATTRS = S + "_attrs.py"


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files, "mechanism": mechanism},
        "_technique": technique, "_note": " ".join(note.split()),
    })


prop(
    "C01", "Scattering angles are the physical decay angles",
    """For each of the three subsystems, the scattering-angle expression evaluates to the polar
    angle, in the rest frame of the two-body pair and measured against the direction opposite to
    the spectator, of the first particle of the cyclically ordered pair, at every point of phase
    space and for all masses. The expression depends on masses and Mandelstam variables only, an
    invalid pair of particles is rejected, and the angle definitions of a formulated model are
    these same angles.""",
    ["inputs"], """all non-negative masses with an open three-body phase space (equal, zero and
    near-threshold masses included) and all points of the Dalitz plot up to its border""",
    """The tests compare the printed formula of two angles; a wrong sign or swapped mass is only
    visible numerically, for unequal masses, against four-vectors.""",
    [ANG, INIT], m(("formulate_scattering_angle", ANG), ("Kallen-based cosine", ANG), ("angle definitions of a subsystem", INIT)),
    "runtime oracle: angles between explicitly boosted four-vectors",
    "Random mass configurations x phase-space points; each formula evaluated on real kinematics and compared to four-vector angles.",
)
prop(
    "C02", "Alignment angles are Wigner rotations and compose",
    """The alignment angle of a particle between a subsystem and a reference subsystem equals the
    Wigner rotation that results from composing the boosts and rotations of the two decay chains,
    modulo a full rotation of the spinor, for every particle, every pair of subsystems and every
    phase-space point. The angle vanishes for equal subsystems, changes sign on exchange and is
    additive over an intermediate subsystem; arguments outside the particle and subsystem numbers
    are rejected.""",
    ["inputs"], "all 4 particles x 3 subsystems x 3 references, all masses, all phase-space points",
    """The tests pin a few formulas symbolically; a wrong branch for one of 36 angles needs a
    frame-level oracle on asymmetric kinematics.""",
    [ANG, INIT], m(("formulate_zeta_angle", ANG), ("formulate_theta_hat_angle", ANG), ("angle symbols of the aligned amplitude", INIT)),
    "runtime oracle: SL(2,C) composition of boosts and rotations",
    "All 36 angles per random mass configuration, 16 points each, compared modulo 4 pi with matrices; antisymmetry and additivity checked pointwise.",
)
prop(
    "C03", "Mandelstam variables close and masses are those of the particles",
    """Every Mandelstam variable that is derived from the two others equals the squared sum of the
    four-momenta of its pair, whichever two are given, and the masses in a model are those of the
    states with the corresponding number, in whatever order the states were given.""",
    ["inputs"], "all masses, phase-space points, choices of independent variables, and state orders",
    "The tests look at one symbolic closure relation and one decay.",
    [INIT, ANG], m(("create_mass_symbol_mapping", INIT), ("formulate_third_mandelstam", INIT), ("model.invariants", INIT)),
    "runtime oracle: invariants recomputed from four-vectors",
    "Random decays with shuffled state dictionaries; all ordered pairs of invariants evaluated.",
)
prop(
    "C04", "The intensity does not depend on the reference subsystem",
    """The intensity of a model is the same at every phase-space point for every allowed reference
    subsystem (and for the default choice), for all spins, resonances and couplings. A reference
    that has no resonances is announced by a warning, and an impossible one is rejected.""",
    ["inputs", "configurations"], """all spin assignments of the four states, subsystem contents,
    LS and helicity bases, masses, complex couplings and phase-space points""",
    """The tests formulate models for one reference each and only compare symbolic shapes; the
    invariance needs every alignment angle and phase to be consistent at once.""",
    [INIT, ANG], m(("formulate_aligned_amplitude", INIT), ("formulate_zeta_angle", ANG), ("reference choice", INIT)),
    "runtime differential monitor: same model, all references, pointwise intensities",
    "Random decays over a fixed list of spin assignments; all references compared per phase-space point.",
)
prop(
    "C05", "The full model is the helicity-formalism amplitude",
    """The intensity and every amplitude of a formulated model equal those of the helicity
    formalism for the given decay: chain amplitudes with spin normalization, couplings, dynamics,
    rotation functions of the decay angles and helicity phases, coherently summed per subsystem,
    rotated to one common set of spin axes and summed over all helicities. This holds in the LS
    basis as well as in the helicity basis and for decay products given in either order, up to the
    sign convention of swapped products.""",
    ["inputs", "configurations"], """all spins, resonance contents, basis choices per node, orders
    of decay products, masses, complex couplings, and phase-space points""",
    """The tests compare hashes and short printed amplitudes for a handful of decays; none evaluates
    a model numerically against an independent calculation.""",
    [INIT, ANG, SPIN], m(("formulate_subsystem_amplitude", INIT), ("formulate_chain_amplitude", INIT), ("formulate_aligned_amplitude", INIT)),
    "runtime oracle: independent spinor (SL(2,C)) evaluation of the decay",
    "Random decays; model trees interpreted numerically and compared with an independent implementation, amplitude by amplitude.",
)
prop(
    "C06", "LS couplings and helicity couplings describe the same physics",
    """A model in the LS basis and the model of the same decay in the helicity basis, of which each
    helicity coupling is set to the Clebsch-Gordan recoupled sum of the LS couplings, have the same
    amplitudes and intensity everywhere, whether one node or both are in the LS basis.""",
    ["inputs", "configurations"], "all spins, sets of LS couplings per node, basis combinations, masses and points",
    "The tests check the printed form for single LS values; normalization or phase errors per (L, S) stay invisible.",
    [INIT, SPIN], m(("_formulate_clebsch_gordan_factors", INIT), ("min_ls option", INIT)),
    "runtime differential monitor: LS basis vs recoupled helicity basis",
    "Random grids of LS couplings on both nodes; both models evaluated with related couplings.",
)
prop(
    "C07", "One coefficient per chain is equivalent to separate couplings",
    """A model with a single complex coefficient per chain equals the model with separate
    production and decay couplings when each coefficient is the product of the two couplings, and
    each coefficient is an independent parameter that multiplies exactly its own term.""",
    ["inputs", "configurations"], "all decays, bases, coefficient and coupling values, phase-space points",
    "The tests check that coefficients exist, not that values of one form reproduce the other.",
    [INIT], m(("use_coefficients", INIT), ("formulate_chain_amplitude", INIT)),
    "runtime differential monitor: coefficient model vs coupling model",
    "Random decays in all four basis combinations, product-valued and independent coefficients.",
)
prop(
    "C08", "A model is complete, self-consistent and physical",
    """Every symbol in a model is defined by the model itself (as parameter with a default, angle,
    invariant or amplitude), so that it can be evaluated from invariants alone, and its intensity
    is a finite, real, non-negative number everywhere inside phase space. Parameter defaults are
    the masses and widths of the particles and unit couplings, and the fully unfolded expression
    gives the same intensity.""",
    ["inputs", "configurations"], "all decays, dynamics, options, masses and phase-space points",
    "The tests inspect the parameters of a few models and do not evaluate them.",
    [INIT, BLD], m(("AmplitudeModel", INIT), ("formulate", INIT), ("full_expression", INIT)),
    "runtime invariant monitor on models evaluated from their own definitions",
    "Random decays with user-made, Breit-Wigner or no dynamics and random options.",
)
prop(
    "C09", "Options, ordering, repetition and processes do not change a model",
    """Removing redundant summations, including all subsystems, permuting chains or states,
    formulating again or with another builder of the same decay leaves the intensity unchanged at
    every point. Formulating the same model in another process, with any hash seed, or while other
    threads formulate models gives an identical model.""",
    ["inputs", "configurations", "histories", "schedules"],
    "all decays, options, permutations, call histories, hash seeds and thread schedules",
    """The tests formulate each model once in one process; dependence on order or on earlier calls
    needs pairs of executions.""",
    [INIT, DEC], m(("cleanup_summations", INIT), ("all_subsystems", INIT), ("decay chain order", DEC)),
    "runtime metamorphic monitor over pairs of executions and processes",
    "Each random decay is formulated in many equivalent ways and evaluated; some in fresh processes with other hash seeds, some in four threads that switch every microsecond.",
)
prop(
    "C10", "Dynamics are used for exactly the chains they were registered for",
    """After any history of registrations by chain or by resonance name, every chain has the
    dynamics that was registered last for it, chains without registration have none (unit
    dynamics), other builders are unaffected, and unknown chains or names are rejected without
    effect. In the formulated model each chain is multiplied by its own dynamics, with all the
    parameters that these dynamics define, products of parametrized expressions included.""",
    ["histories", "inputs"], "all histories of registrations and look-ups, decays with chains that share a resonance",
    "The tests register one builder for all chains of a decay.",
    [INIT], m(("DynamicsConfigurator.register_builder", INIT), ("DefinedExpression product", INIT)),
    "runtime monitor: online model of the registry over random histories",
    "Random histories of registrations, look-ups and formulations checked against a dictionary model.",
)
prop(
    "C11", "Relabelling the final states does not change the physics",
    """If the final-state numbers of a decay are permuted, consistently with its invariants, the
    intensity of the model is unchanged at every point, up to the sign convention that fixes the
    order of the two decay products of each chain. The intensity of a single subsystem is unchanged
    without reservation.""",
    ["inputs"], "all permutations of final-state numbers, decays, couplings and phase-space points",
    "The tests use one numbering per decay; an error in one of three cyclic cases is a valid-looking formula.",
    [INIT, ANG, DEC], m(("get_decay_product_ids", DEC), ("formulate_subsystem_amplitude", INIT), ("formulate_scattering_angle", ANG)),
    "runtime metamorphic monitor over relabelled decays",
    "Each random decay relabelled in all six ways and evaluated on relabelled kinematics.",
)
prop(
    "C12", "Lineshapes equal their defining formulas",
    """Every resonance lineshape (simple, energy-dependent, multichannel and Flatté-like
    Breit-Wigners, Bugg's form, the form with minimal angular momenta and form factors) evaluates to
    its published formula with Blatt-Weisskopf form factors and breakup momenta, for all angular
    momenta, masses and radii, including below a channel threshold. This stays true after
    unfolding, substitution of any argument and serialization of the expression.""",
    ["inputs"], "angular momenta 0-4, all masses, widths, radii, values of s above and below thresholds",
    "The tests evaluate none of the lineshapes.",
    [DYN], m(("RelativisticBreitWigner", DYN), ("BreitWignerMinL", DYN), ("MultichannelBreitWigner", DYN), ("BreitWigner", DYN)),
    "runtime oracle: closed formulas evaluated independently",
    "Random parameter points; evaluation node by node, through NumPy, after substitution and pickling.",
)
prop(
    "C13", "The Breit-Wigner builder builds what its options ask for",
    """The dynamics built for a chain is the product of exactly the factors asked for: a
    Breit-Wigner with constant or energy-dependent width, and form factors of the production and
    decay node with the angular momentum and radius of that node, evaluated at the masses of that
    node. Its parameters are the mass, width and radii of that chain, and chains without LS
    couplings are rejected if a factor needs them.""",
    ["inputs", "configurations"], "all option combinations, phase-space factors, chains, radii and points",
    "The tests build one combination for one decay and hash the model.",
    [BLD, DYN], m(("BreitWignerBuilder", BLD), ("formulate_breit_wigner_with_form_factor", BLD), ("_create_form_factor", BLD)),
    "runtime oracle: product of independently computed factors",
    "All eight option combinations x two phase-space factors on random chains. One known finding: decay form factor at squared invariant.",
)
prop(
    "C14", "Spin projections and LS couplings follow the selection rules",
    """The projections of a spin are all values from minus to plus the spin in unit steps. The LS
    couplings of a two-body decay are exactly those allowed by addition of angular momenta up to
    the maximal L, each once and in order, and the parity filter keeps exactly the ones that
    conserve parity.""",
    ["inputs"], "all parent and child spins up to 9/2 (13/2), maximal L up to 9, numeric types, parities",
    "The tests list couplings for a few integer cases.",
    [SPIN], m(("create_spin_range", SPIN), ("generate_ls_couplings", SPIN), ("filter_parity_violating_ls", SPIN)),
    "runtime oracle over an exhaustive spin grid",
    "Exhaustive over the stated grid; oracle is the triangle rule and parity rule.",
)
prop(
    "C15", "Decay descriptions accept exactly consistent input and report it faithfully",
    """A decay or decay chain can be built exactly if its states, numbering, topology and spins are
    consistent; any single inconsistency is rejected. All accessors (states, chains, nodes,
    resonance, spectator, decay products, couplings, look-up by resonance, sub-decays of one
    subsystem) report what was put in, and objects compare and hash by their content.""",
    ["inputs"], "all consistent decays and all single-fault corruptions of them",
    "The tests try a few invalid inputs.",
    [DEC, ATTRS], m(("ThreeBodyDecay", DEC), ("ThreeBodyDecayChain", DEC), ("to_rational / assert_spin_value", ATTRS)),
    "runtime monitor: accessors vs generated description; single-fault injection",
    "Random consistent decays plus injected corruptions of each kind in each place.",
)
prop(
    "C16", "Renumbering QRules states preserves the graph and its content",
    """Normalizing state numbers gives every edge the rank of its old number, and every state,
    interaction, domain and connection stays on its own edge or node, for topologies, complete and
    partial transitions, problem sets, reactions and collections of them. Normalizing again changes
    nothing, inputs are not modified and other types are rejected.""",
    ["inputs"], "all decay graphs with 2-5 final states, edge numbers, partial assignments and containers",
    "The tests renumber one reaction with the standard pattern.",
    [QR], m(("normalize_state_ids", QR),),
    "runtime oracle: rank of each label, recomputed per edge",
    "Random decay graphs with arbitrary labels; all supported object kinds.",
)
prop(
    "C17", "A QRules reaction converts to exactly the decay it describes",
    """Converting transitions gives a decay with the same initial and final states (names, LaTeX,
    spin, parity, mass, width, number) and one chain per distinct combination of resonance,
    topology and LS couplings, with each coupling on its own node, and optionally only the chains
    with minimal L and S. Order, duplicates, redundant helicities and the numbering scheme of the
    input do not matter, and inconsistent input is rejected.""",
    ["inputs", "configurations"], "all reactions with one initial state and three final states, LS filter options, orders",
    "The tests convert a few real reactions.",
    [QR, DEC], m(("to_three_body_decay", QR), ("to_decay_chain / _get_ls", QR), ("filter_min_ls", QR)),
    "runtime oracle: independent reading of the transitions",
    "Made-up reactions over the input space plus real QRules reactions.",
)
prop(
    "C18", "The minimal-LS filter keeps exactly the minimal couplings",
    """Filtering keeps, per resonance and decay topology (and per coupling on the nodes that are
    not filtered), exactly the transitions with the lowest L and then S on the filtered nodes,
    unmodified. The result does not depend on the order of the input, on whether it is a list or a
    one-time iterator, or on whether transitions were converted before; filtering again changes
    nothing.""",
    ["inputs", "configurations"], "all sets of transitions, node selections, orders and container types",
    "The tests filter one reaction and count chains.",
    [QR], m(("filter_min_ls", QR),),
    "runtime oracle: minimum per group recomputed",
    "Random LS grids and subsets, all node selections, several orders.",
)
prop(
    "C19", "Symmetrization yields each distinct assignment of equal particles once",
    """Permuting equal final states of a transition gives exactly the distinct assignments of the
    equal particles to the decay graph, the original included, each once; transitions without equal
    particles are returned unchanged. States keep their numbers and interactions their nodes, and
    the rule extends element-wise to collections and reactions.""",
    ["inputs"], "all transitions with zero, two or three equal final states in any position, containers",
    "The tests count transitions for two reactions.",
    [QR], m(("permute_equal_final_states", QR), ("_get_equal_final_state_ids", QR)),
    "runtime oracle: set of distinct assignments enumerated independently",
    "Random three-body reactions with chosen equal particles.",
)
prop(
    "C20", "The decay structure of a serialized model is read faithfully",
    """The decay read from a serialized model has the states of the definition (name, spin, mass,
    number) and one chain per resonance and decay topology of its chain definitions, with the
    resonance (name, LaTeX and spin), spectator and decay products that the vertices state. Order
    of vertices, chains, states and functions does not matter, the definition is not modified, the
    first of several distributions is used with a warning, and look-ups of missing items and
    topologies that are not a three-body decay are rejected.""",
    ["inputs"], "all model definitions in the serialization format, node orders, vertex types",
    "The tests read one published model.",
    [SD, SF], m(("to_decay / to_decay_chain", SD), ("get_decay_chains, get_function_definition", SF)),
    "runtime oracle: definitions generated from a known description",
    "Random serialized models; every accessor compared with the generating description.",
)
prop(
    "C21", "A serialized model evaluates to the amplitude it specifies",
    """The model formulated from a serialized definition has the intensity and subsystem amplitudes
    that the definition specifies: per chain the complex weight, lineshape with its parameters, form
    factors and vertices, spin normalization and rotations, for all helicities, with cleaned-up
    summations or not. Weights, masses and widths are parameters with the values of the definition,
    and the published model reproduces its published checksum.""",
    ["inputs", "configurations"], "all model definitions (spins, vertices, functions, weight notations), options, points",
    "The tests look at symbols of one published model and evaluate nothing.",
    [SA, SDYN, SF], m(("formulate", SA), ("formulate_chain_amplitude", SA), ("formulate_dynamics", SDYN)),
    "runtime oracle: independent evaluation of the definition; published checksum",
    "Random serialized models plus the published model. Known findings: radius and weight symbols shared between resonances.",
)
prop(
    "C22", "Vertices and lineshapes of serialized models equal their definition",
    """Every vertex (helicity, parity, LS), lineshape and form factor of a serialized model, with
    the parameters that it comes with, evaluates to the formula of the serialization format at the
    masses, radii and angular momenta of the definition, for all helicities and values of s.
    Registered user lineshapes replace the standard ones, and unknown or incomplete definitions are
    rejected.""",
    ["inputs"], "all vertices, spins, parity factors, functions, channels, masses, radii and s",
    "The tests check a few symbols and one vertex type.",
    [SA, SDYN, SF], m(("formulate_recoupling", SA), ("formulate_form_factor", SDYN), ("formulate_multichannel_breit_wigner", SDYN)),
    "runtime oracle: closed formulas per vertex and function",
    "Random definitions with masses unrelated to the final state; every helicity pair.",
)
prop(
    "C23", "Compiled functions belong to their expression and parameters only",
    """A numerical function returned by the cached lambdification always evaluates its own
    expression with its own current parameter values on the requested backend, whatever was
    lambdified, updated, evaluated or read from the disk cache before, in this or an earlier
    process or in other threads. Cached symbolic operations give what the uncached operation gives,
    and the caller's arguments are not modified.""",
    ["histories", "schedules", "inputs"], """all histories of lambdification, parameter updates, evaluations and
    processes on one cache directory, JAX and NumPy backends, call styles""",
    "The tests lambdify once per process; sharing shows only in histories.",
    [CACHED], m(("lambdify", CACHED), ("_lambdify_impl", CACHED)),
    "runtime monitor: shadow state per function over random histories, processes and threads",
    "Random histories in several processes per cache directory; every earlier function re-judged after every step.",
)
prop(
    "C24", "The documented analysis workflow computes the model intensity",
    """Following the documented workflow (formulate, unfold, substitute fixed parameters, derive the
    remaining invariant and angles from two invariants, compile, evaluate) gives the intensity of
    the decay at every point and for every value of the free couplings. Switching off the couplings
    of all other resonances gives the intensity of the decay with one resonance only, and restoring
    them restores the total.""",
    ["inputs", "configurations", "histories"], "all decays, bases, backends, coupling values, isolated resonances and points",
    "The tests stop before compilation; notebooks are not executed by them.",
    [INIT, ANG, IO, CACHED], m(("AmplitudeModel.variables / invariants / masses", INIT), ("lambdify", CACHED), ("perform_cached_lambdify", IO)),
    "runtime oracle: compiled workflow vs independent spinor evaluation",
    "Random small decays end to end through JAX or NumPy.",
)
prop(
    "C25", "Markdown tables show the objects they are made of",
    """A table of particles, states, chains or a decay has one row per item in the given order and
    one aligned cell per column, and each cell shows the property of its item: number, name, LaTeX,
    spin and parity, mass and width rounded to the nearest MeV, and the L of the decay and production
    node where available. Empty, mixed or other sequences are rejected.""",
    ["inputs"], "all sequences of particles, states and chains with any or no LS couplings",
    "The tests render one table of massless particles.",
    [IO], m(("as_markdown_table", IO), ("_determine_item_type", IO)),
    "runtime oracle: tables parsed back and compared cell by cell",
    "Random particles and decays with partial LS couplings.",
)
prop(
    "C26", "LaTeX rendering shows what it was made of",
    """Rendering particles, nodes, chains and decays as LaTeX shows every particle (with spin and
    parity if asked for), every LS coupling on its own arrow and the children in their order, one
    row per chain. Rendering of lineshapes, vertices, parametrized dynamics and the mappings of a
    model succeeds and shows the arguments, and one row per parameter or definition with both
    sides.""",
    ["inputs"], "all decays, with or without LS couplings and J^P, lineshapes, recouplings, models",
    "The tests render one node and one particle.",
    [IO, DYN, SA], m(("aslatex", IO), ("_render_jp", IO), ("_latex_repr_", DYN)),
    "runtime oracle: renderings read back against the objects",
    "Random decays, lineshapes with random symbols, models.",
)
prop(
    "C27", "The particle collection is the QRules one plus the documented addition",
    """Loading the particle collection gives all particles of QRules, unchanged and found by name
    and number, plus the Lambda(2000) with its documented properties, whatever was loaded or
    changed before and from any directory. Every particle of the collection converts to a decay
    particle with the same name, LaTeX, spin, parity, mass and width in any role.""",
    ["inputs", "histories"], "all particles of the collection, roles in a decay, and load histories",
    "The tests never load the collection.",
    [QR, S + "particle-definitions.yml"], m(("load_particles", QR), ("_to_particle / _to_state", QR)),
    "runtime oracle: comparison with the QRules collection, exhaustive over particles",
    "Every particle of the collection in every role; several load histories.",
)
prop(
    "C28", "Impossible requests are refused and change nothing",
    """Options of another type, the LS basis without the LS couplings that it needs (of exactly the
    nodes that are in that basis), transitions with another number of states or nodes or with
    foreign states or interactions, and serialized chains without vertex, helicities, weight or
    propagator are refused with an exception instead of giving a model or decay. Requests next to
    them that can be fulfilled are, and builders, reactions and definitions work as before after a
    refusal.""",
    ["inputs", "histories"], "all decays, reactions and serialized models and all ways to misuse them",
    "The tests reject a handful of inputs, and never use an object again afterwards.",
    [INIT, QR, SA, SDYN],
    m(("min_ls validation", INIT), ("_formulate_clebsch_gordan_factors", INIT), ("_to_decay_chain", QR), ("filter_min_ls", QR), ("_get_resonance_helicity", SA)),
    "runtime oracle: refusals and neighbouring accepted requests",
    "Random decays, reactions and serialized models, each misused in about 70 ways.",
)
prop(
    "C29", "Muting and rendering utilities change nothing but what they are for",
    """Muting silences the warnings of decays and the log of the disk cache, and nothing else: the
    warnings and log records of the user, of other packages and errors still arrive. Simplified
    rendering changes only the LaTeX of indexed symbols, which then shows all indices in one
    subscript. Neither changes any result, however often and in whichever combination they are
    called.""",
    ["configurations", "histories"], "all combinations and repetitions, over random analysis steps",
    "These functions change the state of the whole process, which the tests never look at.",
    [IO, DEC], m(("mute_ampform_warnings", IO), ("simplify_latex_rendering", IO), ("get_subsystem", DEC)),
    "runtime monitor over recorded warnings and log records of fresh processes",
    "The same steps in four fresh processes per case, with an empty disk cache.",
)
prop(
    "C30", "Copies and pickles are equal to the original and independent of it",
    """Decays, chains, nodes, particles, models, builders, dynamics and expressions can be copied,
    deep-copied, pickled and sent to another process. Each copy is equal to the original, has the
    same hash, gives the same values and works in the same way, and changing it does not change
    the original.""",
    ["inputs", "histories"], "all decays, models and dynamics, and all ways of copying",
    "The tests copy nothing, although the disk cache pickles what it stores.",
    [DEC, INIT, DYN, BLD, S + "_attrs.py"],
    m(("Particle / IsobarNode / ThreeBodyDecay", DEC), ("AmplitudeModel", INIT), ("unevaluated lineshapes", DYN)),
    "runtime metamorphic monitor over copies, pickles and processes",
    "Every object of a random decay is copied in five ways, compared, evaluated and used.",
)

def main():
    with open(VERIF / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}, ensure_ascii=False) + "\n")
    manifest = {
        "version": 1,
        "setup_cmd": "./setup",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": f"./check {p['id']}",
                "thorough_cmd": f"./check {p['id']} --tier thorough",
                "technique": p["_technique"],
                "level": "exploration",
                "level_note": p["_note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "All checks run the code in /repo/src as is (pure Python; no hooks, nothing to build). Oracles are in mon/ref.py, mon/model.py, mon/ser.py, mon/qr.py; known findings and fixes in known_findings.json; see DESIGN.md.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")


def rule(id):
    """The description of a case, as it is in the evidence."""
    tree = ast.parse((VERIF / "mon" / "checks" / f"{id.lower()}.py").read_text())
    for node in tree.body:
        if isinstance(node, ast.Assign) and node.targets[0].id == "RULE":
            return ast.literal_eval(node.value)
    raise LookupError(id)


def design():
    path = VERIF / "DESIGN.md"
    head, _, rest = path.read_text().partition("## Properties\n")
    _, mark, tail = rest.partition("## Not applicable")
    parts = []
    for p in P:
        q = p["quantifier"]
        parts.append(
            f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n*Quantified over* "
            f"{', '.join(q['over'])}: {q['text']}.\n\n*Decided by* {p['_technique']}. "
            f"{rule(p['id'])}\n\n*Why tests cannot*: {p['why_tests_cant']}\n\n"
        )
    path.write_text(head + "## Properties\n\n" + "".join(parts) + mark + tail)


main()
design()
