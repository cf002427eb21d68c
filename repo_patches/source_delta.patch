From ab9fec31fbe52c66da22285f687f75fa7048a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:30 +0000
Subject: [PATCH 01/23] fix: make initial-state alignment angles additive
 between subsystems
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The angles θ̂_1(2), θ̂_2(3), θ̂_3(1) add up to 2π, so that using them directly as
alignment angles flips the sign of one subsystem for half-integer initial spin:
the intensity depended on the choice of reference subsystem.
---
 src/ampform_dpd/angles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ampform_dpd/angles.py b/src/ampform_dpd/angles.py
index 6f2e1e2..dbecbab 100644
--- a/src/ampform_dpd/angles.py
+++ b/src/ampform_dpd/angles.py
@@ -87,6 +87,11 @@ def formulate_zeta_angle(  # noqa: C901, PLR0911, PLR0914
     )
     if rotated_state == 0:
         _, theta = formulate_theta_hat_angle(aligned_subsystem, reference_subsystem)
+        # θ̂_1(2) + θ̂_2(3) + θ̂_3(1) = 2π, while alignment rotations have to be additive
+        if (aligned_subsystem, reference_subsystem) == (2, 3):
+            theta -= 2 * sp.pi
+        elif (aligned_subsystem, reference_subsystem) == (3, 2):
+            theta += 2 * sp.pi
         return zeta_symbol, theta
     if reference_subsystem == 0:
         _, zeta = formulate_zeta_angle(rotated_state, aligned_subsystem, rotated_state)
-- 
2.43.0


From 4b2b59588e98f054f94528ded15dc47690da75c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:47 +0000
Subject: [PATCH 02/23] fix: return cleaned-up intensity if cleanup_summations
 is requested

---
 src/ampform_dpd/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index e848bd2..a5b0c12 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -149,10 +149,7 @@ class DalitzPlotDecompositionBuilder:
             intensity = intensity.cleanup()  # type:ignore[assignment]
         return AmplitudeModel(
             decay=self.decay,
-            intensity=PoolSum(
-                sp.Abs(aligned_amp) ** 2,
-                *allowed_helicities.items(),
-            ),
+            intensity=intensity,
             amplitudes=amplitude_definitions,
             variables=angle_definitions,
             parameter_defaults=parameter_defaults,
-- 
2.43.0


From 2e03408409e1d3a55e1270d69f3e35b5cc372c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 03/23] fix: use dynamics builder of the decay chain itself,
 not of the first chain with the same resonance name

Builders registered for any other chain (another subsystem or LS combination) of
that resonance were silently ignored. Registering by name now applies to all
chains with that resonance.
---
 src/ampform_dpd/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index a5b0c12..2bee4fc 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -181,7 +181,7 @@ class DalitzPlotDecompositionBuilder:
         terms = []
         parameter_defaults: dict[sp.Basic, complex] = {}
         for chain in self.decay.get_subsystem(subsystem_id).chains:
-            formulate_dynamics = self.dynamics_choices.get_builder(chain.resonance.name)
+            formulate_dynamics = self.dynamics_choices.get_builder(chain)
             dynamics = formulate_dynamics(chain)
             parameter_defaults.update(dynamics.parameters)
             resonance_spin = sp.Rational(chain.resonance.spin)
@@ -450,7 +450,11 @@ class DynamicsConfigurator:
 
     def register_builder(self, identifier, builder: DynamicsBuilder) -> None:
         chain = self.__get_chain(identifier)
-        self.__dynamics_builders[chain] = builder
+        chains = [chain]
+        if isinstance(identifier, str):
+            chains = [c for c in self.__decay.chains if c.resonance.name == identifier]
+        for chain in chains:
+            self.__dynamics_builders[chain] = builder
 
     def get_builder(self, identifier) -> DynamicsBuilder:
         chain = self.__get_chain(identifier)
-- 
2.43.0


From 9166197aa18d9f2031bdb40992ab921e04b4e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 04/23] fix: do not share parameter values between lambdified
 functions

lambdify() returned the same mutable function object for equal expressions and
parameters, so that updating its parameters changed the result of later calls.
---
 src/ampform_dpd/io/cached.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ampform_dpd/io/cached.py b/src/ampform_dpd/io/cached.py
index 057c21a..9ad6f96 100644
--- a/src/ampform_dpd/io/cached.py
+++ b/src/ampform_dpd/io/cached.py
@@ -9,16 +9,14 @@ import cloudpickle
 from ampform.sympy._cache import cache_to_disk  # noqa: PLC2701
 from ampform.sympy.cached import doit, simplify, subs, trigsimp, unfold, xreplace
 from frozendict import frozendict
+from tensorwaves.function import ParametrizedBackendFunction
 from tensorwaves.function.sympy import create_function, create_parametrized_function
 
 if TYPE_CHECKING:
     from collections.abc import Mapping
 
     import sympy as sp
-    from tensorwaves.function import (
-        ParametrizedBackendFunction,
-        PositionalArgumentFunction,
-    )
+    from tensorwaves.function import PositionalArgumentFunction
     from tensorwaves.interface import Function, ParameterValue, ParametrizedFunction
 
 __all__ = [
@@ -73,7 +71,11 @@ def lambdify(
         jax.config.update("jax_enable_x64", True)
     if parameters is None:
         return _lambdify_impl(expr, backend=backend)
-    return _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    func = _lambdify_impl(expr, frozendict(parameters), backend=backend)
+    # Parameter values are mutable, so never hand out the instance in the memory cache
+    return ParametrizedBackendFunction(
+        func.function, func.argument_order, func.parameters
+    )
 
 
 @cache
-- 
2.43.0


From b81b4656583ad9d00363c5686cd9a3a6b57d7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 05/23] fix: align columns of decay chain table if only some
 chains have LS couplings

---
 src/ampform_dpd/io/__init__.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index a9b57e0..e922f14 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -188,9 +188,11 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         R"mass (MeV)",
         R"width (MeV)",
     ]
-    if any(c.outgoing_ls is not None for c in decay_chains):
+    render_outgoing_ls = any(c.outgoing_ls is not None for c in decay_chains)
+    render_incoming_ls = any(c.incoming_ls is not None for c in decay_chains)
+    if render_outgoing_ls:
         column_names.append(R"$L_\mathrm{dec}^\mathrm{min}$")
-    if any(c.incoming_ls is not None for c in decay_chains):
+    if render_incoming_ls:
         column_names.append(R"$L_\mathrm{prod}^\mathrm{min}$")
     src = _create_markdown_table_header(column_names)
     for chain in decay_chains:
@@ -201,10 +203,10 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
             f"{int(1e3 * chain.resonance.mass):,.0f}",
             f"{int(1e3 * chain.resonance.width):,.0f}",
         ]
-        if chain.outgoing_ls is not None:
-            row_items.append(chain.outgoing_ls.L)
-        if chain.incoming_ls is not None:
-            row_items.append(chain.incoming_ls.L)
+        if render_outgoing_ls:
+            row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
+        if render_incoming_ls:
+            row_items.append(" " if chain.incoming_ls is None else chain.incoming_ls.L)
         src += _create_markdown_table_row(row_items)
     return src
 
-- 
2.43.0


From abf79eb703e9357be18f9f3feba62f6182c9f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:21 +0000
Subject: [PATCH 06/23] fix: round masses and widths in Markdown tables instead
 of truncating them

Truncation is off by one MeV if 1e3 times the value is just below an integer, for
instance 1000 MeV instead of 1,001 MeV for a mass of 1.001 GeV.
---
 src/ampform_dpd/io/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ampform_dpd/io/__init__.py b/src/ampform_dpd/io/__init__.py
index e922f14..7561295 100644
--- a/src/ampform_dpd/io/__init__.py
+++ b/src/ampform_dpd/io/__init__.py
@@ -172,8 +172,8 @@ def _as_resonance_markdown_table(items: Sequence[Particle | State]) -> str:
             f"`{particle.name}`",
             f"${particle.latex}$",
             Rf"${aslatex(particle, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * particle.mass):,.0f}",
-            f"{int(1e3 * particle.width):,.0f}",
+            f"{1e3 * particle.mass:,.0f}",
+            f"{1e3 * particle.width:,.0f}",
         ]
         if render_index:
             row_items.insert(0, particle.index if isinstance(particle, State) else " ")
@@ -200,8 +200,8 @@ def _as_decay_markdown_table(decay_chains: Sequence[ThreeBodyDecayChain]) -> str
         row_items: list = [
             Rf"${chain.resonance.latex} \to {child1} {child2}$",
             Rf"${aslatex(chain.resonance, only_jp=True)}$",  # type:ignore[call-arg]
-            f"{int(1e3 * chain.resonance.mass):,.0f}",
-            f"{int(1e3 * chain.resonance.width):,.0f}",
+            f"{1e3 * chain.resonance.mass:,.0f}",
+            f"{1e3 * chain.resonance.width:,.0f}",
         ]
         if render_outgoing_ls:
             row_items.append(" " if chain.outgoing_ls is None else chain.outgoing_ls.L)
-- 
2.43.0


From 6330dbd1d1e6abebf237980b814a19905f2a9b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 07/23] fix: convert QRules particles that have no defined
 parity

---
 src/ampform_dpd/adapter/qrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 519f879..7c34406 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -143,7 +143,7 @@ def _to_particle(
         name=particle.name,
         latex=particle.name if particle.latex is None else particle.latex,
         spin=particle.spin,
-        parity=int(particle.parity),  # type:ignore[arg-type]
+        parity=None if particle.parity is None else int(particle.parity),  # type:ignore[arg-type]
         mass=particle.mass,
         width=particle.width,
     )
@@ -164,7 +164,7 @@ def _to_state(obj: Any, index: StateIDTemplate | None = None):
         name=obj.name,
         latex=obj.name if obj.latex is None else obj.latex,  # pyright:ignore[reportUnnecessaryComparison]
         spin=obj.spin,
-        parity=int(obj.parity),  # type:ignore[arg-type]
+        parity=None if obj.parity is None else int(obj.parity),  # type:ignore[arg-type]
         mass=obj.mass,
         width=obj.width,
         index=index,
-- 
2.43.0


From 719fe4fb955f0baecbcfb28639c303f4dc12576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 08/23] fix: exclude LS couplings with half-integer difference
 between spins

---
 src/ampform_dpd/spin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/spin.py b/src/ampform_dpd/spin.py
index 8e1ba1e..4fbe867 100644
--- a/src/ampform_dpd/spin.py
+++ b/src/ampform_dpd/spin.py
@@ -30,7 +30,7 @@ def generate_ls_couplings(
         (int(L), S)
         for L in angular_momenta
         for S in coupled_spins
-        if abs(L - S) <= parent_spin <= L + S
+        if abs(L - S) <= parent_spin <= L + S and (L + S - parent_spin) % 1 == 0
     }
     return sorted(ls_couplings)
 
-- 
2.43.0


From 3a022160ad64fd71dc466f2902f3011ab99d6d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 09/23] fix: get spin of final states when deserializing an LS
 vertex

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 8aad442..1516ef6 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -329,7 +329,7 @@ def _get_child_spins(
     spins = []
     for node_item in node:
         if isinstance(node_item, int):
-            spins.append(sp.Rational(final_state[node_item]))
+            spins.append(final_state[node_item].spin)
         else:
             spins.append(__get_propagator_spin(chain_definition))
     return tuple(spins)
-- 
2.43.0


From 104d852738ecdfdf419c55272ffe2664f7b1d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 10/23] fix: formulate production form factor of serialized
 vertex with consistent units

The form factor expects the squared mass of the decaying particle and the masses
of its decay products, but got the mass of the initial state and the squared mass
of the resonance.
---
 src/ampform_dpd/io/serialization/dynamics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index cbf1fcf..fef8cca 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -84,6 +84,12 @@ def formulate_form_factor(vertex: Vertex, model: ModelDefinition) -> DefinedExpr
         if all(isinstance(i, int) for i in node):
             meson_radius = sp.Symbol(R"R_\mathrm{res}", nonnegative=True)
         else:
+            # the form factor takes s = m0² and masses, while m0 is a mass and σ = m²
+            s **= 2
+            m1, m2 = (
+                m if isinstance(i, int) else sp.sqrt(m)
+                for i, m in zip(node, (m1, m2), strict=True)
+            )
             initial_state = get_initial_state(model)
             meson_radius = sp.Symbol(f"R_{{{initial_state.latex}}}", nonnegative=True)
         angular_momentum = int(function_definition["l"])
-- 
2.43.0


From 0d5f58649f2dfa29c84ed083c1e2e53a064e38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 11/23] fix: include breakup momentum in channel widths of
 multichannel Breit-Wigner
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Without it, the channel masses do not affect the lineshape of S-wave channels, so
that a serialized Flatté has no thresholds.
---
 src/ampform_dpd/dynamics/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 18b94d0..4fd3a21 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -159,9 +159,10 @@ class ChannelArguments(sp.Expr):
     _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
 
     def evaluate(self) -> sp.Expr:
-        s, m0, Γ0, m1, m2, L, R = self.args
+        s, _, Γ0, m1, m2, L, R = self.args
+        q = BreakupMomentum(s, m1, m2)
         ff = FormFactor(s, m1, m2, L, R) ** 2
-        return Γ0 * m0 / sp.sqrt(s) * ff  # type:ignore[operator]
+        return Γ0 * (2 * q / sp.sqrt(s)) * ff  # type:ignore[operator]
 
 
 @unevaluated
-- 
2.43.0


From a79ae2ca297dda508b809a4ce5575e97e42616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 12/23] fix: avoid KeyError when rendering ChannelArguments as
 LaTeX

---
 src/ampform_dpd/dynamics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/dynamics/__init__.py b/src/ampform_dpd/dynamics/__init__.py
index 4fd3a21..78982e2 100644
--- a/src/ampform_dpd/dynamics/__init__.py
+++ b/src/ampform_dpd/dynamics/__init__.py
@@ -156,7 +156,7 @@ class ChannelArguments(sp.Expr):
     m2: Any = 0
     angular_momentum: Any = 0
     meson_radius: Any = 1
-    _latex_repr_ = R"\Gamma^\text{channel}\left({{s}}, {{m0}}, {{width}}\right)"
+    _latex_repr_ = R"\Gamma^\text{{channel}}\left({s}, {m0}, {width}\right)"
 
     def evaluate(self) -> sp.Expr:
         s, _, Γ0, m1, m2, L, R = self.args
-- 
2.43.0


From bf015e121c9701b4e737ba41ad47f752b248df6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 13/23] fix: do not count parity recoupling twice if both
 helicities are zero

---
 src/ampform_dpd/io/serialization/amplitude.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 1516ef6..64f25e4 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -382,6 +382,7 @@ class ParityRecoupling(sp.Expr):
 
     def evaluate(self) -> sp.Expr:
         λa, λb, λa0, λb0, f = self.args
+        f *= 1 - δ(λa0, 0) * δ(λb0, 0)  # do not count identical helicities twice
         return δ(λa, λa0) * δ(λb, λb0) + f * δ(λa, -λa0) * δ(λb, -λb0)  # type:ignore[operator]
 
 
-- 
2.43.0


From ed6429738a7cef283384b3d1d99e2feca82e5990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 14/23] fix: evaluate chain amplitude of serialized model for
 the helicities of its states

The Wigner d-function was evaluated for the reference helicities of the vertices,
also if a parity vertex contributes to the opposite helicities, and helicity was
not conserved between the initial state and the production vertex.
---
 src/ampform_dpd/io/serialization/amplitude.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 64f25e4..4cf8ef7 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -132,24 +132,26 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     # -----------------------
     weight, weight_val = _get_weight(chain_definition, to_latex)
     # -----------------------
-    (i, λi_val), (j, λj_val) = _get_decay_product_helicities(chain_definition)
+    (i, _), (j, _) = _get_decay_product_helicities(chain_definition)
     θij, θij_expr = formulate_scattering_angle(i, j)
     jR = sp.Rational(chain_definition["propagators"][0]["spin"])  # noqa: N806
-    R_node, λR_val = _get_resonance_helicity(chain_definition)  # noqa: N806
-    λR = _get_helicity_symbol(R_node)
+    R_node, _ = _get_resonance_helicity(chain_definition)  # noqa: N806
+    λR, λi, λj = map(_get_helicity_symbol, (R_node, i, j))
     # -----------------------
     A = _generate_amplitude_index_bases()
     subsystem_id = get_spectator_id(chain_definition["topology"])
     h_prod = formulate_recoupling(model, chain_idx, vertex_idx=0)
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
-    amplitude_expression = (
+    λ0_symbol, λk = map(_get_helicity_symbol, (0, subsystem_id))
+    amplitude_expression = PoolSum(
         weight
         * h_prod
         * h_dec
-        * Wigner.d(jR, λR, λi_val - λj_val, θij)
-        * dynamics.expression
+        * δ(λ0_symbol, λR - λk)
+        * Wigner.d(jR, λR, λi - λj, θij)
+        * dynamics.expression,
+        (λR, create_spin_range(jR)),
     )
-    amplitude_expression = amplitude_expression.subs({λR: λR_val})
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
     return {
         amplitude_symbol: amplitude_expression,
-- 
2.43.0


From e56c7dea10214a5037dc4942e77ffd04f752c742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:19 +0000
Subject: [PATCH 15/23] fix: include spin normalization and phases in chain
 amplitude of serialized model
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The factor √(2j+1) and the particle-2 phases (-1)^(j-λ) of both vertices were
missing. With these, the model in docs/Lc2ppiK.json reproduces its checksum up to
the normalization of the form factors at the resonance mass.
---
 src/ampform_dpd/io/serialization/amplitude.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 4cf8ef7..05d6d10 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -143,13 +143,17 @@ def formulate_chain_amplitude(  # noqa: PLR0914, PLR0917
     h_prod = formulate_recoupling(model, chain_idx, vertex_idx=0)
     h_dec = formulate_recoupling(model, chain_idx, vertex_idx=1)
     λ0_symbol, λk = map(_get_helicity_symbol, (0, subsystem_id))
+    states = get_states(model)
     amplitude_expression = PoolSum(
         weight
         * h_prod
         * h_dec
         * δ(λ0_symbol, λR - λk)
         * Wigner.d(jR, λR, λi - λj, θij)
-        * dynamics.expression,
+        * dynamics.expression
+        * sp.sqrt(2 * jR + 1)
+        * (-1) ** (states[subsystem_id].spin - λk)
+        * (-1) ** (states[j].spin - λj),
         (λR, create_spin_range(jR)),
     )
     amplitude_symbol = A[subsystem_id][λ0, λ1, λ2, λ3]
-- 
2.43.0


From b5f24adbfded749fe4f97f53ee599e8a8f8f325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 16/23] fix: assign LS couplings to production and decay node
 by node ID, not by dictionary order

---
 src/ampform_dpd/adapter/qrules.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index 7c34406..d4351d1 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -93,7 +93,8 @@ def _to_decay_chain(
     spectator_id, resonance_id = sorted(topology.get_edge_ids_outgoing_from_node(0))
     child1_id, child2_id = sorted(topology.get_edge_ids_outgoing_from_node(1))
     resonance_id, *_ = sorted(topology.get_edge_ids_ingoing_to_node(1))
-    production_node, decay_node = transition.interactions.values()
+    production_node = transition.interactions[0]
+    decay_node = transition.interactions[1]
     return ThreeBodyDecayChain(
         decay=IsobarNode(
             parent=parent,
-- 
2.43.0


From f3ca20dd74b9a68f0c51ef82fbeda4b6000ed83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 17/23] fix: keep states on their own edge when normalizing
 partially defined transitions

---
 src/ampform_dpd/adapter/qrules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index d4351d1..d20d0c2 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -295,7 +295,11 @@ def _(obj: _Transition) -> _Transition:
     return attrs.evolve(
         obj,
         topology=_impl_normalize_state_ids(obj.topology),
-        states={new: obj.states[old] for new, old in enumerate(sorted(obj.states))},
+        states={
+            new: obj.states[old]
+            for new, old in enumerate(sorted(obj.topology.edges))
+            if old in obj.states
+        },
     )
 
 
-- 
2.43.0


From 8a9d080ebd59e6ce2315632a3f0a208fb8d37ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 18/23] fix: do not exhaust iterator of transitions in
 filter_min_ls

---
 src/ampform_dpd/adapter/qrules.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index d20d0c2..c5e746e 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -192,6 +192,7 @@ def filter_min_ls(
     transitions: Iterable[FrozenTransition[EdgeType, NodeType]],
     node_ids: set[int] | None = None,
 ) -> tuple[FrozenTransition[EdgeType, NodeType], ...]:
+    transitions = tuple(transitions)
     available_node_ids = {i for t in transitions for i in t.interactions}
     if available_node_ids != {0, 1}:
         msg = (
-- 
2.43.0


From 7bf0d58bc5bd64d5d0a326c77b2cd3b0c3a5c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 19/23] fix: group LS couplings by node ID, not by dictionary
 order, when filtering on no or one node

---
 src/ampform_dpd/adapter/qrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/adapter/qrules.py b/src/ampform_dpd/adapter/qrules.py
index c5e746e..63461a6 100644
--- a/src/ampform_dpd/adapter/qrules.py
+++ b/src/ampform_dpd/adapter/qrules.py
@@ -220,7 +220,7 @@ def filter_min_ls(
             _get_decay_product_ids(transition.topology, resonance_id),
             tuple(
                 node
-                for i, node in transition.interactions.items()
+                for i, node in sorted(transition.interactions.items())
                 if node and i not in node_ids
             ),
         )
-- 
2.43.0


From 1e95385fa05263cceb60331e9c12d73877da8f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:35 +0000
Subject: [PATCH 20/23] fix: do not share channel masses and radii between
 multichannel Breit-Wigners

---
 src/ampform_dpd/io/serialization/dynamics.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ampform_dpd/io/serialization/dynamics.py b/src/ampform_dpd/io/serialization/dynamics.py
index fef8cca..fe9b883 100644
--- a/src/ampform_dpd/io/serialization/dynamics.py
+++ b/src/ampform_dpd/io/serialization/dynamics.py
@@ -159,14 +159,19 @@ def formulate_multichannel_breit_wigner(  # noqa: PLR0914
         Γi = sp.Symbol(
             Rf"\Gamma_{{{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
         )
-        mi1 = sp.Symbol(f"m_{{a,{channel_idx}}}", nonnegative=True)
-        mi2 = sp.Symbol(f"m_{{b,{channel_idx}}}", nonnegative=True)
+        mi1, mi2, di = (
+            sp.Symbol(
+                Rf"{name}{resonance}}}^\text{{ch. {channel_idx}}}", nonnegative=True
+            )
+            for name in ("m_{a,", "m_{b,", "R_{")
+        )
         angular_momentum = int(channel_definition["l"])
-        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, d))
+        channels.append(ChannelArguments(s, mass, Γi, mi1, mi2, angular_momentum, di))
         parameter_defaults.update({
             mi1: channel_definition["ma"],
             mi2: channel_definition["mb"],
             Γi: channel_definition["gsq"],
+            di: channel_definition["d"],
         })
     return DefinedExpression(
         expression=MultichannelBreitWigner(s, mass, tuple(channels)),
-- 
2.43.0


From 08e6abb72108efb6871a8fe053cf505a126a927b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 21/23] fix: label LS recoupling as LS, not as parity, in LaTeX
 rendering

---
 src/ampform_dpd/io/serialization/amplitude.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ampform_dpd/io/serialization/amplitude.py b/src/ampform_dpd/io/serialization/amplitude.py
index 05d6d10..65a8792 100644
--- a/src/ampform_dpd/io/serialization/amplitude.py
+++ b/src/ampform_dpd/io/serialization/amplitude.py
@@ -402,7 +402,7 @@ class LSRecoupling(sp.Expr):
     jb: Any
     j: Any
     _latex_repr_ = (
-        R"\mathcal{{H}}^\text{{parity}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
+        R"\mathcal{{H}}^\text{{LS}}\left({λa},{λb}|{l},{s},{ja},{jb},{j}\right)"
     )
 
     def evaluate(self) -> sp.Expr:
-- 
2.43.0


From a34324573420e10516c4a10d1774e0c69cd69e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:21 +0000
Subject: [PATCH 22/23] fix: reject alignment angles of unknown particles and
 subsystems also if the subsystems are equal

---
 src/ampform_dpd/angles.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ampform_dpd/angles.py b/src/ampform_dpd/angles.py
index dbecbab..c9f1031 100644
--- a/src/ampform_dpd/angles.py
+++ b/src/ampform_dpd/angles.py
@@ -96,7 +96,10 @@ def formulate_zeta_angle(  # noqa: C901, PLR0911, PLR0914
     if reference_subsystem == 0:
         _, zeta = formulate_zeta_angle(rotated_state, aligned_subsystem, rotated_state)
         return zeta_symbol, zeta
-    if aligned_subsystem == reference_subsystem:
+    if aligned_subsystem == reference_subsystem and {
+        rotated_state,
+        aligned_subsystem,
+    } <= {1, 2, 3}:
         return zeta_symbol, sp.S.Zero
     m0, m1, m2, m3 = sp.symbols("m:4", nonnegative=True)
     σ1, σ2, σ3 = sp.symbols("sigma1:4", nonnegative=True)
-- 
2.43.0


From e7880ce654330696da939883944d1e23d6d81d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:44 +0000
Subject: [PATCH 23/23] fix: reject references that are not a subsystem also if
 all particles are spinless

---
 src/ampform_dpd/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ampform_dpd/__init__.py b/src/ampform_dpd/__init__.py
index 2bee4fc..41536b5 100644
--- a/src/ampform_dpd/__init__.py
+++ b/src/ampform_dpd/__init__.py
@@ -301,6 +301,9 @@ def _get_best_reference_subsystems(decay: ThreeBodyDecay) -> FinalStateID:
 def _check_reference_subsystems(
     decay: ThreeBodyDecay, reference_subsystem: FinalStateID
 ) -> None:
+    if reference_subsystem not in {1, 2, 3}:
+        msg = f"Reference subsystem has to be 1, 2, or 3, not {reference_subsystem}"
+        raise ValueError(msg)
     subsystem_ids = _get_subsystem_ids(decay)
     if reference_subsystem not in subsystem_ids:
         decay_description = _get_decay_description(decay)
-- 
2.43.0

