From c3e54fdfe8293285562cba1f910fc49c9ce231b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 01/38] fix: weight product atomic fractions of open reactions
 by their coefficients

---
 src/rxn_network/reactions/open.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 70c8e5d..d6855b2 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -197,7 +197,7 @@ class OpenComputedReaction(ComputedReaction):
             raise ValueError("Reaction is not balanced")
 
         return {
-            c.reduced_composition: sum(c[el] for el in self.elements) / self.num_atoms
+            c.reduced_composition: coeff * sum(c[el] for el in self.elements) / self.num_atoms
             for c, coeff in self.product_coeffs.items()
         }
 
-- 
2.43.0


From 9d56b8f19a7c151295be213aaadac2ad236d1e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:00 +0000
Subject: [PATCH 02/38] fix: compare byproducts with the common gases by
 formula in is_separable

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 668b91b..21f7c4f 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -216,7 +216,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0


From bad20c61028f588698ab0a1d87225fa4ab774154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 03/38] fix: keep open reactions open when they are normalized

---
 src/rxn_network/reactions/open.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index d6855b2..8ed1d02 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -179,6 +179,18 @@ class OpenComputedReaction(ComputedReaction):
             self.lowest_num_errors,
         )
 
+    def normalize_to(self, comp: Composition, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the compositions (see ComputedReaction), keeping
+        the chemical potentials.
+        """
+        return self.from_computed_rxn(super().normalize_to(comp, factor), self.chempots)
+
+    def normalize_to_element(self, element: Element, factor: float = 1) -> OpenComputedReaction:
+        """Normalizes the reaction to one of the elements (see ComputedReaction), keeping the
+        chemical potentials.
+        """
+        return self.from_computed_rxn(super().normalize_to_element(element, factor), self.chempots)
+
     @cached_property
     def reactant_atomic_fractions(self) -> dict:
         """Returns the atomic mixing ratio of reactants in the reaction."""
-- 
2.43.0


From f999a70cc87fdc56b0814e421f4421552bed2513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:48 +0000
Subject: [PATCH 04/38] fix: compare the coefficients of equal phases in
 reaction equality

---
 src/rxn_network/reactions/basic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 21f7c4f..ced4620 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -470,13 +470,16 @@ class BasicReaction(Reaction):
         if not len(self.reactants) == len(other.reactants):
             return False
 
-        if not np.allclose(sorted(self.coefficients), sorted(other.coefficients)):
+        if not set(self.reactants) == set(other.reactants):
             return False
 
-        if not set(self.reactants) == set(other.reactants):
+        if not set(self.products) == set(other.products):
             return False
 
-        return set(self.products) == set(other.products)
+        return np.allclose(
+            [self.reactant_coeffs[c] for c in self.reactants] + [self.product_coeffs[c] for c in self.products],
+            [other.reactant_coeffs[c] for c in self.reactants] + [other.product_coeffs[c] for c in self.products],
+        )
 
     def __hash__(self):
         return hash(
-- 
2.43.0


From 94eab5a89512689aba047a5fbc460e89fccb8b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:42 +0000
Subject: [PATCH 05/38] fix: accept integer reaction coefficients

---
 src/rxn_network/reactions/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index ced4620..9aeb7f6 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -56,7 +56,7 @@ class BasicReaction(Reaction):
                 phases may be shuffled or removed entirely).
         """
         self._compositions = [Composition(c) for c in compositions]
-        self._coefficients = np.array(coefficients)
+        self._coefficients = np.array(coefficients, dtype=float)
 
         self.reactant_coeffs = {
             comp: coeff for comp, coeff in zip(self._compositions, self._coefficients, strict=False) if coeff < 0
-- 
2.43.0


From f0e91a4bf4b5139a195ed016dd7045e292a89c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 06/38] fix: return all and only the matching reactions in
 reaction set queries

---
 src/rxn_network/reactions/reaction_set.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index a8ef34e..0d7f5cb 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -343,9 +343,6 @@ class ReactionSet(MSONable):
             {idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula in reactants}
         )
 
-        if not reactant_indices:
-            return []
-
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
@@ -355,7 +352,7 @@ class ReactionSet(MSONable):
                 self.coeffs[size][contains_reactants],
                 self.indices[size][contains_reactants], strict=False,
             ):
-                r_indices = {i for c, i in zip(coeffs, indices, strict=False) if c < 1e-12}
+                r_indices = {i for c, i in zip(coeffs, indices, strict=False) if c < -1e-12}
                 if r_indices.issubset(reactant_indices):
                     idxs[size].append(idx)
 
@@ -375,27 +372,20 @@ class ReactionSet(MSONable):
         """
         product = Composition(product).reduced_formula
 
-        product_index = None
-        for idx, e in enumerate(self.entries):
-            if e.composition.reduced_formula == product:
-                product_index = idx
-                break
-
-        if not product_index:
-            return []
+        product_indices = [idx for idx, e in enumerate(self.entries) if e.composition.reduced_formula == product]
 
         idxs = {}  # type: ignore
         for size, indices in self.indices.items():
             idxs[size] = []
-            contains_product = np.isin(indices, product_index).any(axis=1)
+            contains_product = np.isin(indices, product_indices).any(axis=1)
 
             for idx, coeffs, indices in zip(
                 np.argwhere(contains_product).flatten(),
                 self.coeffs[size][contains_product],
                 self.indices[size][contains_product], strict=False,
             ):
-                p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > -1e-12}
-                if product_index in p_indices:
+                p_indices = {i for c, i in zip(coeffs, indices, strict=False) if c > 1e-12}
+                if not p_indices.isdisjoint(product_indices):
                     idxs[size].append(idx)
 
         if return_set:
-- 
2.43.0


From 02a45647f473a09d22076be1f1a704b1326e2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 07/38] fix: filter duplicates in parallel on a single CPU

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 0d7f5cb..2b7dac6 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -415,7 +415,7 @@ class ReactionSet(MSONable):
         if parallelize:
             if not ray.is_initialized():
                 initialize_ray()
-            num_cpus = int(ray.cluster_resources()["CPU"]) - 1
+            num_cpus = max(int(ray.cluster_resources()["CPU"]) - 1, 1)
             chunk_refs = []
 
         ensure_idxs = {size: [] for size in self.indices}  # type: ignore
-- 
2.43.0


From e5d02b87a7a8c66409fbb099bfe18bb26cbdc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 08/38] fix: order polymorphs deterministically in reaction
 sets

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 2b7dac6..dddfeec 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -123,7 +123,7 @@ class ReactionSet(MSONable):
         if not entries:
             entries = cls._get_unique_entries(rxns)
 
-        entries = sorted(set(entries), key=lambda r: r.composition)
+        entries = sorted(set(entries), key=lambda e: (e.composition, str(getattr(e, "unique_id", e.entry_id))))
 
         # need to index by unique ID in case mixing different temperatures
         all_entry_indices = {}
-- 
2.43.0


From 044013ed14f3dbd012233eb34733fec4405f8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 09/38] fix: accept float temperatures in GibbsComputedEntry

---
 src/rxn_network/entries/gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index aaecfa8..639a385 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -208,7 +208,7 @@ class GibbsComputedEntry(ComputedEntry):
                 )
                 sum_g_i += amt * g_interp(temperature)
         else:
-            sum_g_i = sum(amt * G_ELEMS[str(temperature)][elem] for elem, amt in elems.items())
+            sum_g_i = sum(amt * G_ELEMS[str(int(temperature))][elem] for elem, amt in elems.items())
 
         return sum_g_i
 
-- 
2.43.0


From 4818a82a988a883ed78b0247100a1cbfe19eebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 10/38] fix: update temperature-dependent adjustments in
 GibbsComputedEntry.get_new_temperature

---
 src/rxn_network/entries/gibbs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/entries/gibbs.py b/src/rxn_network/entries/gibbs.py
index 639a385..74b96d9 100644
--- a/src/rxn_network/entries/gibbs.py
+++ b/src/rxn_network/entries/gibbs.py
@@ -130,6 +130,9 @@ class GibbsComputedEntry(ComputedEntry):
             temperature.
         """
         new_entry_dict = self.as_dict()
+        for adj in new_entry_dict["energy_adjustments"]:
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From 09d4fe21535dec18c0e718e4394a24354af80d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 11/38] fix: keep other adjustments intact in
 ExperimentalReferenceEntry.get_new_temperature

---
 src/rxn_network/entries/experimental.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 919e021..1d8a666 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -80,7 +80,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         """
         new_entry_dict = self.as_dict()
         for adj in new_entry_dict["energy_adjustments"]:
-            adj["temp"] = new_temperature
+            if "temp" in adj:
+                adj["temp"] = new_temperature
         new_entry_dict["temperature"] = new_temperature
 
         return self.from_dict(new_entry_dict)
-- 
2.43.0


From 5aab0258eb33d5f22721196b42d8719bb068e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 12/38] fix: scale experimental reference energies with the
 formula multiple

---
 src/rxn_network/entries/experimental.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/entries/experimental.py b/src/rxn_network/entries/experimental.py
index 1d8a666..67a6dfa 100644
--- a/src/rxn_network/entries/experimental.py
+++ b/src/rxn_network/entries/experimental.py
@@ -55,7 +55,8 @@ class ExperimentalReferenceEntry(ComputedEntry):
         self._validate_temperature(formula, temperature)
         self._temperature = temperature
 
-        energy = self._get_energy(formula, temperature)
+        factor = composition.get_reduced_formula_and_factor()[1]
+        energy = factor * self._get_energy(formula, temperature)
 
         super().__init__(
             composition,
@@ -214,6 +215,6 @@ class ExperimentalReferenceEntry(ComputedEntry):
 
     def __hash__(self) -> int:
         data_md5 = hashlib.md5(  # nosec
-            f"{self.__class__.__name__}{self.composition}_{self.temperature}".encode()
+            f"{self.__class__.__name__}{self.composition.reduced_formula}_{self.temperature}".encode()
         ).hexdigest()
         return int(data_md5, 16)
-- 
2.43.0


From 7e93a169106c6a57b8b548c8146a0cda87bcfad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:15 +0000
Subject: [PATCH 13/38] fix: never add an estimated entry besides a tabulated
 one

---
 src/rxn_network/entries/entry_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index b452819..29c8d6d 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -426,7 +426,7 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
                 if new_entry:
                     new_entries.append(new_entry)
 
-            if new_entry:
+            if new_entries:
                 experimental_formulas.append(formula)
             else:
                 energy_adjustments = []
-- 
2.43.0


From fcde0671d4a90ced3e7c5ee942da58e4f68f401f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:36 +0000
Subject: [PATCH 14/38] fix: apply the entry set options to large chemical
 systems

---
 src/rxn_network/entries/entry_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/entries/entry_set.py b/src/rxn_network/entries/entry_set.py
index 29c8d6d..28c1d04 100644
--- a/src/rxn_network/entries/entry_set.py
+++ b/src/rxn_network/entries/entry_set.py
@@ -552,7 +552,11 @@ class GibbsEntrySet(collections.abc.MutableSet, MSONable):
             )
             new_entries.update(gibbs_set)
 
-        return cls(list(new_entries))
+        return cls(
+            list(new_entries),
+            calculate_e_above_hulls=calculate_e_above_hulls,
+            minimize_obj_size=minimize_obj_size,
+        )
 
     @cached_property
     def entries_list(self) -> list[ComputedEntry]:
-- 
2.43.0


From f3daf01c99ab500f834718cd8ed6dfc9b83ac003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 15/38] fix: make precomputed entries optional in
 OpenComputedReaction.get_new_temperature

---
 src/rxn_network/reactions/open.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 8ed1d02..4e11167 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -104,7 +104,9 @@ class OpenComputedReaction(ComputedReaction):
 
         return ComputedReaction(**kwargs) if not chempots else cls(chempots=chempots, **kwargs)
 
-    def get_new_temperature(self, new_temperature: float, entries_at_temp: dict | None) -> OpenComputedReaction:
+    def get_new_temperature(
+        self, new_temperature: float, entries_at_temp: dict | None = None
+    ) -> OpenComputedReaction:
         """Returns a new reaction with the temperature changed.
 
         Args:
-- 
2.43.0


From 547476d22e2002e62395e0cdc57795681d7f0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:05 +0000
Subject: [PATCH 16/38] fix: keep polymorphs apart when changing the
 temperature of a reaction set

---
 src/rxn_network/reactions/reaction_set.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index dddfeec..2fcb80d 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -529,12 +529,9 @@ class ReactionSet(MSONable):
         Returns:
             The new ReactionSet containing the recalculated reactions.
         """
-        new_rxns = []
-        entries = {e.composition: e.get_new_temperature(new_temp) for e in self.entries}
-        for rxn in tqdm(list(self.get_rxns())):
-            new_rxns.append(rxn.get_new_temperature(new_temp, entries))
+        entries = [e.get_new_temperature(new_temp) for e in self.entries]
 
-        return ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+        return ReactionSet(entries, self.indices, self.coeffs, self.open_elem, self.chempot, self.all_data)
 
     def compute_at_temperatures(self, temp_list: list[int]) -> dict[int, ReactionSet]:
         """Recomputes reaction energies at each temperature in a list of temperatures.
@@ -548,15 +545,9 @@ class ReactionSet(MSONable):
                 A mapping of temperature to `ReactionSet` with reaction energies computed at
                 that temperature.
         """
-        all_rxns = list(self.get_rxns())
         result = {}
         for t in tqdm(temp_list, desc="Computing reaction energies..."):
-            new_rxns = []
-            entries = {e.composition: e.get_new_temperature(t) for e in self.entries}
-            for rxn in all_rxns:
-                new_rxns.append(rxn.get_new_temperature(t, entries))
-
-            result[t] = ReactionSet.from_rxns(new_rxns, open_elem=self.open_elem, chempot=self.chempot)
+            result[t] = self.set_new_temperature(t)
         return result
 
     def _get_rxns_by_indices(self, idxs) -> Iterable[ComputedReaction | OpenComputedReaction]:
-- 
2.43.0


From 5829edc3a8804c8250fadf3a20df95b18e13db00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 17/38] fix: count one decomposition pathway for a single point
 of the reaction hull

---
 src/rxn_network/reactions/hull.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3aef106..ff07fcc 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -424,6 +424,8 @@ class InterfaceReactionHull(MSONable):
             24466267020,
             91482563640,
         ]
+        if num < 0:  # a single point (e.g., a stable reactant) has nothing to decompose
+            return 1
         return counts[num] if num <= 22 else self._count_recursive(num)[0]
 
     @lru_cache(maxsize=128)  # noqa: B019
-- 
2.43.0


From d955b2194dd672957985e2ecd058dae87f2b8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:54 +0000
Subject: [PATCH 18/38] fix: keep the reactant references of sibling
 decompositions in the recursive secondary competition

---
 src/rxn_network/reactions/hull.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index ff07fcc..3298ebf 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -476,20 +476,20 @@ class InterfaceReactionHull(MSONable):
         val = 0
         total = 0
         for c in coords:
-            if c[0] == 0.0 and not np.isclose(c[1], 0.0):
-                use_x_min_ref = False
-            elif c[0] == 1.0 and not np.isclose(c[1], 0.0):
-                use_x_max_ref = False
+            # the reactant is no longer the reference once it has been decomposed, but
+            # only for the part of the hull on the far side of its decomposition
+            right_x_min_ref = use_x_min_ref and not (c[0] == 0.0 and not np.isclose(c[1], 0.0))
+            left_x_max_ref = use_x_max_ref and not (c[0] == 1.0 and not np.isclose(c[1], 0.0))
 
             height = self._calculate_altitude([x_min, y_min], c, [x_max, y_max])  # type: ignore
             (
                 left_decomp,
                 left_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(x_min, c[0], use_x_min_ref, left_x_max_ref)
             (
                 right_decomp,
                 right_total,
-            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, use_x_min_ref, use_x_max_ref)
+            ) = self.get_decomposition_energy_and_num_paths_recursive(c[0], x_max, right_x_min_ref, use_x_max_ref)
 
             val += height * (left_total * right_total) + left_decomp * right_total + right_decomp * left_total
             total += left_total * right_total
-- 
2.43.0


From 9e79042f130793f97ee1fa4478e9b83fbb382a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 19/38] fix: use the aggregation function given to
 ChempotDistanceCalculator

---
 src/rxn_network/costs/calculators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/costs/calculators.py b/src/rxn_network/costs/calculators.py
index bfa70ac..86ffd7e 100644
--- a/src/rxn_network/costs/calculators.py
+++ b/src/rxn_network/costs/calculators.py
@@ -59,6 +59,8 @@ class ChempotDistanceCalculator(Calculator):
             self.mu_func = sum  # type: ignore
         elif isinstance(mu_func, str):
             raise ValueError("Provided mu_func name is not a known function; please provide the function directly.")
+        else:
+            self.mu_func = mu_func
 
         self._open_elems = set()
         if cpd.entries[0].__class__.__name__ == "GrandPotPDEntry":
-- 
2.43.0


From 91f46f01ce23e3fc91dd1cd4c49144b0267ef776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:00 +0000
Subject: [PATCH 20/38] fix: leave the entries of a chemical potential diagram
 alone when computing metastable domains

---
 src/rxn_network/thermo/chempot_diagram.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index 784fae5..e9b8a4a 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -201,18 +201,15 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         orig_entry = self._entry_set.get_min_entry_by_formula(formula)
         new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=tol)
-        self._entry_set.add(new_entry)
-        cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+        cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
         try:
             metastable_domain = cpd.domains[formula]
         except KeyError as exc:
             # sometimes if the entry is exactly on the hull it fails, so set force=True
             # and make bigger tolerance
-            self._entry_set.remove(new_entry)
             new_entry = self._entry_set.get_stabilized_entry(orig_entry, tol=1e-2, force=True)
-            self._entry_set.add(new_entry)
-            cpd = ChemicalPotentialDiagram(self._entry_set, default_min_limit=-500)
+            cpd = ChemicalPotentialDiagram([*self._entry_set, new_entry], default_min_limit=-500)
 
             try:
                 metastable_domain = cpd.domains[formula]
@@ -222,7 +219,6 @@ class ChemicalPotentialDiagram(ChempotDiagram):
                 ) from exc
 
         self._metastable_domains[formula] = metastable_domain
-        self._entry_set.remove(new_entry)
 
         return metastable_domain
 
-- 
2.43.0


From 6f57654755b54cf2b85fb31b0708e585cc919fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 21/38] fix: compare entries of a chemical potential diagram by
 their formula without open elements

---
 src/rxn_network/thermo/chempot_diagram.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rxn_network/thermo/chempot_diagram.py b/src/rxn_network/thermo/chempot_diagram.py
index e9b8a4a..d88c21d 100644
--- a/src/rxn_network/thermo/chempot_diagram.py
+++ b/src/rxn_network/thermo/chempot_diagram.py
@@ -172,6 +172,22 @@ class ChemicalPotentialDiagram(ChempotDiagram):
 
         return {k: np.array(v) for k, v in domains.items() if v}
 
+    @staticmethod
+    def _get_min_entries_and_el_refs(entries):
+        """Returns the minimum-energy entry of each formula and the elemental references. The
+        formula is that of the entry's composition within the diagram (i.e., without the open
+        elements of a GrandPotPDEntry).
+        """
+        min_entries: dict[str, PDEntry] = {}
+        for e in entries:
+            formula = e.composition.reduced_formula
+            if formula not in min_entries or e.energy_per_atom < min_entries[formula].energy_per_atom:
+                min_entries[formula] = e
+
+        el_refs = {e.composition.elements[0]: e for e in min_entries.values() if e.composition.is_element}
+
+        return list(min_entries.values()), el_refs
+
     def _get_hyperplanes_and_entries(self) -> tuple[np.ndarray, list[PDEntry]]:
         """Returns both the array of hyperplanes, as well as a list of the minimum
         entries.
-- 
2.43.0


From 1db75c96f16745df7a5dfb95e1d395050fb6cd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 22/38] fix: forget the precursors and target of the old graph
 when a network is rebuilt

---
 src/rxn_network/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index a4e7ffa..ecfdd43 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -85,6 +85,8 @@ class ReactionNetwork(Network):
         logger.info(f"Built graph with {g.num_nodes()} nodes and {g.num_edges()} edges")
 
         self._g = g  # type: ignore
+        self._precursors = None
+        self._target = None
 
     def find_pathways(self, targets: list[Entry | str], k: int = 15) -> list[BasicPathway]:
         """Find the k-shortest paths to a provided list of one or more targets.
-- 
2.43.0


From b8f8267a183d0722b6a6244841117f204648b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 23/38] fix: rebuild the loopback edges of a network when its
 precursors change

---
 src/rxn_network/network/network.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index ecfdd43..be6368d 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -142,7 +142,7 @@ class ReactionNetwork(Network):
             raise ValueError("One or more precursors are not included in network!")
 
         precursors_entry = NetworkEntry(precursors, NetworkEntryType.Precursors)
-        if self.precursors:  # remove old precursors
+        if self.precursors is not None:  # remove old precursors
             for node in g.node_indices():
                 if g.get_node_data(node).description.value == NetworkEntryType.Precursors.value:
                     g.remove_node(node)
@@ -150,6 +150,11 @@ class ReactionNetwork(Network):
             else:
                 raise ValueError("Old precursors node not found in graph!")
 
+        # loopback edges depend on the precursors
+        for edge_idx, (_, _, obj) in dict(g.edge_index_map()).items():
+            if isinstance(obj, str) and obj == "loopback_edge":
+                g.remove_edge_from_index(edge_idx)
+
         precursors_node = g.add_node(precursors_entry)
 
         edges_to_add = []
@@ -164,9 +169,10 @@ class ReactionNetwork(Network):
                 for node2 in g.node_indices():
                     entry2 = g.get_node_data(node2)
                     if entry2.description.value == NetworkEntryType.Reactants.value:
-                        if precursors.issuperset(entry2.entries):
-                            continue
-                        if precursors.union(entry.entries).issuperset(entry2.entries):
+                        if entry.entries == entry2.entries or (
+                            not precursors.issuperset(entry2.entries)
+                            and precursors.union(entry.entries).issuperset(entry2.entries)
+                        ):
                             edges_to_add.append((node, node2, "loopback_edge"))
 
         g.add_edges_from(edges_to_add)
-- 
2.43.0


From eead91b29963764ba0d9c9da707a09b5ccff2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 24/38] fix: find the k shortest simple paths of a network

---
 src/rxn_network/network/network.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/rxn_network/network/network.py b/src/rxn_network/network/network.py
index be6368d..752161d 100644
--- a/src/rxn_network/network/network.py
+++ b/src/rxn_network/network/network.py
@@ -261,7 +261,7 @@ class ReactionNetwork(Network):
 
         for step, node in enumerate(path):
             if g.get_node_data(node).description.value == NetworkEntryType.Products.value:
-                e = g.get_edge_data(path[step - 1], node)
+                e = _get_cheapest_edge(g, path[step - 1], node, cf)
 
                 rxns.append(e)
                 costs.append(get_edge_weight(e, cf))
@@ -352,6 +352,13 @@ def get_edge_weight(edge_obj: object, cf: CostFunction):
     raise ValueError("Unknown edge type")
 
 
+def _get_cheapest_edge(g, source: int, target: int, cf: CostFunction):
+    """Returns the edge of lowest weight between two nodes (there may be several, e.g. reactions
+    of the same phases with different coefficients).
+    """
+    return min(g.get_all_edge_data(source, target), key=lambda e: get_edge_weight(e, cf))
+
+
 def yens_ksp(
     g: rx.PyGraph,
     cf: CostFunction,
@@ -383,7 +390,7 @@ def yens_ksp(
         """Calculates path cost given a list of nodes."""
         cost = 0
         for j in range(len(nodes) - 1):
-            cost += get_edge_weight(g.get_edge_data(nodes[j], nodes[j + 1]), cf)
+            cost += get_edge_weight(_get_cheapest_edge(g, nodes[j], nodes[j + 1], cf), cf)
         return cost
 
     def get_edge_weight_with_cf(edge_obj):
@@ -419,15 +426,13 @@ def yens_ksp(
 
             removed_edges = []
 
-            for path in a:
-                if len(path) - 1 > i and root_path == path[:i]:
-                    try:
-                        e = g.get_edge_data(path[i], path[i + 1])
-                    except rx.NoEdgeBetweenNodes:
-                        continue
-
-                    g.remove_edge(path[i], path[i + 1])
-                    removed_edges.append((path[i], path[i + 1], e))
+            # no path may leave the spur node like a known path or return to the root path
+            removed_nodes = set(root_path)
+            next_nodes = {path[i + 1] for path in a if len(path) - 1 > i and prev_path[: i + 1] == path[: i + 1]}
+            for edge_idx, (source, target, e) in dict(g.edge_index_map()).items():
+                if target in removed_nodes or (source == spur_node and target in next_nodes):
+                    g.remove_edge_from_index(edge_idx)
+                    removed_edges.append((source, target, e))
 
             spur_path = rx.dijkstra_shortest_paths(  # type: ignore
                 g, spur_node, target_node, weight_fn=get_edge_weight_with_cf
@@ -438,7 +443,7 @@ def yens_ksp(
             if spur_path:
                 total_path = list(root_path) + list(spur_path[target_node])
                 total_path_cost = path_cost(total_path)
-                b.put((total_path_cost, total_path))
+                b.put((total_path_cost, total_path))  # duplicates are skipped below
 
         while True:
             try:
-- 
2.43.0


From 00d0863b45792b6ffff4a44c957d201d956bd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 25/38] fix: restore the precursors of a network as a set and
 leave the given dictionary alone

---
 src/rxn_network/network/base.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/rxn_network/network/base.py b/src/rxn_network/network/base.py
index 75f8b4d..5ca1ac6 100644
--- a/src/rxn_network/network/base.py
+++ b/src/rxn_network/network/base.py
@@ -65,9 +65,9 @@ class Network(MSONable, metaclass=ABCMeta):
         information.
         """
         d = super().as_dict()
-        d["precursors"] = list(self.precursors) if self.precursors else None
+        d["precursors"] = list(self.precursors) if self.precursors is not None else None
         d["target"] = self.target
-        d["graph"] = self.graph.as_dict()
+        d["graph"] = self.graph.as_dict() if self.graph is not None else None
         return d
 
     @classmethod
@@ -75,12 +75,13 @@ class Network(MSONable, metaclass=ABCMeta):
         """Instantiate object from MSONable dict. See monty package for more
         information.
         """
-        precursors = d.pop("precursors", None)
-        target = d.pop("target", None)
+        d = d.copy()
+        precursors = MontyDecoder().process_decoded(d.pop("precursors", None))
+        target = MontyDecoder().process_decoded(d.pop("target", None))
         graph = d.pop("graph", None)
 
         network = super().from_dict(d)
-        network._precursors = precursors  # pylint: disable=protected-access
+        network._precursors = set(precursors) if precursors is not None else None  # pylint: disable=protected-access
         network._target = target  # pylint: disable=protected-access
         network._g = MontyDecoder().process_decoded(  # pylint: disable=protected-access
             graph
-- 
2.43.0


From 0ee33a93544f453cac1bb5be1e0b52e1c3f869fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 26/38] fix: do not compare a pathway equal to its own
 beginning

---
 src/rxn_network/pathways/basic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/basic.py b/src/rxn_network/pathways/basic.py
index 42ecf05..2930e8c 100644
--- a/src/rxn_network/pathways/basic.py
+++ b/src/rxn_network/pathways/basic.py
@@ -54,7 +54,9 @@ class BasicPathway(Pathway):
 
     def __eq__(self, other) -> bool:
         if isinstance(other, self.__class__):
-            return all(other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False))
+            return len(other.reactions) == len(self.reactions) and all(
+                other_rxn == rxn for other_rxn, rxn in zip(other.reactions, self.reactions, strict=False)
+            )
 
         return False
 
-- 
2.43.0


From ff1f665228c055d798c8d9b059d62a2abd682ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 27/38] fix: give equal balanced pathways equal hashes

---
 src/rxn_network/pathways/balanced.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/pathways/balanced.py b/src/rxn_network/pathways/balanced.py
index bfe64d4..4ccc64a 100644
--- a/src/rxn_network/pathways/balanced.py
+++ b/src/rxn_network/pathways/balanced.py
@@ -130,12 +130,15 @@ class BalancedPathway(BasicPathway):
 
     def __eq__(self, other) -> bool:
         if super().__eq__(other):
-            return np.allclose(self.costs, other.costs)
+            return all(
+                len(a) == len(b) and np.allclose(a, b)
+                for a, b in [(self.costs, other.costs), (self.coefficients, other.coefficients)]
+            )
 
         return False
 
     def __hash__(self):
-        return hash((tuple(self.reactions), tuple(self.coefficients)))
+        return hash(tuple(self.reactions))
 
     def __repr__(self) -> str:
         path_info = ""
-- 
2.43.0


From 7b3f79ea44bd88abb030cd0642c9959b49a3452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 28/38] fix: keep the balanced flag of the pathways of a
 pathway set

---
 src/rxn_network/pathways/pathway_set.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/pathways/pathway_set.py b/src/rxn_network/pathways/pathway_set.py
index d4e87d6..9787784 100644
--- a/src/rxn_network/pathways/pathway_set.py
+++ b/src/rxn_network/pathways/pathway_set.py
@@ -34,6 +34,7 @@ class PathwaySet(MSONable):
         indices: np.ndarray | list[list[int]],
         coefficients: np.ndarray | list[list[float] | None],
         costs: np.ndarray | list[list[float]],
+        balanced: list[bool] | None = None,
     ):
         """
         Args:
@@ -43,11 +44,14 @@ class PathwaySet(MSONable):
             coefficients: An array or list of coefficients representing the
             multiplicities (i.e., how much of) each reaction in the pathway.
             costs: An array or list of costs for each pathway.
+            balanced: Optional list of whether each pathway is balanced. Defaults to
+                False for all pathways.
         """
         self.reaction_set = reaction_set
         self.indices = indices
         self.coefficients = coefficients
         self.costs = costs
+        self.balanced = balanced
 
     @cached_property
     def paths(self) -> list[Pathway]:
@@ -64,14 +68,18 @@ class PathwaySet(MSONable):
 
         rxns = list(self.reaction_set.get_rxns())
 
-        for indices, coefficients, costs in zip(
+        for indices, coefficients, costs, balanced in zip(
             self.indices,
             self.coefficients,
-            self.costs, strict=False,
+            self.costs,
+            self.balanced or [False] * len(self.indices),
+            strict=False,
         ):
             reactions = [rxns[i] for i in indices]
             if coefficients is not None:
-                path = BalancedPathway(reactions=reactions, coefficients=coefficients, costs=costs)
+                path = BalancedPathway(
+                    reactions=reactions, coefficients=coefficients, costs=costs, balanced=balanced
+                )
 
             else:
                 path = BasicPathway(reactions=reactions, costs=costs)
@@ -90,7 +98,7 @@ class PathwaySet(MSONable):
         Args:
             paths: List of Pathway objects
         """
-        indices, coefficients, costs = [], [], []
+        indices, coefficients, costs, balanced = [], [], [], []
 
         reaction_set = cls._get_reaction_set(paths)
         rxns = list(reaction_set.get_rxns())
@@ -99,12 +107,14 @@ class PathwaySet(MSONable):
             indices.append([rxns.index(r) for r in path.reactions])
             coefficients.append(getattr(path, "coefficients", None))
             costs.append(path.costs)
+            balanced.append(getattr(path, "balanced", False))
 
         return cls(
             reaction_set=reaction_set,
             indices=indices,
             coefficients=coefficients,
             costs=costs,
+            balanced=balanced,
         )
 
     @staticmethod
-- 
2.43.0


From a9b4ec16b14e9d2fc6b4fbef63011f169fa83492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 29/38] fix: solve pathways on a single CPU

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 4fae0d4..ccb267e 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -206,7 +206,7 @@ class PathwaySolver(Solver):
 
         num_rxns = len(cleaned_reactions)
         num_cpus = ray.cluster_resources()["CPU"]
-        batch_size = self.batch_size or num_cpus - 1
+        batch_size = self.batch_size or max(num_cpus - 1, 1)
 
         net_coeff_filter = np.argwhere(net_rxn_vector != 0).flatten()
         net_coeff_filter = ray.put(net_coeff_filter)
-- 
2.43.0


From f7009f81045bb5df2fa0fa60fa664c07eb335ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 30/38] fix: solve pathways with fewer candidate reactions than
 the size limit

---
 src/rxn_network/pathways/solver.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index ccb267e..317c5b2 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -198,9 +198,11 @@ class PathwaySolver(Solver):
                     costs.append(c)
 
         clean_r_set = ReactionSet.from_rxns(reactions, filter_duplicates=True)
-        cleaned_reactions, cleaned_costs = zip(
-            *[(r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn], strict=False
-        )
+        cleaned = [
+            (r, c) for r, c in zip(reactions, costs, strict=False) if r in clean_r_set and r != net_rxn
+        ]
+        cleaned_reactions = [r for r, _ in cleaned]
+        cleaned_costs = [c for _, c in cleaned]
 
         net_rxn_vector = net_rxn.get_entry_idx_vector(num_entries)
 
@@ -232,6 +234,10 @@ class PathwaySolver(Solver):
                     pbar.update(1)
                     comp_matrices[n].append(comp_matrices_ref)
 
+                if not comp_matrices[n]:  # fewer than n reactions
+                    del comp_matrices[n]
+                    continue
+
                 comp_matrices[n] = np.concatenate(comp_matrices[n])
 
                 if not comp_matrices[n].any():  # type: ignore
@@ -291,9 +297,8 @@ class PathwaySolver(Solver):
         ):
             c_m_mats.append(c_m_mats_ref)  # noqa: PERF402
 
-        c_mats, m_mats = zip(*c_m_mats, strict=False)
-        c_mats = [mat for mats in c_mats for mat in mats if mat is not None]  # type: ignore
-        m_mats = [mat for mats in m_mats for mat in mats if mat is not None]  # type: ignore
+        c_mats = [mat for mats, _ in c_m_mats for mat in mats if mat is not None]  # type: ignore
+        m_mats = [mat for _, mats in c_m_mats for mat in mats if mat is not None]  # type: ignore
 
         paths = []
         for c_mat, m_mat in zip(c_mats, m_mats, strict=False):
-- 
2.43.0


From e8ed562343ea2eba3f2729c230ceb912dcda0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:09 +0000
Subject: [PATCH 31/38] fix: use the intermediate reactions of the grand
 potential enumerator in PathwaySolver

---
 src/rxn_network/pathways/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/pathways/solver.py b/src/rxn_network/pathways/solver.py
index 317c5b2..b569f1e 100644
--- a/src/rxn_network/pathways/solver.py
+++ b/src/rxn_network/pathways/solver.py
@@ -396,7 +396,7 @@ class PathwaySolver(Solver):
                     mu=self.chempot,
                     targets=target_formulas,
                 )
-                rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
+                rxn_set = rxn_set.add_rxn_set(mgpe.enumerate(intermediates))
 
         rxns = list(filter(lambda x: x.energy_per_atom < energy_cutoff, rxn_set))
         rxns = [r for r in rxns if all(e in intermediates for e in r.entries)]
-- 
2.43.0


From d3840680d9a8278b88a9ce05e44215e9f80e8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 32/38] fix: score open reactions of a single precursor against
 all competing reactions

---
 src/rxn_network/jobs/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 093f27a..6c8c8be 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -745,11 +745,11 @@ def _get_competition_decorated_rxns_by_chunk(rxn_chunk, all_rxns, open_formula):
 
         competing_rxns = all_rxns.get_rxns_by_reactants(reactants_with_open)
 
+        if open_formula and len(reactant_formulas) > 1:
+            reactant_formulas = [f for f in reactant_formulas if f != open_formula]
+
         if len(reactant_formulas) >= 3:
-            if open_formula:
-                reactant_formulas = list(set(reactant_formulas) - {open_formula})
-            else:
-                raise ValueError("Can only have 2 precursors, excluding open element!")
+            raise ValueError("Can only have 2 precursors, excluding open element!")
 
         decorated_rxns.append(_get_competition_decorated_rxn(rxn, competing_rxns, reactant_formulas))
 
-- 
2.43.0


From 43c6577de4fbad4f16b8cb45e53ccd753e0c2ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 33/38] fix: keep competing reactions that consume the open
 phase

---
 src/rxn_network/jobs/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 6c8c8be..9a82c91 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -361,6 +361,9 @@ class CalculateCompetitionMaker(Maker):
         logger.info("Removing unnecessary reactions from total reactions to save memory...")
 
         all_target_reactants = {reactant.reduced_formula for r in target_rxns for reactant in r.reactants}
+        if self.open_formula:
+            all_target_reactants.add(self.open_formula)
+
         all_rxns = all_rxns.get_rxns_by_reactants(
             all_target_reactants,
             return_set=True,  # type: ignore
-- 
2.43.0


From b7867c5ca0dc92eadfd059417b1c3e89bf33e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 34/38] fix: compute chemical potential distances in the
 chemical system of each reaction

---
 src/rxn_network/jobs/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/jobs/core.py b/src/rxn_network/jobs/core.py
index 9a82c91..a083ada 100644
--- a/src/rxn_network/jobs/core.py
+++ b/src/rxn_network/jobs/core.py
@@ -775,7 +775,7 @@ def _get_chempot_decorated_rxns_by_chunk(rxn_chunk, entries, cpd_kwargs, open_el
         elems = chemsys.split("-")
 
         for c, cpd_calculator in cpd_calc_dict.items():
-            if set(c.split("-")).issuperset(elems):
+            if c == chemsys:  # distances differ in a larger system
                 cpd_calc = cpd_calculator
                 break
         else:
-- 
2.43.0


From 24ac8a7e2bd9540d9e2b12116ff7d287ef85bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:48 +0000
Subject: [PATCH 35/38] fix: leave the added endpoint reactions out of a
 serialized reaction hull

---
 src/rxn_network/reactions/hull.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rxn_network/reactions/hull.py b/src/rxn_network/reactions/hull.py
index 3298ebf..9a5e543 100644
--- a/src/rxn_network/reactions/hull.py
+++ b/src/rxn_network/reactions/hull.py
@@ -74,6 +74,12 @@ class InterfaceReactionHull(MSONable):
         self.hull = ConvexHull(self.coords)
         self.endpoint_reactions = endpoint_reactions
 
+    def as_dict(self) -> dict:
+        """Returns an MSONable dict, without the endpoint reactions added at initialization."""
+        d = super().as_dict()
+        d["reactions"] = [r.as_dict() for r in self.reactions if r not in self.endpoint_reactions]
+        return d
+
     def plot(self, y_max: float = 0.2) -> Figure:
         """Plot the reaction hull."""
         pts = self._get_scatter()
-- 
2.43.0


From 305eb8e9ba3d6751d4d97e1eb21bf4c1ecb896c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:45 +0000
Subject: [PATCH 36/38] fix: do not modify the dictionary an open reaction is
 read from

---
 src/rxn_network/reactions/open.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/open.py b/src/rxn_network/reactions/open.py
index 4e11167..a97f51c 100644
--- a/src/rxn_network/reactions/open.py
+++ b/src/rxn_network/reactions/open.py
@@ -243,8 +243,8 @@ class OpenComputedReaction(ComputedReaction):
     @classmethod
     def from_dict(cls, d) -> OpenComputedReaction:
         """Returns an OpenComputedReaction object from a dictionary representation."""
-        d["chempots"] = {Element(symbol): u for symbol, u in d["chempots"].items()}
-        return super().from_dict(d)
+        chempots = {Element(symbol): u for symbol, u in d["chempots"].items()}
+        return super().from_dict({**d, "chempots": chempots})
 
     def __repr__(self) -> str:
         cp = f"({','.join([f'mu_{e}={m}' for e, m in self.chempots.items()])})"
-- 
2.43.0


From 0aaf03bddc011274ef15753a379e84072307f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:09 +0000
Subject: [PATCH 37/38] fix: keep the reactions of a reaction set created
 without data

---
 src/rxn_network/reactions/reaction_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rxn_network/reactions/reaction_set.py b/src/rxn_network/reactions/reaction_set.py
index 2fcb80d..92a0731 100644
--- a/src/rxn_network/reactions/reaction_set.py
+++ b/src/rxn_network/reactions/reaction_set.py
@@ -66,7 +66,7 @@ class ReactionSet(MSONable):
         self.open_elem = open_elem
         self.chempot = chempot
         if all_data is None:
-            self.all_data = {int(i): np.array([]) for i in self.indices}
+            self.all_data = {int(size): np.array([{} for _ in rows]) for size, rows in self.indices.items()}
         else:
             self.all_data = all_data
 
-- 
2.43.0


From b974ae4b00c177407c587cdcb247fa376af96895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:57 +0000
Subject: [PATCH 38/38] fix: is_separable treats by-products with an open
 element like any other

---
 src/rxn_network/reactions/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rxn_network/reactions/basic.py b/src/rxn_network/reactions/basic.py
index 9aeb7f6..9af7505 100644
--- a/src/rxn_network/reactions/basic.py
+++ b/src/rxn_network/reactions/basic.py
@@ -208,7 +208,7 @@ class BasicReaction(Reaction):
         if len(identified_targets) == 0:
             raise ValueError(f"Target composition {target} not in reaction {self}")
 
-        added_elems = set(self.elements) - set(target.elements)
+        target_elems = set(target.elements)
         products = set(deepcopy(self.products))
 
         for t in identified_targets:
@@ -216,7 +216,7 @@ class BasicReaction(Reaction):
 
         are_separable = []
         for comp in products:
-            if comp.reduced_formula in COMMON_GASES or added_elems.issuperset(comp.elements):
+            if comp.reduced_formula in COMMON_GASES or target_elems.isdisjoint(comp.elements):
                 are_separable.append(True)
             else:
                 are_separable.append(False)
-- 
2.43.0

