From fccdd2c133e3260db69b24c11af93a7c8089c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 01/38] fix: HPKOT conventional-to-primitive matrix of hR has
 thirds, not halves

---
 src/wulfric/constants/_hpkot_convention.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/constants/_hpkot_convention.py b/src/wulfric/constants/_hpkot_convention.py
index a4a31c9..6c70513 100644
--- a/src/wulfric/constants/_hpkot_convention.py
+++ b/src/wulfric/constants/_hpkot_convention.py
@@ -111,9 +111,9 @@ HPKOT_CONVENTIONAL_TO_PRIMITIVE = {
     ),
     "hR": np.array(
         [
-            [1.0, -0.5, -0.5],
-            [0.5, 0.5, -1.0],
-            [0.5, 0.5, 0.5],
+            [2.0 / 3.0, -1.0 / 3.0, -1.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, -2.0 / 3.0],
+            [1.0 / 3.0, 1.0 / 3.0, 1.0 / 3.0],
         ]
     ),
     "mP": np.array(
-- 
2.43.0


From 2b1c91accb77d27cfc5f9a3ca782f9dc7b5a8c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 02/38] fix: SC conventional cell of orthorhombic crystals with
 equal lattice parameters

---
 src/wulfric/crystal/_conventional.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 4dbc7b1..fad5695 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -152,9 +152,9 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
 
     a, b, c, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b < c:  # No change
+    if a <= b <= c:  # No change
         matrix = np.eye(3, dtype=float)
-    elif a < c < b:  # -> -a1, -a3, -a2
+    elif a <= c <= b:  # -> -a1, -a3, -a2
         matrix = np.array(
             [
                 [-1, 0, 0],
@@ -163,7 +163,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < a < c:  # -> -a2, -a1, -a3
+    elif b <= a <= c:  # -> -a2, -a1, -a3
         matrix = np.array(
             [
                 [0, -1, 0],
@@ -172,7 +172,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif b < c < a:  # -> a2, a3, a1
+    elif b <= c <= a:  # -> a2, a3, a1
         matrix = np.array(
             [
                 [0, 0, 1],
@@ -181,7 +181,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < a < b:  # -> a3, a1, a2
+    elif c <= a <= b:  # -> a3, a1, a2
         matrix = np.array(
             [
                 [0, 1, 0],
@@ -190,7 +190,7 @@ def _sc_get_conventional_oPFI(spglib_std_lattice):
             ],
             dtype=float,
         )
-    elif c < b < a:  # -> -a3, -a2, -a1
+    elif c <= b <= a:  # -> -a3, -a2, -a1
         matrix = np.array(
             [
                 [0, 0, -1],
@@ -229,7 +229,7 @@ def _sc_get_conventional_oC(spglib_std_lattice):
 
     a, b, _, _, _, _ = get_params(cell=spglib_std_lattice)
 
-    if a < b:  # No change
+    if a <= b:  # No change
         matrix = np.eye(3, dtype=float)
     # Have to keep a3 in place
     elif b < a:  # -> a2, -a1, a3
-- 
2.43.0


From 10747da93d034a24e7c4569e63f01b1489274769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 03/38] fix: get_primitive populates atoms from the last atom
 of each type, as documented

---
 src/wulfric/crystal/_primitive.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index add4bfa..2351e3b 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -288,10 +288,9 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
     prim_atoms = dict(positions=prim_positions)
 
     # Get mapping from original atoms to primitive ones through types
-    types_mapping = {}
-    for index, type_index in enumerate(spglib_data.original_types):
-        if type_index not in types_mapping:
-            types_mapping[type_index] = index
+    types_mapping = {
+        type_index: index for index, type_index in enumerate(spglib_data.original_types)
+    }
 
     # Populate primitive_atoms with all keys that have been defined in the original atoms.
     for key in atoms:
-- 
2.43.0


From d5b041ea67e15433437219ff46ceab5dde1b6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 04/38] fix: spglib types of standardised crystals are lists of
 int, accepted as input again

---
 src/wulfric/_spglib_interface.py  | 4 ++--
 src/wulfric/crystal/_primitive.py | 5 ++++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index 8aaed38..dec6452 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -124,7 +124,7 @@ class SpglibData:
                 "conventional_positions",
                 np.array(dataset.std_positions, dtype=float),
             )
-            object.__setattr__(self, "conventional_types", dataset.std_types)
+            object.__setattr__(self, "conventional_types", dataset.std_types.tolist())
 
             primitive_cell, primitive_positions, primitive_types = (
                 spglib.find_primitive(
@@ -141,7 +141,7 @@ class SpglibData:
             object.__setattr__(
                 self, "primitive_positions", np.array(primitive_positions, dtype=float)
             )
-            object.__setattr__(self, "primitive_types", primitive_types)
+            object.__setattr__(self, "primitive_types", primitive_types.tolist())
 
         except Exception as e:
             _raise_with_message(
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 2351e3b..3dd0fb5 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -129,7 +129,10 @@ def _get_unique(
         else:
             break
 
-    return non_unique_positions[unique_atoms], non_unique_types[unique_atoms]
+    return (
+        non_unique_positions[unique_atoms],
+        non_unique_types[unique_atoms].tolist(),
+    )
 
 
 def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
-- 
2.43.0


From 8842dd5449cd3558e6dfad7b37d9cb2012b579d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 05/38] fix: standardised cell and atoms do not share memory
 with spglib_data

---
 src/wulfric/crystal/_conventional.py | 6 ++++--
 src/wulfric/crystal/_primitive.py    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index fad5695..22adae8 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -795,8 +795,10 @@ def get_conventional(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
-    # Create conventional atoms
-    conv_atoms = dict(positions=conv_positions)
+    # Create conventional atoms. Never share data with spglib_data.
+    conv_cell = np.array(conv_cell, dtype=float)
+    conv_types = list(conv_types)
+    conv_atoms = dict(positions=np.array(conv_positions, dtype=float))
 
     # Get mapping from original atoms to conventional ones through types
     types_mapping = {
diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 3dd0fb5..ad8ea25 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -287,8 +287,10 @@ def get_primitive(cell, atoms, convention="HPKOT", spglib_data=None):
             convention, supported_conventions=["HPKOT", "SC", "spglib"]
         )
 
-    # Create primitive atoms
-    prim_atoms = dict(positions=prim_positions)
+    # Create primitive atoms. Never share data with spglib_data.
+    prim_cell = np.array(prim_cell, dtype=float)
+    prim_types = list(prim_types)
+    prim_atoms = dict(positions=np.array(prim_positions, dtype=float))
 
     # Get mapping from original atoms to primitive ones through types
     types_mapping = {
-- 
2.43.0


From b477d7ed5575a96c4ab5c8f5fb62e042101ca36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 06/38] fix: Z point of aP2 is (0, 0, 1/2), not GAMMA

---
 src/wulfric/kpoints/_hpkot_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/kpoints/_hpkot_points.py b/src/wulfric/kpoints/_hpkot_points.py
index e69e8d6..ee1141d 100644
--- a/src/wulfric/kpoints/_hpkot_points.py
+++ b/src/wulfric/kpoints/_hpkot_points.py
@@ -454,7 +454,7 @@ def _get_points_table_90(a, b, c, beta):
 def _get_points_table_91():
     return {
         "GAMMA": np.array([0.0, 0.0, 0.0]),
-        "Z": np.array([0.0, 0.0, 0.0]),
+        "Z": np.array([0.0, 0.0, 1 / 2]),
         "Y": np.array([0, 1 / 2, 0.0]),
         "X": np.array([1 / 2, 0.0, 0.0]),
         "V": np.array([1 / 2, 1 / 2, 0.0]),
-- 
2.43.0


From 81c8590df0b618899f83ba95e4e37163a6f43b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 07/38] fix: plot label of F3 and F3_P is F_3, not F_4

---
 src/wulfric/constants/_kpoints.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_kpoints.py b/src/wulfric/constants/_kpoints.py
index 33c9410..35495ae 100644
--- a/src/wulfric/constants/_kpoints.py
+++ b/src/wulfric/constants/_kpoints.py
@@ -74,8 +74,8 @@ HS_PLOT_NAMES = {
     "F1_P": "F$_1^{\prime}$",
     "F2": "F$_2$",
     "F2_P": "F$_2^{\prime}$",
-    "F3": "F$_4$",
-    "F3_P": "F$_4^{\prime}$",
+    "F3": "F$_3$",
+    "F3_P": "F$_3^{\prime}$",
     "F4": "F$_4$",
     "F4_P": "F$_4^{\prime}$",
     "G": "G",
-- 
2.43.0


From b892869b6faf66c0c2f7ef38a5a03ed6f781d9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 08/38] fix: colors of Pd and Er are valid hex colors

---
 src/wulfric/constants/_atoms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/constants/_atoms.py b/src/wulfric/constants/_atoms.py
index 11ecbc9..0f9ac15 100644
--- a/src/wulfric/constants/_atoms.py
+++ b/src/wulfric/constants/_atoms.py
@@ -316,7 +316,7 @@ ATOM_COLORS = {
     "Tc": "#3B9E9E",
     "Ru": "#248F8F",
     "Rh": "#0A7D8C",
-    "Pd": "#6985",
+    "Pd": "#006985",
     "Ag": "#C0C0C0",
     "Cd": "#FFD98F",
     "In": "#A67573",
@@ -338,7 +338,7 @@ ATOM_COLORS = {
     "Tb": "#30FFC7",
     "Dy": "#1FFFC7",
     "Ho": "#00FF9C",
-    "Er": "#",
+    "Er": "#00E675",
     "Tm": "#00D452",
     "Yb": "#00BF38",
     "Lu": "#00AB24",
-- 
2.43.0


From 8fbf716d4ab629921fe2d605d86bc814bdb25974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 09/38] fix: Kpoints does not share the list of names with the
 caller

---
 src/wulfric/_kpoints_class.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index a0ae811..b45b028 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -114,7 +114,7 @@ class Kpoints:
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
         )
         self.hs_labels = dict([(names[i], labels[i]) for i in range(len(coordinates))])
-        self.hs_names = names
+        self.hs_names = list(names)
 
         self._n = n
 
-- 
2.43.0


From 39536875e2ab8be3187ebf261a7f6a792d289acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:18 +0000
Subject: [PATCH 10/38] fix: Kpoints with less than two high-symmetry points
 have an empty path

---
 src/wulfric/_kpoints_class.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index b45b028..18d562d 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -120,7 +120,8 @@ class Kpoints:
 
         self._path = None
         if path is None:
-            path = "-".join(self.hs_names)
+            # There is no path through less than two points
+            path = "-".join(self.hs_names) if len(self.hs_names) > 1 else []
         self.path = path
 
     @staticmethod
@@ -479,6 +480,8 @@ class Kpoints:
                     points = new_points
                 else:
                     points = np.concatenate((points, new_points))
+        if points is None:
+            points = np.empty((0, 3), dtype=float)
         return points
 
     # It can not just call for points and flatten them,
@@ -525,6 +528,8 @@ class Kpoints:
                 else:
                     delta += flat_points[-1]
                     flat_points = np.concatenate((flat_points, delta))
+        if flat_points is None:
+            flat_points = np.empty(0, dtype=float)
         return flat_points
 
     ################################################################################
@@ -571,7 +576,7 @@ class Kpoints:
         """
 
         d = decimals
-        nd = max([len(name) for name in self.hs_names])
+        nd = max([len(name) for name in self.hs_names], default=4)
         table = [
             (
                 f"{'Name':<{nd}}  "
-- 
2.43.0


From 907f270e31b9d77a93aa82e0876c501eaca44c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 11/38] fix: get_transformation_matrix accepts any array-like
 cells

---
 src/wulfric/cell/_basic_manipulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_basic_manipulation.py b/src/wulfric/cell/_basic_manipulation.py
index c566a59..7e2d71d 100644
--- a/src/wulfric/cell/_basic_manipulation.py
+++ b/src/wulfric/cell/_basic_manipulation.py
@@ -293,4 +293,4 @@ def get_transformation_matrix(original_cell, transformed_cell):
     :ref:`user-guide_conventions_basic-notation_transformation`
     """
 
-    return np.linalg.inv(original_cell).T @ transformed_cell.T
+    return np.linalg.inv(original_cell).T @ np.transpose(transformed_cell)
-- 
2.43.0


From 2b828b1bdf0896518d2cfa48fce0ced76bc50888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 12/38] fix: Niggli reduction (wulfric) compares each component
 of the metric tensor with tolerance

---
 src/wulfric/cell/_niggli.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index ab5356a..b5911a3 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -32,6 +32,14 @@ except ImportError:
 __all__ = ["get_niggli"]
 
 
+def _product_is_positive(xi, eta, zeta, eps):
+    # Sign of xi * eta * zeta. Each factor is compared with zero on its own, as eps is
+    # a tolerance for the components of the metric tensor, not for their product.
+    if any(compare_with_tolerance(x, "==", 0, eps=eps) for x in (xi, eta, zeta)):
+        return False
+    return (xi < 0) ^ (eta < 0) ^ (zeta > 0)
+
+
 def _niggli_step_1(A, B, C, xi, eta, zeta, trans_matrix, eps):
     condition = compare_with_tolerance(A, ">", B, eps=eps) or (
         compare_with_tolerance(A, "==", B, eps=eps)
@@ -73,7 +81,7 @@ def _niggli_step_2(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, ">", 0, eps=eps)
+    condition = _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = 1
@@ -105,28 +113,28 @@ def _niggli_step_3(A, B, C, xi, eta, zeta, trans_matrix, eps):
 
 
 def _niggli_step_4(A, B, C, xi, eta, zeta, trans_matrix, eps):
-    condition = compare_with_tolerance(xi * eta * zeta, "<=", 0, eps=eps)
+    condition = not _product_is_positive(xi, eta, zeta, eps=eps)
     if condition:
         # Step 1
         i, j, k = 1, 1, 1
         p = None
 
         # Step 2
-        if compare_with_tolerance(xi, ">", 0):
+        if compare_with_tolerance(xi, ">", 0, eps=eps):
             i = -1
-        elif not compare_with_tolerance(xi, "<", 0):
+        elif not compare_with_tolerance(xi, "<", 0, eps=eps):
             p = "i"
 
         # Step 3
-        if compare_with_tolerance(eta, ">", 0):
+        if compare_with_tolerance(eta, ">", 0, eps=eps):
             j = -1
-        elif not compare_with_tolerance(eta, "<", 0):
+        elif not compare_with_tolerance(eta, "<", 0, eps=eps):
             p = "j"
 
         # Step 4
-        if compare_with_tolerance(zeta, ">", 0):
+        if compare_with_tolerance(zeta, ">", 0, eps=eps):
             k = -1
-        elif not compare_with_tolerance(zeta, "<", 0):
+        elif not compare_with_tolerance(zeta, "<", 0, eps=eps):
             p = "k"
 
         # Step 5
-- 
2.43.0


From 944f91b2aefa9a4bd409f63f193435498349cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 13/38] fix: get_niggli scales the tolerance and rejects zero
 volume for both implementations

---
 src/wulfric/cell/_niggli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index b5911a3..c468a6d 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -365,7 +365,6 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
             raise ImportError(
                 "spglib is not installed. Please install it with `pip install spglib`"
             )
-        return spglib.niggli_reduce(lattice=cell, eps=eps_relative)
     elif implementation != "wulfric":
         raise ValueError(
             f"Implementation {implementation} is not supported. "
@@ -378,6 +377,9 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
 
     eps = eps_relative * volume ** (1 / 3.0)
 
+    if implementation == "spglib":
+        return spglib.niggli_reduce(lattice=cell, eps=eps)
+
     # 0
     metric_tensor = np.matmul(cell, np.transpose(cell))
 
-- 
2.43.0


From de1c21b4969078482c3ea08d1861e2997cf07e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 14/38] fix: compare periodic images of atoms when looking for
 the unique ones

---
 src/wulfric/crystal/_primitive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index ad8ea25..4dcf3a7 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -77,11 +77,12 @@ def _get_unique(
     # Done twice it fixes some problems of finite precision arithmetics
     non_unique_positions = non_unique_positions % 1
 
-    # Compute pair-wise distances between atoms
-    distances = np.linalg.norm(
-        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :],
-        axis=2,
+    # Compute pair-wise distances between the closest images of the atoms, as 0 and
+    # 1 - epsilon are close to each other in the periodic crystal
+    differences = (
+        non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
+    distances = np.linalg.norm(differences - np.round(differences), axis=2)
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From 384813e32b34c6f69a496bb766520ea43a5fdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:59 +0000
Subject: [PATCH 15/38] fix: cure_negative works for one atom with the position
 given as a list

---
 src/wulfric/crystal/_basic_manipulation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index fec00e4..65ff5f7 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -128,9 +128,7 @@ def cure_negative(atoms) -> None:
         Cr2 [0.6 0.5 0. ]
     """
 
-    min_values = atoms["positions"][0]
-    for position in atoms["positions"][1:]:
-        min_values = np.minimum(min_values, position)
+    min_values = np.min(atoms["positions"], axis=0)
 
     shift = np.where(min_values < 0, -min_values, 0)
 
-- 
2.43.0


From 8430b05a3cbf533723b904bffc0245a5b0a5545e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 16/38] fix: get_unique_names returns unique names when indexed
 names coincide with other names

---
 src/wulfric/crystal/_atoms.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wulfric/crystal/_atoms.py b/src/wulfric/crystal/_atoms.py
index 9abdc4c..b869293 100644
--- a/src/wulfric/crystal/_atoms.py
+++ b/src/wulfric/crystal/_atoms.py
@@ -254,6 +254,14 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
     if names_are_not_unique and strategy == "all":
         unique_names = [f"{name}{i + 1}" for i, name in enumerate(atoms["names"])]
 
+        # Names that end with digits can coincide after indices of different length are
+        # added ("A1" + "1" and "A" + "11"), indices of the same length are safe.
+        if len(unique_names) != len(set(unique_names)):
+            width = len(str(len(unique_names)))
+            unique_names = [
+                f"{name}{i + 1:0{width}}" for i, name in enumerate(atoms["names"])
+            ]
+
     if names_are_not_unique and strategy == "repeated-only":
         counter = {}
         for name in unique_names:
@@ -262,11 +270,17 @@ def get_unique_names(atoms, strategy: str = "all") -> list:
             else:
                 counter[name][1] += 1
 
+        # Names that are already in use
+        used_names = {name for name in counter if counter[name][1] == 1}
+
         for i in range(len(unique_names)):
             name = unique_names[i]
             total = counter[name][1]
             if total > 1:
+                while f"{name}{counter[name][0]}" in used_names:
+                    counter[name][0] += 1
                 unique_names[i] += str(counter[name][0])
+                used_names.add(unique_names[i])
                 counter[name][0] += 1
 
     return unique_names
-- 
2.43.0


From f5a03e74c0f8aec64daf7ddaa5a4ed31605fe012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 17/38] fix: negative POSCAR scale factor gives the volume of
 the cell

The vectors were multiplied by the ratio of the volumes instead of its
cube root.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 281d652..7e2a83c 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -100,7 +100,7 @@ def load_poscar(file_object=None):
     cell = np.array(list(map(lambda x: list(map(float, x.split())), lines[2:5])))
     if len(scale_factor) == 1:
         if scale_factor[0] < 0:
-            scale_factor = abs(scale_factor[0] / get_volume(cell))
+            scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
         cell[0] *= scale_factor[0]
-- 
2.43.0


From fdc3e45a32bc08945fa0c37fbe6ed3ec7a700ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 18/38] fix: three POSCAR scale factors act on x, y and z
 components

They multiplied the three vectors instead of the three Cartesian
components, at odds with the Cartesian coordinates of atoms.
---
 src/wulfric/io/_vasp.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 7e2a83c..4005b55 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -103,9 +103,8 @@ def load_poscar(file_object=None):
             scale_factor = abs(scale_factor[0] / get_volume(cell)) ** (1 / 3)
         cell *= scale_factor
     elif len(scale_factor) == 3 and np.all(scale_factor > 0):
-        cell[0] *= scale_factor[0]
-        cell[1] *= scale_factor[1]
-        cell[2] *= scale_factor[2]
+        # Scale x, y and z components of every vector
+        cell *= scale_factor
     else:
         raise ValueError(
             "Scale factor has to be a single positive ot negative number or "
-- 
2.43.0


From a094756331abafc6208467279ac79dd89c18b39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 19/38] fix: load_poscar() finds the POSCAR file in a given
 directory

---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index 4005b55..af74de7 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -81,7 +81,7 @@ def load_poscar(file_object=None):
     elif isinstance(file_object, str):
         try:
             file_object = open(file_object, "r", encoding="utf-8")
-        except FileNotFoundError:
+        except (FileNotFoundError, IsADirectoryError):
             try:
                 file_object = open(
                     os.path.join(file_object, "POSCAR"), "r", encoding="utf-8"
-- 
2.43.0


From a4c982105a9e0c1b99ddc282b0ae931a2a3902c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 20/38] fix: dump_poscar() raises ValueError for names without
 species

It failed with KeyError while preparing the message.
---
 src/wulfric/io/_vasp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index af74de7..cf26416 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -234,7 +234,7 @@ def dump_poscar(
             atom_type = get_atom_species(atoms["names"][i])
             if atom_type == "X":
                 raise ValueError(
-                    f"Can not deduce atom's type from the name '{atoms['name'][i]}', while dumping to POSCAR."
+                    f"Can not deduce atom's type from the name '{atoms['names'][i]}', while dumping to POSCAR."
                 )
         if mode == "Direct":
             atom_position = atoms["positions"][i]
-- 
2.43.0


From 375631458198b0da782e2ddc5b264630f0390b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:32 +0000
Subject: [PATCH 21/38] fix: carriage returns in the comment do not break the
 POSCAR file

---
 src/wulfric/io/_vasp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/io/_vasp.py b/src/wulfric/io/_vasp.py
index cf26416..9019731 100644
--- a/src/wulfric/io/_vasp.py
+++ b/src/wulfric/io/_vasp.py
@@ -219,7 +219,9 @@ def dump_poscar(
             f"at {cd.hour}:{cd.minute}:{cd.second}"
         )
     else:
-        comment = comment.replace("\n", " ")
+        comment = (
+            comment.replace("\r\n", " ").replace("\n", " ").replace("\r", " ")
+        )
 
     # Check mode
     if mode not in ("Direct", "Cartesian"):
-- 
2.43.0


From 76fb2976f6dbbb4c0c1f7f7a95ac197d606decb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 22/38] fix: validate_spglib_data accepts the same types in a
 list and in a tuple

Types are compared element by element, as cell and positions are.
---
 src/wulfric/_spglib_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index dec6452..a411442 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -300,7 +300,7 @@ def validate_spglib_data(cell, atoms, spglib_data) -> None:
             "Validation of spglib_data against cell and atoms: atom's positions mismatch."
         )
 
-    if get_spglib_types(atoms=atoms) != spglib_data.original_types:
+    if list(get_spglib_types(atoms=atoms)) != list(spglib_data.original_types):
         raise ValueError(
             "Validation of spglib_data against cell and atoms: atom's types mismatch."
         )
-- 
2.43.0


From 4d5cc96b07d4fdd7cdcacf138415f35f3a2bf47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:36 +0000
Subject: [PATCH 23/38] fix: ensure_000 accepts positions given as tuples

It raised TypeError, contrary to the other functions that shift atoms.
---
 src/wulfric/crystal/_basic_manipulation.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/wulfric/crystal/_basic_manipulation.py b/src/wulfric/crystal/_basic_manipulation.py
index 65ff5f7..72df4d1 100644
--- a/src/wulfric/crystal/_basic_manipulation.py
+++ b/src/wulfric/crystal/_basic_manipulation.py
@@ -170,6 +170,12 @@ def ensure_000(atoms) -> None:
         [0.25, 0.35, 0.375]
     """
 
+    # Tuples can not be modified in place
+    if isinstance(atoms["positions"], tuple) or any(
+        isinstance(position, tuple) for position in atoms["positions"]
+    ):
+        atoms["positions"] = [list(position) for position in atoms["positions"]]
+
     for i in range(len(atoms["positions"])):
         for j in range(3):
             poscomp = atoms["positions"][i][j]
-- 
2.43.0


From 53e4faa71d6d3bd66a5b837c2621c53e211564ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:00 +0000
Subject: [PATCH 24/38] fix: deleting an absent attribute of SyntacticSugar
 raises AttributeError

---
 src/wulfric/_syntactic_sugar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_syntactic_sugar.py b/src/wulfric/_syntactic_sugar.py
index c14201a..b94b2c2 100644
--- a/src/wulfric/_syntactic_sugar.py
+++ b/src/wulfric/_syntactic_sugar.py
@@ -62,7 +62,12 @@ class SyntacticSugar(dict):
             raise AttributeError(key)
 
     __setattr__ = dict.__setitem__
-    __delattr__ = dict.__delitem__
+
+    def __delattr__(self, key):
+        try:
+            del self[key]
+        except KeyError:
+            raise AttributeError(key)
 
 
 def add_sugar(dictionary: dict) -> SyntacticSugar:
-- 
2.43.0


From e904e0636865e8d7d632e46919f7524a7e539f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 25/38] fix: plot_kpath counts every subpath in the axes range

---
 src/wulfric/_plotly_engine.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e7d6b7c..091e286 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -764,17 +764,17 @@ class PlotlyEngine:
             if legend_label is not None:
                 legend_label = None
 
-        # Fix for plotly #7143
-        self._update_range(
-            x_min=xyz[0].min(),
-            x_max=xyz[0].max(),
-            y_min=xyz[1].min(),
-            y_max=xyz[1].max(),
-            z_min=xyz[2].min(),
-            z_max=xyz[2].max(),
-            row=row,
-            col=col,
-        )
+            # Fix for plotly #7143
+            self._update_range(
+                x_min=xyz[0].min(),
+                x_max=xyz[0].max(),
+                y_min=xyz[1].min(),
+                y_max=xyz[1].max(),
+                z_min=xyz[2].min(),
+                z_max=xyz[2].max(),
+                row=row,
+                col=col,
+            )
 
     def plot_kpoints(
         self,
-- 
2.43.0


From d6d3255c4a96cb8e300c92de96a468264f60e070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 26/38] fix: the axes ranges of a plot include all data and are
 never empty

---
 src/wulfric/_plotly_engine.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 091e286..25de811 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -125,9 +125,21 @@ class PlotlyEngine:
     # Fix for plotly #7143
     def _update_fig_aspect_range(self):
         for row, col in self.x_range:
-            xlim = 1.05 * self.x_range[(row, col)]
-            ylim = 1.05 * self.y_range[(row, col)]
-            zlim = 1.05 * self.z_range[(row, col)]
+            limits = np.array(
+                [
+                    self.x_range[(row, col)],
+                    self.y_range[(row, col)],
+                    self.z_range[(row, col)],
+                ]
+            )
+            # Margins are added around the data. Direction in which the data are flat is as
+            # long as the longest one.
+            lengths = limits[:, 1] - limits[:, 0]
+            longest = lengths.max() or 1.0
+            margins = np.where(
+                lengths > 1e-6 * longest, 0.025 * lengths, 0.525 * longest
+            )
+            xlim, ylim, zlim = limits + margins[:, np.newaxis] * [-1, 1]
 
             self.fig.update_scenes(
                 xaxis=dict(range=xlim),
-- 
2.43.0


From f38ce0da9ad82354150b8e564063b238a22fa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 27/38] fix: plot_atoms accepts a single color and colors that
 are not hexadecimal

---
 src/wulfric/_plotly_engine.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 25de811..e97d6be 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -49,9 +49,12 @@ _LEGEND_SETTINGS = {
 
 
 # Source: https://gamedev.stackexchange.com/questions/38536/given-a-rgb-color-x-how-to-find-the-most-contrasting-color-y
-def _get_good_contrast(hex_color):
-    hex_color = hex_color[1:]
-    R, G, B = [int(hex_color[i : i + 2], 16) / 255 for i in (0, 2, 4)]
+def _get_good_contrast(color):
+    # Contrast is only computed for the colors of the form "#RRGGBB"
+    try:
+        R, G, B = [int(color[i : i + 2], 16) / 255 for i in (1, 3, 5)]
+    except (TypeError, ValueError):
+        return "#000000"
 
     gamma = 2.2
     L = 0.2126 * R**gamma + 0.7152 * G**gamma + 0.0722 * B**gamma
@@ -1041,6 +1044,9 @@ class PlotlyEngine:
 
             colors = [ATOM_COLORS[_] for _ in species]
 
+        if isinstance(colors, str):
+            colors = [colors for _ in names]
+
         text_color = [_get_good_contrast(color) for color in colors]
 
         # Prepare hover info
-- 
2.43.0


From dd0fa04e6a4a527510b85ee1e4ddc24d57cf29dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:30 +0000
Subject: [PATCH 28/38] fix: PlotlyEngine can plot on a figure without subplots

---
 src/wulfric/_plotly_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index e97d6be..8ec5c2f 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -94,11 +94,13 @@ class PlotlyEngine:
                 'Plotly is not available. Please install it with "pip install plotly"'
             )
 
-        if fig is None:
+        # Traces are added by row and column, figure has to have a grid of subplots
+        if fig is None or not fig._has_subplots():
             fig = make_subplots(
                 rows=rows,
                 cols=cols,
                 specs=[[{"type": "scene"} for _ in range(cols)] for _ in range(rows)],
+                figure=fig,
             )
         self.fig = fig
 
-- 
2.43.0


From 941bfae7fbd8075dbd89b2e8d44f276ed3041fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:52 +0000
Subject: [PATCH 29/38] fix: axes hidden by one show() or save() are visible
 again in the next one

---
 src/wulfric/_plotly_engine.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/wulfric/_plotly_engine.py b/src/wulfric/_plotly_engine.py
index 8ec5c2f..077f637 100644
--- a/src/wulfric/_plotly_engine.py
+++ b/src/wulfric/_plotly_engine.py
@@ -174,10 +174,11 @@ class PlotlyEngine:
             Passed directly to the |plotly-update-layout|_.
         """
 
-        if not axes_visible:
-            self.fig.update_scenes(
-                xaxis_visible=False, yaxis_visible=False, zaxis_visible=False
-            )
+        self.fig.update_scenes(
+            xaxis_visible=axes_visible,
+            yaxis_visible=axes_visible,
+            zaxis_visible=axes_visible,
+        )
 
         legend_position = legend_position.lower()
 
@@ -225,10 +226,11 @@ class PlotlyEngine:
         if kwargs_write_html is None:
             kwargs_write_html = {}
 
-        if not axes_visible:
-            self.fig.update_scenes(
-                xaxis_visible=False, yaxis_visible=False, zaxis_visible=False
-            )
+        self.fig.update_scenes(
+            xaxis_visible=axes_visible,
+            yaxis_visible=axes_visible,
+            zaxis_visible=axes_visible,
+        )
 
         legend_position = legend_position.lower()
 
-- 
2.43.0


From 08fcf142416eaf84b54ad9ab480709fdb3202b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 30/38] fix: hpkot_get_example raises ValueError for "oA" with
 inversion

---
 src/wulfric/crystal/_hpkot_examples/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/wulfric/crystal/_hpkot_examples/__init__.py b/src/wulfric/crystal/_hpkot_examples/__init__.py
index fdad11f..3982adb 100644
--- a/src/wulfric/crystal/_hpkot_examples/__init__.py
+++ b/src/wulfric/crystal/_hpkot_examples/__init__.py
@@ -69,11 +69,6 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
            Computational Materials Science, 128, pp.140-184.
     """
 
-    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
-        raise ValueError(
-            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
-        )
-
     supported_symbols = list(HPKOT_EXTENDED_BL_SYMBOLS)
 
     supported_symbols += list(set([_[:2] for _ in supported_symbols]))
@@ -90,6 +85,11 @@ def hpkot_get_example(extended_bl_symbol, with_inversion=False):
         else:
             extended_bl_symbol += "1"
 
+    if extended_bl_symbol in ["oF2", "oI2", "oA1", "oA2"] and with_inversion:
+        raise ValueError(
+            '"oF2", "oI2", "oA1", "oA2" with with_inversion=True currently are not supported.'
+        )
+
     POSCAR_filename = os.path.join(
         os.path.split(os.path.abspath(__file__))[0], "POSCAR-files", extended_bl_symbol
     )
-- 
2.43.0


From 0a72e9339f7fe4d0f659afc3b599c99057020733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 31/38] fix: get_primitive compares distances between atoms
 with symprec in absolute units

---
 src/wulfric/crystal/_primitive.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wulfric/crystal/_primitive.py b/src/wulfric/crystal/_primitive.py
index 4dcf3a7..21e5b1f 100644
--- a/src/wulfric/crystal/_primitive.py
+++ b/src/wulfric/crystal/_primitive.py
@@ -78,11 +78,14 @@ def _get_unique(
     non_unique_positions = non_unique_positions % 1
 
     # Compute pair-wise distances between the closest images of the atoms, as 0 and
-    # 1 - epsilon are close to each other in the periodic crystal
+    # 1 - epsilon are close to each other in the periodic crystal. distance_tolerance is a
+    # length, therefore distances are computed in absolute coordinates.
     differences = (
         non_unique_positions[:, np.newaxis, :] - non_unique_positions[np.newaxis, :, :]
     )
-    distances = np.linalg.norm(differences - np.round(differences), axis=2)
+    distances = np.linalg.norm(
+        (differences - np.round(differences)) @ prim_cell, axis=2
+    )
 
     # Check if two atoms are the same for each pair
     same_atoms = np.isclose(
-- 
2.43.0


From 6147c4d0b7bfb17012eb8236d86ce05d8317da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:05 +0000
Subject: [PATCH 32/38] fix: borders of the ORCF and MCLC variations compare
 lengths with symprec

---
 src/wulfric/crystal/_sc_variation.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/wulfric/crystal/_sc_variation.py b/src/wulfric/crystal/_sc_variation.py
index a56f593..682ea8f 100644
--- a/src/wulfric/crystal/_sc_variation.py
+++ b/src/wulfric/crystal/_sc_variation.py
@@ -107,12 +107,14 @@ def _ORCF_variation(
             f'(convention="SC"): ORCF variation. a < b < c is not satisfied with {distance_tolerance} tolerance.'
         )
 
-    expression = 1 / conv_a**2 - 1 / conv_b**2 - 1 / conv_c**2
-    if cwt(expression, "==", 0, eps=distance_tolerance):
+    # 1/a^2 > 1/b^2 + 1/c^2 is the same as a < (1/b^2 + 1/c^2)^{-1/2}. Two lengths are
+    # compared, as distance_tolerance is a length.
+    border_a = (1 / conv_b**2 + 1 / conv_c**2) ** (-0.5)
+    if cwt(conv_a, "==", border_a, eps=distance_tolerance):
         return "ORCF3"
-    elif cwt(expression, ">", 0, eps=distance_tolerance):
+    elif cwt(conv_a, "<", border_a, eps=distance_tolerance):
         return "ORCF1"
-    elif cwt(expression, "<", 0, eps=distance_tolerance):
+    elif cwt(conv_a, ">", border_a, eps=distance_tolerance):
         return "ORCF2"
 
 
@@ -215,15 +217,16 @@ def _MCLC_variation(
     elif cwt(prim_k_gamma, ">", 90, eps=angle_tolerance):
         return "MCLC1"
     elif cwt(prim_k_gamma, "<", 90, eps=angle_tolerance):
+        # The condition is multiplied by c, as distance_tolerance is a length
         expression = (
-            conv_b * cos(conv_alpha) / conv_c
-            + conv_b**2 * sin(conv_alpha) ** 2 / conv_a**2
+            conv_b * cos(conv_alpha)
+            + conv_c * conv_b**2 * sin(conv_alpha) ** 2 / conv_a**2
         )
-        if cwt(expression, "==", 1, eps=distance_tolerance):
+        if cwt(expression, "==", conv_c, eps=distance_tolerance):
             return "MCLC4"
-        elif cwt(expression, "<", 1, eps=distance_tolerance):
+        elif cwt(expression, "<", conv_c, eps=distance_tolerance):
             return "MCLC3"
-        elif cwt(expression, ">", 1, eps=distance_tolerance):
+        elif cwt(expression, ">", conv_c, eps=distance_tolerance):
             return "MCLC5"
 
 
-- 
2.43.0


From 66561aac07da9630318077d5152996659a21c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:52 +0000
Subject: [PATCH 33/38] fix: SC conventional cell of monoclinic crystals keeps
 the unique axis when all angles are right

---
 src/wulfric/crystal/_conventional.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/wulfric/crystal/_conventional.py b/src/wulfric/crystal/_conventional.py
index 22adae8..74f8d61 100644
--- a/src/wulfric/crystal/_conventional.py
+++ b/src/wulfric/crystal/_conventional.py
@@ -275,7 +275,20 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
 
     # Step 1, make sure that alpha is not a 90 angle
     _, _, _, alpha, beta, gamma = get_params(cell=spglib_std_lattice)
-    if cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
+    # The unique axis of the cell found by spglib is the second one. Therefore this case
+    # is tried first: all three angles can be right angles by accident.
+    # Have to keep a3 in place for MCLC lattices
+    if cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
+        gamma, "==", 90.0, eps=angle_tolerance
+    ):  # -> a2, -a1, a3
+        matrix_to_1 = np.array(
+            [
+                [0, -1, 0],
+                [1, 0, 0],
+                [0, 0, 1],
+            ]
+        )
+    elif cwt(beta, "==", 90.0, eps=angle_tolerance) and cwt(
         gamma, "==", 90.0, eps=angle_tolerance
     ):  # No change
         matrix_to_1 = np.eye(3, dtype=float)
@@ -293,17 +306,6 @@ def _sc_get_conventional_m(spglib_std_lattice, centring_type, angle_tolerance=1e
             raise PotentialBugError(
                 '(convention="SC"), MCLC lattice, step 1, case 2. This case should never be tried for MCLC lattice.'
             )
-    # Have to keep a3 in place for MCLC lattices
-    elif cwt(alpha, "==", 90.0, eps=angle_tolerance) and cwt(
-        gamma, "==", 90.0, eps=angle_tolerance
-    ):  # -> a2, -a1, a3
-        matrix_to_1 = np.array(
-            [
-                [0, -1, 0],
-                [1, 0, 0],
-                [0, 0, 1],
-            ]
-        )
     else:
         raise PotentialBugError(
             '(convention="SC"): MCL or MCLC lattice, step 1. Angles fall outside of the three cases.'
-- 
2.43.0


From 9dc9b1d711f98a84aa2509d88c733ea0d29d115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 34/38] fix: cells and positions that are not finite are
 refused instead of crashing in spglib

---
 src/wulfric/_spglib_interface.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index a411442..d12bffb 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -78,6 +78,13 @@ class SpglibData:
                     f"Expected shape of (3, 3) for cell, got {cell.shape}."
                 )
 
+            # spglib crashes on the values that are not finite
+            for name, values in (("cell", cell), ("positions", atoms["positions"])):
+                if not np.all(np.isfinite(np.array(values, dtype=float))):
+                    raise ValueError(
+                        f"Expected finite numbers in {name}, got\n{values}"
+                    )
+
             # Populate with the input data
 
             object.__setattr__(self, "original_cell", deepcopy(cell))
-- 
2.43.0


From 449c7a79404892abd4afc99fedfa0572c346d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:08 +0000
Subject: [PATCH 35/38] fix: stacks of cells are refused by the validation of
 spglib_data instead of being broadcast

---
 src/wulfric/_spglib_interface.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/_spglib_interface.py b/src/wulfric/_spglib_interface.py
index d12bffb..5ffc33c 100644
--- a/src/wulfric/_spglib_interface.py
+++ b/src/wulfric/_spglib_interface.py
@@ -297,7 +297,8 @@ def validate_spglib_data(cell, atoms, spglib_data) -> None:
         If ``cell`` and ``atoms`` do not match ``spglib_data``.
     """
 
-    if not np.allclose(cell, spglib_data.original_cell):
+    # np.allclose broadcasts, i.e. a stack of the same cells would be close to the cell
+    if np.shape(cell) != (3, 3) or not np.allclose(cell, spglib_data.original_cell):
         raise ValueError(
             "Validation of spglib_data against cell and atoms: cell mismatch."
         )
-- 
2.43.0


From eb77123eb5c8e7ba33a5556e1a9bbb60f98a1398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:46 +0000
Subject: [PATCH 36/38] fix: get_niggli refuses cells of zero volume also when
 the computed volume is not exactly zero

---
 src/wulfric/cell/_niggli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/cell/_niggli.py b/src/wulfric/cell/_niggli.py
index c468a6d..eeca2d2 100644
--- a/src/wulfric/cell/_niggli.py
+++ b/src/wulfric/cell/_niggli.py
@@ -372,7 +372,8 @@ def get_niggli(cell, eps_relative=1e-5, implementation="spglib", max_iterations=
         )
 
     volume = get_volume(cell)
-    if volume == 0:
+    # Computed volume of linearly dependent vectors can be not exactly zero (rounding)
+    if volume <= 1e-12 * np.prod(np.linalg.norm(cell, axis=1)):
         raise ValueError("Cell volume is zero")
 
     eps = eps_relative * volume ** (1 / 3.0)
-- 
2.43.0


From fc900e3a4c3da9666484888292d59e8eedec1604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:15 +0000
Subject: [PATCH 37/38] fix: hpkot_get_extended_bl_symbol decides b = a
 sin(beta) of mC with a tolerance (mC3 has no points for a right angle)

---
 src/wulfric/crystal/_hpkot_extended_bl_symbol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/wulfric/crystal/_hpkot_extended_bl_symbol.py b/src/wulfric/crystal/_hpkot_extended_bl_symbol.py
index 2ecd92a..71df9cc 100644
--- a/src/wulfric/crystal/_hpkot_extended_bl_symbol.py
+++ b/src/wulfric/crystal/_hpkot_extended_bl_symbol.py
@@ -27,6 +27,7 @@ from wulfric.crystal._crystal_validation import validate_atoms
 from wulfric._spglib_interface import get_spglib_data, validate_spglib_data, SpglibData
 from wulfric.crystal._conventional import get_conventional
 from wulfric._exceptions import PotentialBugError
+from wulfric._numerical import compare_with_tolerance
 from wulfric.constants import TORADIANS
 
 __all__ = ["hpkot_get_extended_bl_symbol"]
@@ -207,7 +208,11 @@ def hpkot_get_extended_bl_symbol(cell, atoms, spglib_data=None):
             return "hR2"
 
     if lattice_type == "mC":
-        if b <= a * sin(beta * TORADIANS):
+        # At b = a sin(beta) rounding errors shall not choose the symbol: if beta is 90,
+        # then the points of mC3 are not defined (division by cos(beta)).
+        if compare_with_tolerance(
+            b, "<=", a * sin(beta * TORADIANS), rtol=1e-8, atol=0
+        ):
             return "mC1"
         else:
             if (
-- 
2.43.0


From 7a5101c7146777d83eaa81033decb56369a071e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 38/38] fix: Kpoints refuses repeated names of points in the
 constructor as add_hs_point does

---
 src/wulfric/_kpoints_class.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wulfric/_kpoints_class.py b/src/wulfric/_kpoints_class.py
index 18d562d..24904c9 100644
--- a/src/wulfric/_kpoints_class.py
+++ b/src/wulfric/_kpoints_class.py
@@ -109,6 +109,8 @@ class Kpoints:
             raise ValueError(
                 f"Amount of names ({len(names)}) does not match amount of points ({len(coordinates)})."
             )
+        elif len(set(names)) != len(names):
+            raise ValueError(f"Names of the points are not unique: {list(names)}.")
 
         self.hs_coordinates = dict(
             [(names[i], np.array(coordinates[i])) for i in range(len(coordinates))]
-- 
2.43.0

