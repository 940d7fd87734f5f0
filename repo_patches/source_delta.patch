From 9dcacaf543392954ce0a7e6aaa61b898b10d034e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 01/16] fix: treat q1 and q2 as scalars when acting on Schubert
 classes

qmult/qact/toS of a combination holding q1 or q2 (even orthogonal
Grassmannians with k=1) raised ValueError from spec2num, so a product
could not be multiplied again.
---
 schubertpy/abstract_grassmannian.py | 4 ++--
 schubertpy/qcalc.py                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 7076e8f..797d684 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -192,8 +192,8 @@ class AbstractGrassmannian(ABC):
         # print("act_lc")
         lc = LinearCombination(lc)
 
-        q = sp.Symbol('q')
-        vars = expc.free_symbols - {q}
+        # the quantum parameters (q, or q1 and q2 in type D with k=1) are scalars
+        vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
         vars = sorted(vars, key=lambda x: str(x))
         
         # If there are no variables, multiply expc by lc and return
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index 70e8b9b..d5dd527 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -606,8 +606,8 @@ def act_lc(expc: sp.Expr, lc: Union[sp.Expr, LinearCombination, str], pieri: Cal
     # print("act_lc")
     lc = LinearCombination(lc)
 
-    q = sp.Symbol('q')
-    vars = expc.free_symbols - {q}
+    # the quantum parameters (q, or q1 and q2 in type D with k=1) are scalars
+    vars = expc.free_symbols - set(sp.symbols('q q1 q2'))
     vars = sorted(vars, key=lambda x: str(x))
     
     # If there are no variables, multiply expc by lc and return
-- 
2.43.0


From f39ddb7bf2cdcc5cc1b94329bf712287badfc94a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 02/16] fix: remove rim hooks from partitions of any shape

---
 schubertpy/grassmannian.py |  2 +-
 schubertpy/partition.py    | 67 ++++++++++++--------------------------
 2 files changed, 21 insertions(+), 48 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index 3ef6697..d37aa7d 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -205,7 +205,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp)
+            sign = (-1)**(height-kp*q_num)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index b00c12a..ebb406a 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -99,57 +99,30 @@ class Partition:
         current_partition = self.partition.copy()  # Use a copy to avoid modifying the original partition
         total_rim_hooks_removed = 0  # Initialize the rim hook count
         
+        total_height = 0
+
         while True:
-            _partition = current_partition + [0]  # Append 0 to handle the difference calculation
-            _rim_size = rim_size
-            rim_hook_removed_this_iteration = False  # Flag to check if a rim hook was removed
-        
-            for i in range(len(_partition) - 1):
-                delta = _partition[i] - _partition[i + 1]
-                if delta >= _rim_size:
-                    # Rim hook is entirely within a single row
-                    _partition[i] -= _rim_size
-                    _rim_size = 0
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Height of single-row rim hook is 0
-                    rim_hook_removed_this_iteration = True
-                    break
-                if _partition[i + 1] > 0:
-                    delta += 1
-                _rim_size -= delta
-                _partition[i] -= delta
-                if _rim_size <= 0:
-                    if _partition[i] < _partition[i+1]:
-                        break
-                    total_rim_hooks_removed += 1  # Increment the rim hook count
-                    # Rim hook spans two rows, height = 1
-                    rim_hook_removed_this_iteration = True
-                    break
-
-
-            if rim_hook_removed_this_iteration:
-                # Accumulate the height of the removed rim hook
-                if not _is_non_increasing(_partition):
-                    # The partition is not valid after modification
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
-
-                _partition = part_clip(_partition)
-                new_partition = Partition(_partition)
-
-                if new_partition.is_in_range(nrow, ncol):
-                    # The new partition fits within the acceptable grid
-                    return new_partition, total_rim_hooks_removed, skew_partition_height(new_partition.partition, self.partition)
-
-                if new_partition.partition == current_partition:
-                    # No further changes can be made; exit the loop
-                    return Partition([]), total_rim_hooks_removed, skew_partition_height([], self.partition)
-
-                # Update the partition for the next iteration
-                current_partition = new_partition.partition
-            else:
+            # Removing a rim hook of size rim_size moves one bead of the first
+            # column hook lengths (beta numbers) rim_size places down, to a free place.
+            nrows = len(current_partition)
+            beads = [part + nrows - 1 - i for i, part in enumerate(current_partition)]
+            free = [bead - rim_size for bead in beads if bead >= rim_size and bead - rim_size not in beads]
+            if len(free) == 0:
                 # Unable to remove a rim hook of the specified size
                 return 0, 0, 0
 
+            # The rim hook has one row more than the number of beads jumped over
+            target = free[0]
+            total_rim_hooks_removed += 1
+            total_height += 1 + sum(1 for bead in beads if target < bead < target + rim_size)
+            beads = sorted([bead for bead in beads if bead != target + rim_size] + [target], reverse=True)
+            current_partition = part_clip([bead - (nrows - 1 - i) for i, bead in enumerate(beads)])
+
+            new_partition = Partition(current_partition)
+            if new_partition.is_in_range(nrow, ncol):
+                # The new partition fits within the acceptable grid
+                return new_partition, total_rim_hooks_removed, total_height
+
 
 
 
-- 
2.43.0


From f0e299510d9566e399be2ae097971f595af87914 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 03/16] fix: accept plain lists in part2index, type_swap,
 part2pair and pair2part

---
 schubertpy/grassmannian.py            | 5 ++---
 schubertpy/isotropic_grassmannian.py  | 5 ++---
 schubertpy/orthogonal_grassmannian.py | 7 ++-----
 3 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index d37aa7d..ebaf871 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -15,7 +15,6 @@ from .qcalc import (
     part_clip,
     pieri_itrA,
     part_star,
-    part2index,
     part2indexA_inner,
     index2partA_inner,
     dualize_index_inner,
@@ -101,7 +100,7 @@ class Grassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexA_inner(lam, self._k, self._n), lc)
         
 
@@ -120,7 +119,7 @@ class Grassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/isotropic_grassmannian.py b/schubertpy/isotropic_grassmannian.py
index 93a30c0..971ddf2 100644
--- a/schubertpy/isotropic_grassmannian.py
+++ b/schubertpy/isotropic_grassmannian.py
@@ -11,7 +11,6 @@ from .qcalc import (
     part2pair_inner,
     pair2part_inner,
     part2indexC_inner,
-    part2index,
     index2partC_inner,
     dualize_index_inner,
     pieri_set,
@@ -114,7 +113,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         return apply_lc(lambda lam: part2indexC_inner(lam, self._k, self._n), lc)
         
 
@@ -133,7 +132,7 @@ class IsotropicGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 156e587..bcdb909 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -13,7 +13,6 @@ from .qcalc import (
     pair2part_inner,
     part2indexB_inner,
     part2indexD_inner,
-    part2index,
     index2partB_inner,
     index2partD_inner,
     dualize_index_inner,
@@ -137,7 +136,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            lc = Schur(lc).symbol()
             return part2pair_inner(lc, self._k)
         else:
             lc = LinearCombination(lc)
@@ -146,7 +144,6 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
     def pair2part(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list) and len(lc) == 2:
-            lc = Schur(lc).symbol()
             return pair2part_inner(lc)
         else:
             lc = LinearCombination(lc)
@@ -154,7 +151,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         
     def part2index(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         if isinstance(lc, list):
-            return part2index(Schur(lc).symbol())
+            return self.part2index(Schur(lc).symbol())
         
         lc = LinearCombination(lc)
         f = part2indexB_inner
@@ -186,7 +183,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
     
     def type_swap(self, lc: Union[sp.Expr, LinearCombination, str, List[int]], k: int) -> LinearCombination:
         if isinstance(lc, list):
-            return self.type_swap(Schur(lc).symbol())
+            return self.type_swap(Schur(lc).symbol(), k)
         
         if self._type == "D":
             return apply_lc(lambda lam: type_swap_inner(lam, self._k), lc)
-- 
2.43.0


From 37879bc51dbc93c0f27f9d252cb6f61a98e9995e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 04/16] fix: the Schubert basis and point class of a one point
 Grassmannian are S[]

---
 schubertpy/grassmannian.py | 2 +-
 schubertpy/qcalc.py        | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index ebaf871..e0bab68 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -89,7 +89,7 @@ class Grassmannian(AbstractGrassmannian):
 
         if self._k > 0:
             return Schur((([self._k] * (self._n - self._k))))
-        return []
+        return Schur([])
 
     def part2pair(self, lc: Union[sp.Expr, LinearCombination, str, List[int]]) -> LinearCombination:
         raise Exception("Only types B,C,D.")
diff --git a/schubertpy/qcalc.py b/schubertpy/qcalc.py
index d5dd527..20feef3 100644
--- a/schubertpy/qcalc.py
+++ b/schubertpy/qcalc.py
@@ -77,8 +77,6 @@ def part_conj(lambda_: List[int]) -> List[int]:
 def part_gen(lam: List[int]):
     if lam is None:
         return []
-    if lam == []:
-        return []
     
     mu = lam.copy()
     ret = []
-- 
2.43.0


From f1d0aa93ed38660da0b39dffc7aaa41f9d0806a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 16:57:35 +0000
Subject: [PATCH 05/16] fix: reject orthogonal Grassmannians of subspaces that
 are too large to be isotropic

---
 schubertpy/orthogonal_grassmannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index bcdb909..bfe6f95 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -36,6 +36,8 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
             raise TypeError("Arguments must be integers")
         if m < 0 or n < 0:
             raise ValueError("Arguments must be non-negative")
+        if m > n//2:
+            raise ValueError(f"m must be less than or equal to {n//2}")
             
         if n % 2 == 1:
             self._type = "B"
-- 
2.43.0


From 241460ea6a3a159f2f1db4aa92dac13fad1fcf3d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:34 +0000
Subject: [PATCH 06/16] fix: do not clip the caller's partition when computing
 a Schur polynomial

---
 schubertpy/utils/mix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index bf7c1ea..4aa54bd 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -65,7 +65,7 @@ def __drop_trailing_zeros__(x):
     return x
 
 def __make_partition__(x):
-    mu = __drop_trailing_zeros__(x)
+    mu = __drop_trailing_zeros__(list(x))
     integers = map(lambda i: isinstance(i, int), mu)
     if not all(integers):
         raise ValueError("invalid integer partition.")
-- 
2.43.0


From 04de293972de9fa3e6be061e14b0022bd115a948 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:38 +0000
Subject: [PATCH 07/16] fix: subtracting a number or expression gives a
 LinearCombination

---
 schubertpy/lc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 00c56d4..7c1de3d 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -70,7 +70,7 @@ class LinearCombination(object):
         # Handle subtraction when LinearCombination is on the left
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
             # Assuming you have a method to create a new LinearCombination from a scalar
-            return self.expr - other
+            return LinearCombination(self.expr - other)
         if isinstance(other, LinearCombination):
             return LinearCombination(self.expr - other.expr)
         else:
@@ -79,7 +79,7 @@ class LinearCombination(object):
     def __rsub__(self, other):
         # Handle subtraction when LinearCombination is on the right
         if isinstance(other, (int, float, sp.Symbol, sp.Expr)):
-            return other - self.expr
+            return LinearCombination(other - self.expr)
         if isinstance(other, LinearCombination):
             return LinearCombination(other.expr - self.expr)
         else:
-- 
2.43.0


From b3faefd55ffca2c90e8878d5b625dd6a1f373271 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:42 +0000
Subject: [PATCH 08/16] fix: schur_expansion of sums with a term without Schur
 class, and include_q for single terms

---
 schubertpy/lc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 7c1de3d..e33eb07 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -283,10 +283,10 @@ class LinearCombination(object):
                 raise ValueError(f"Cannot convert a product with multiple Schur functions to schur_expansion. Please expand the expression first: {self.expr}")
             return(self. _cutoff_Schur(expr))
             
-        if isinstance(self.expr, sp.Add):
+        if isinstance(expr, sp.Add):
             # Handle the case where the expression is a sum of terms
             res = []
-            for term in self.expr.args:
+            for term in expr.args:
                 if not include_q and str(term).__contains__('q'):
                     continue
                 res.append(self._schur_expansion(term))
@@ -311,6 +311,8 @@ class LinearCombination(object):
         representing the partition of a Schur function, or raises a ValueError if the
         expression cannot be expanded into Schur components.
         """
+        if not include_q and not isinstance(self.expr, sp.Add) and str(self.expr).__contains__('q'):
+            return []
         return self._schur_expansion(self.expr, include_q)
 
     def draw_ascii_partition(self, include_q=True):
-- 
2.43.0


From 6b25b9186479ad3e97a8c4a1bbb038bfa2216eed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 09/16] fix: drawing of the empty partition in a linear
 combination

---
 schubertpy/lc.py        | 2 +-
 schubertpy/utils/mix.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index e33eb07..9460af5 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -342,7 +342,7 @@ class LinearCombination(object):
         
         part_count = 0
         for coeff, part in expansion:
-            part_ascii = embed_partition(part, max(part), max_height)
+            part_ascii = embed_partition(part, max(part, default=0), max_height)
             coeff_str = ""
             if coeff != 1:
                 coeff_str = f"{coeff}*"
diff --git a/schubertpy/utils/mix.py b/schubertpy/utils/mix.py
index 4aa54bd..90e183e 100644
--- a/schubertpy/utils/mix.py
+++ b/schubertpy/utils/mix.py
@@ -32,7 +32,7 @@ def embed_str(s: str, height: int) -> List[str]:
 
 def embed_partition(partition: List[int], width, height: int) -> List[str]:
     res = partition_to_ascii(partition)
-    if width*2 > len(res[0]):
+    if len(res) > 0 and width*2 > len(res[0]):
         for i, row in enumerate(res):
             res[i] = row + "  "*(width - int(len(row)/2))
     if height > len(res):
-- 
2.43.0


From 56b7f1e894b9d9bf757873b73c26b3e327a56dee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:50 +0000
Subject: [PATCH 10/16] fix: schub_type of a Schubert class

---
 schubertpy/orthogonal_grassmannian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index bfe6f95..2b1f9f6 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -193,6 +193,9 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
         return LinearCombination(lc)
 
     def schub_type(self, lam: Union[Schur, List[int]]) -> int:
+        if isinstance(lam, Schur):
+            lam = lam.partition()
+
         if self._type != "D" or not (isinstance(lam, list) or not isinstance(lam, Schur)):
             raise ValueError("No type defined.")
         
-- 
2.43.0


From 3b8d65857e135c32be2832e8beca8d5efe55c51a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:02:54 +0000
Subject: [PATCH 11/16] fix: clone of isotropic and orthogonal Grassmannians

---
 schubertpy/abstract_grassmannian.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schubertpy/abstract_grassmannian.py b/schubertpy/abstract_grassmannian.py
index 797d684..134da2e 100644
--- a/schubertpy/abstract_grassmannian.py
+++ b/schubertpy/abstract_grassmannian.py
@@ -100,7 +100,8 @@ class AbstractGrassmannian(ABC):
 
     
     def clone(self):
-        return self.__class__(self._n-self._k, self._n)
+        type_data = self.get_type_data()
+        return self.__class__(type_data[4], type_data[5])
         
 
     def pieri(self, i: int, lc: Union[sp.Expr, LinearCombination, str]) -> LinearCombination:
-- 
2.43.0


From e37fc7fe6407a100bae848da468498254b1eede7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 12/16] fix: add and multiply a Schubert class with the zero
 linear combination

---
 schubertpy/schur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schubertpy/schur.py b/schubertpy/schur.py
index 6ad8275..4ca6714 100644
--- a/schubertpy/schur.py
+++ b/schubertpy/schur.py
@@ -47,7 +47,7 @@ class Schur(object):
             return self.symbol() + other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() + other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() + other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -58,7 +58,7 @@ class Schur(object):
             return self.symbol() * other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() * other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() * other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
     
@@ -69,7 +69,7 @@ class Schur(object):
             return self.symbol() ** other.symbol()
         if isinstance(other, (int, float, sp.Expr, sp.Number)):
             return self.symbol() ** other
-        if other.expr and isinstance(other.expr, sp.Expr):
+        if isinstance(other.expr, sp.Expr):
             return self.symbol() ** other.expr
         raise ValueError(f"Invalid type for addition: {type(other)}")
 
-- 
2.43.0


From e5432006bb58bcffefc7ec1c40914286eddba850 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:12:14 +0000
Subject: [PATCH 13/16] fix: empty rows do not count in the height of a skew
 partition

---
 schubertpy/partition.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/schubertpy/partition.py b/schubertpy/partition.py
index ebb406a..b806418 100644
--- a/schubertpy/partition.py
+++ b/schubertpy/partition.py
@@ -156,9 +156,6 @@ def skew_partition_height(lambda_partition: List[int], mu_partition: List[int])
     2
     """
 
-    if len(lambda_partition) == 0:
-        return len(mu_partition)
-
     # Validation: Ensure lambda is contained within mu
     for i in range(len(lambda_partition)):
         if i >= len(mu_partition):
-- 
2.43.0


From cb63cff1b9b9755e0bb0c4b2f424118959f6221a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 14/16] fix: integer coefficients in the rim hook product

---
 schubertpy/grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/grassmannian.py b/schubertpy/grassmannian.py
index e0bab68..ef50d07 100644
--- a/schubertpy/grassmannian.py
+++ b/schubertpy/grassmannian.py
@@ -204,7 +204,7 @@ class Grassmannian(AbstractGrassmannian):
             # print("let's remove the rim hooks with rim_size = ", rim_size, " and acceptable_grid = ", acceptable_grid)
             x, q_num, height = p.remove_rim_hooks(rim_size=rim_size, acceptable_grid=acceptable_grid)
 
-            sign = (-1)**(height-kp*q_num)
+            sign = (-1)**((height-kp*q_num) % 2)
             # sign = (-1)**(n - kp - height)
 
             # print("removed rim hooks:", x, "\tq_num = ", q_num, "\theight = ", height, "\tsign = ", sign)
-- 
2.43.0


From 0d00367158f95d66d4303982e0d363c0c21cbfba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 15/16] fix: order of the complement in quantum Pieri products
 of OG(n,2n+2)

---
 schubertpy/orthogonal_grassmannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schubertpy/orthogonal_grassmannian.py b/schubertpy/orthogonal_grassmannian.py
index 2b1f9f6..084262f 100644
--- a/schubertpy/orthogonal_grassmannian.py
+++ b/schubertpy/orthogonal_grassmannian.py
@@ -298,7 +298,7 @@ class OrthogonalGrassmannian(AbstractGrassmannian):
 
 
     def _toSchurFromIntnMu(self, _intn: set, _mu: List[int]) -> LinearCombination:
-        sch = Schur((list(_intn - set(_mu))[::-1]))
+        sch = Schur(sorted(_intn - set(_mu), reverse=True))
         return LinearCombination(sch.symbol())
 
     @hashable_lru_cache_method(maxsize=None)
-- 
2.43.0


From bdddef836506c919b344cc4dfe9d5773908e4a59 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 16/16] fix: schur_expansion took one of several Schur classes
 of a term when one had a power or the product was not expanded

---
 schubertpy/lc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schubertpy/lc.py b/schubertpy/lc.py
index 9460af5..d5f1a96 100644
--- a/schubertpy/lc.py
+++ b/schubertpy/lc.py
@@ -233,7 +233,8 @@ class LinearCombination(object):
 
     def _count_Schur(self, expr) -> int:
         if isinstance(expr, sp.Mul):
-            return sum(1 for arg in expr.args if isSchur(arg))
+            # powers and sums among the factors contain Schur functions as well
+            return sum(1 for arg in sp.preorder_traversal(expr) if isSchur(arg))
         raise ValueError(f"Invalid type for counting Schur: {expr}")
     
     def _cutoff_Schur(self, expr) -> Tuple['LinearCombination', 'Schur']:
-- 
2.43.0

