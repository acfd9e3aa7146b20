From 9ae94b3d86c3774bb1939ad2cdca3ec27ce6d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 01/27] fix: the generators of the braid group on two strands
 are the Garside element

---
 peyl/braid.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 4e5b6ba..fc7bbae 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -367,7 +367,7 @@ class NFBase(Generic[T]):
     def artin_gens(cls, n: int):
         """Return a list of the n-1 Artin generators."""
 
-        return [cls(n, 0, (f,)) for f in cls._nf_table(n).artin_gens]
+        return [cls.from_artin_word(n, [(i, 1)]) for i in range(n - 1)]
 
     def canonical_factors(self) -> tuple[T, ...]:
         """
@@ -647,7 +647,7 @@ class DGNF(NFBase[NPar]):
         id = DGNF.identity(n)
         table = DGNF._nf_table(n)
         return {
-            (i, j): id if i == j else DGNF(n, 0, (table.bkl_gens[(min(i, j), max(i, j))],))
+            (i, j): id if i == j else DGNF.from_npar(table.divs[table.bkl_gens[(min(i, j), max(i, j))]])
             for i in range(n) for j in range(n)
         }
 
@@ -726,8 +726,7 @@ class BraidGroup:
     @functools.cache
     def gens(self) -> tuple[GNF, ...]:
         """Return the Artin generators of the braid group, as GNFs."""
-        table = PermTable.create(self.n)
-        return tuple(GNF(self.n, 0, (table.artin_gens[i],)) for i in range(self.n - 1))
+        return tuple(GNF.artin_gens(self.n))
 
     @functools.cache
     def bkl_gens(self) -> dict[tuple[int, int], DGNF]:
@@ -737,8 +736,8 @@ class BraidGroup:
         """
         table = NParTable.create(self.n)
         return {
-            **{gen: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
-            **{gen[::-1]: DGNF(self.n, 0, (idx,)) for gen, idx in table.bkl_gens.items()},
+            **{gen: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
+            **{gen[::-1]: self.from_npar(table.divs[idx]) for gen, idx in table.bkl_gens.items()},
             **{(i, i): DGNF.identity(self.n) for i in range(self.n)},
         }
 
-- 
2.43.0


From 5037fe056f0058f247540b64d2881746468ba0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 02/27] fix: the suffixes of a braid do not repeat its infimum

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index fc7bbae..6d5c394 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -492,7 +492,7 @@ class NFBase(Generic[T]):
         """Return all x such that self * x has no cancellation, and x has the given length."""
         table = self._nf_table(self.n)
         return (
-            self.__class__(self.n, self.power, suffix)
+            self.__class__(self.n, 0, suffix)
             for suffix in table.normal_forms(length=length, following=self.factors[-1] if self.factors else None)
         )
 
-- 
2.43.0


From c045d1e0956f0a1730a8509711eccb55814299be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 03/27] fix: all_of_garside_length uses the power it is given

---
 peyl/braid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braid.py b/peyl/braid.py
index 6d5c394..222bee7 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -781,7 +781,7 @@ class BraidGroup:
 
     def all_of_garside_length(self, length: int, power: int = 0) -> Iterable[GNF]:
         """Use GNF.all_of_length() or DGNF.all_of_length() instead."""
-        return GNF.all_of_length(n=self.n, length=length)
+        return GNF.all_of_length(n=self.n, length=length, power=power)
 
     def count_all_of_garside_length(self, length: int):
         """Use GNF.count_all_of_length() or DGNF.count_all_of_length() instead."""
-- 
2.43.0


From 7aceda540f7af978ba21af4cdbf67e4a9f4a71f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 04/27] fix: build permutations from cycles of any length, and
 from lists of cycles

---
 peyl/permutations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/permutations.py b/peyl/permutations.py
index 39be001..ac06fe8 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -365,17 +365,17 @@ class SymmetricGroup:
     def from_cycle(self, cycle: Sequence[int]):
         """Create a permutation from a cycle."""
         assert all(0 <= x < self.n for x in cycle)
-        assert max(collections.Counter(cycle).values()) <= 1
+        assert max(collections.Counter(cycle).values(), default=0) <= 1
         word = list(range(self.n))
         for i in range(len(cycle)):
-            word[cycle[i]] = cycle[(i+1)%self.n]
+            word[cycle[i]] = cycle[(i+1)%len(cycle)]
 
         return Permutation(tuple(word))
 
 
     def from_cycles(self, cycles: Sequence[Sequence[int]]):
         """Create a permutation from a list of cycles (not necessarily disjoint)."""
-        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id)
+        return functools.reduce(operator.mul, map(self.from_cycle, cycles), self.id())
 
 
     def elements(self) -> Iterable[Permutation]:
-- 
2.43.0


From 735af0fa41eb03d072f107e6c6ba4a8260be724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 05/27] fix: compose extended Temperley-Lieb diagrams in the
 documented order

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5981422..0bf0965 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -306,7 +306,7 @@ class TLExtDiag:
             if self.bot != other.top:
                 raise ValueError("Trying to compose incompatible TLDiags.")
 
-            seq, bubbles = compose(other.seq, self.seq, self.bot)
+            seq, bubbles = compose(self.seq, other.seq, self.bot)
             return TLExtDiag(self.top, other.bot, seq, self.bubbles + other.bubbles + bubbles)
 
         return NotImplemented
-- 
2.43.0


From c2dbfcee155d25331404bc140c418a6e469a59e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 06/27] fix: flipping a Temperley-Lieb morphism only inverts v
 when asked to

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 0bf0965..af8d216 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -450,7 +450,7 @@ class TLMor:
         """Apply the upside-down flip to the diagrams. If twist_v is True, also map v -> v^-1."""
         vinv = LPoly(-1, (1,))
         return TLMor(self.bot, self.top, {
-            diag.flip(): coeff.evaluate(vinv) for diag, coeff in self.terms.items()
+            diag.flip(): coeff.evaluate(vinv) if twist_v else coeff for diag, coeff in self.terms.items()
         })
 
     def __neg__(self):
-- 
2.43.0


From 91010f37b76de0de4ca7b6ab9d3ef49363eb342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 07/27] fix: the sum of all cell modules includes the one with
 the fewest through-strands

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index af8d216..5d6af3f 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -550,7 +550,7 @@ class JonesRep:
         assert n >= 0
 
         self.n = n
-        self.cells = [TLCell(n, r) for r in range(n//2)]
+        self.cells = [TLCell(n, r) for r in range(n//2 + 1)]
 
 
 
-- 
2.43.0


From a944d1a54059ccb6471359c3e0b9d7635e68ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 08/27] fix: project vectors of the cell module, which lies in
 TL(n, n - 2r)

---
 peyl/tl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/tl.py b/peyl/tl.py
index 5d6af3f..3eb124b 100644
--- a/peyl/tl.py
+++ b/peyl/tl.py
@@ -516,7 +516,7 @@ class TLCell:
 
     def project_vector(self, mor: TLMor):
         """Return the projection of mor, as a vector, into this cell module."""
-        assert mor.bot == self.n, f"Dimensions {mor.bot=} and {self.n=} incompatible."
+        assert mor.top == self.n and mor.bot == self.n - 2 * self.r, f"Dimensions {mor.top=}, {mor.bot=} and {self.n=}, {self.r=} incompatible."
         return mor.quotient(self.n - 2 * self.r)
 
     def project_leftmult_matrix(self, mor: TLMor):
-- 
2.43.0


From 75166d6aef1e5fd46069d719ac57fa53ae51fcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 09/27] fix: check noncrossing partitions and group sizes on
 creation, as intended

---
 peyl/noncrossing.py  | 2 +-
 peyl/permutations.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/peyl/noncrossing.py b/peyl/noncrossing.py
index 91d2e8f..18fc7f2 100644
--- a/peyl/noncrossing.py
+++ b/peyl/noncrossing.py
@@ -97,7 +97,7 @@ class NPar:
     n: int
     inv: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         """Check that inv is really an involution of the right kind."""
         assert len(self.inv) == 2*self.n
         assert tl.is_crossingless_matching(self.inv)
diff --git a/peyl/permutations.py b/peyl/permutations.py
index ac06fe8..c7d125f 100644
--- a/peyl/permutations.py
+++ b/peyl/permutations.py
@@ -339,7 +339,7 @@ def is_parallel_descending_cycles(perm: Sequence[int]) -> bool:
 class SymmetricGroup:
     n: int
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert self.n >= 0
 
     @functools.cache
@@ -387,7 +387,7 @@ class SymmetricGroup:
 class Permutation:
     word: tuple[int, ...]
 
-    def __post__init__(self):
+    def __post_init__(self):
         assert is_permutation(self.word)
 
     def group(self):
-- 
2.43.0


From 81c3f7adf7affa3212fd83ac63b568ac70dddd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 10/27] fix: print the constant term of a polynomial

---
 peyl/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/poly.py b/peyl/poly.py
index 7346681..75c7e98 100644
--- a/peyl/poly.py
+++ b/peyl/poly.py
@@ -71,7 +71,7 @@ class Poly:
 
             sign = ' + ' if (c > 0 and parts) else ' - ' if (c < 0 and parts) else '' if c > 0 else '-'
             term = '' if i == 0 else 'x' if i == 1 else f'x^{i}'
-            coeff = '1' if (i == 0 and term == '') else '' if abs(c) == 1 else f'{abs(c)}'
+            coeff = '' if (i != 0 and abs(c) == 1) else f'{abs(c)}'
             parts += [sign + coeff + term]
 
         return f"Poly('{''.join(parts)}')"
-- 
2.43.0


From 49752a075e9152a72214ac9c829e2d52fdaf30e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 11/27] fix: bound the row index of a matrix by its number of
 rows

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index e799623..18910fb 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -117,7 +117,7 @@ class Matrix:
         """
         Return a row of the matrix as a row vector.
         """
-        if not 0 <= row < self.ncols:
+        if not 0 <= row < self.nrows:
             raise IndexError(f"Row {row} is out of bounds for a {self.nrows} x {self.ncols} matrix.")
 
         return Matrix(1, self.ncols, tuple(self[row, j] for j in range(self.ncols)))
-- 
2.43.0


From 83a219a481b5e36b9e136cfdc3e9d359cbdf0a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 12/27] fix: a matrix is symmetric when it equals its transpose

---
 peyl/matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 18910fb..6e7c435 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -231,7 +231,7 @@ class Matrix:
         return self.nrows == self.ncols
 
     def is_symmetric(self):
-        return all(self[i, j] == self[j, i] for i, j in zip(range(self.nrows), range(self.ncols)))
+        return self.is_square() and all(self[i, j] == self[j, i] for i, j in self.indices())
 
     def __repr__(self):
         """
-- 
2.43.0


From 3d795d83e28f85a1e9a55005ce730529b10d2782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 13/27] fix: subtracting something other than a matrix from a
 matrix is an error

---
 peyl/matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/matrix.py b/peyl/matrix.py
index 6e7c435..5e9ada4 100644
--- a/peyl/matrix.py
+++ b/peyl/matrix.py
@@ -215,6 +215,8 @@ class Matrix:
                 raise ValueError("Cannot subtract incompatibly sized matrices.")
             return Matrix(self.nrows, self.ncols, tuple(a - b for a, b in zip(self.data, other.data)))
 
+        return NotImplemented
+
     def trace(self):
         """
         The trace of a square matrix is the sum of the diagonal entries.
-- 
2.43.0


From e6c976ffff79a30e9928aceff760ee6d4e3610a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:27 +0000
Subject: [PATCH 14/27] fix: the projective length of a zero matrix is zero, as
 documented

---
 peyl/polymat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/polymat.py b/peyl/polymat.py
index 3483d90..8cf9cde 100644
--- a/peyl/polymat.py
+++ b/peyl/polymat.py
@@ -276,7 +276,7 @@ def projlen(A: npt.NDArray) -> npt.NDArray:
     nonzeros = np.any(A, axis=(-3, -2))
     starts = np.argmax(nonzeros, axis=-1)
     ends = nonzeros.shape[-1] - np.argmax(nonzeros[..., ::-1], axis=-1)
-    return ends - starts
+    return (ends - starts) * np.any(nonzeros, axis=-1)
 
 def proj_starts_ends(A: npt.NDArray) -> Tuple[npt.NDArray, npt.NDArray]:
     """
-- 
2.43.0


From 5ccc5a7a821b456cb1b8570e2fd76fd3539e365a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:17 +0000
Subject: [PATCH 15/27] fix: the inverses of the Lawrence-Krammer-Bigelow
 generators are not the generators themselves

---
 peyl/jonesrep.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 24cd2bc..f5ff5dc 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -295,7 +295,7 @@ class LKBRep(RepBase):
     def artin_gens_invs(self) -> tuple[list[Matrix], list[Matrix]]:
         t, q = self.t, self.q
         self.dimension()
-        gens = []
+        gens, invs = [], []
         for s in range(self.n - 1):
             gen: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {(i, j): {} for i in range(self.n) for j in range(i + 1, self.n)}
             for (i, j), col in gen.items():
@@ -327,4 +327,33 @@ class LKBRep(RepBase):
             ])
             gens += [mat]
 
-        return gens, gens
+            # The columns of the inverse, found by solving the equations above for the images of the inverse.
+            inv: dict[tuple[int, int], dict[tuple[int, int], LPoly | int]] = {(i, j): {} for i in range(self.n) for j in range(i + 1, self.n)}
+            for (i, j), col in inv.items():
+                if i == s and j == s + 1:
+                    col[i, j] = t**-1 * q**-2
+                elif i < s and j == s:
+                    col[i, j+1] = 1
+                    col[s, s+1] = (1 - q) * q**(s - i - 1)
+                elif i < s and j == s + 1:
+                    col[i, j-1] = q**-1
+                    col[i, j] = 1 - q**-1
+                    col[s, s+1] = -(q - 1)**2 * q**(s - i - 2)
+                elif i == s and s + 1 < j:
+                    col[i, j] = 1 - q**-1
+                    col[i+1, j] = 1
+                    col[s, s+1] = -(q - 1)**2 * q**-2
+                elif i == s + 1 and s + 1 < j:
+                    col[i-1, j] = q**-1
+                    col[s, s+1] = (1 - q) * q**-2
+                else:
+                    col[i, j] = 1
+                    if i < s and s + 1 < j:
+                        col[s, s+1] = -(q - 1)**2 * q**(s - i - 2)
+
+            invs += [Matrix.from_rows([
+                [LPoly.coerce(inv[col].get(row, 0)) for col in inv]
+                for row in inv
+            ])]
+
+        return gens, invs
-- 
2.43.0


From ed2f80498ae4bd1fe93fe9b0460428405983046e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 16/27] fix: the packed generators and inverses are projective,
 so negative powers of v are allowed

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index f5ff5dc..e65c504 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -116,8 +116,8 @@ class RepBase:
         are the images of their inverses.
         """
         gens, invs = self.artin_gens_invs()
-        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in gens])
-        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype()) for x in invs])
+        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.polymat_dtype(), proj=True) for x in invs])
         if self.p != 0:
             matgens %= self.p
             matinvs %= self.p
-- 
2.43.0


From 052714614fa9618d7bf2ce8251f74bd3d75c61d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 17/27] fix: reduce the powers of the Garside element modulo p

---
 peyl/jonesrep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index e65c504..f751959 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -136,8 +136,8 @@ class RepBase:
         """
         table = cls._nf_table(self.n)
         assert 0 <= power < table.tau_order, "Only reduced powers should be passed to this function."
-        mat = self.evaluate_artin_word(table.artin_word[table.D])
-        return polymat.projectivise(polymat.from_matrix(mat ** power, proj=True))
+        mat = self.evaluate_artin_word(table.artin_word[table.D] * power)
+        return polymat.projectivise(polymat.from_matrix(mat, proj=True))
 
     def polymat_evaluate_artin_word(self, word: Sequence[tuple[int, int]]):
         """Evaluate a word in the Artin generators in this representation, as a polymat."""
-- 
2.43.0


From 495a467eddcfcf45655fdc66596e3b41690729fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 18/27] fix: evaluating empty factor sequences gives one matrix
 for each sequence

---
 peyl/jonesrep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index f751959..407b395 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -204,7 +204,7 @@ class RepBase:
         assert all(0 <= x < order for seq in sequences for x in seq)
 
         # Evaluate the braids.
-        result = polymat.pack([self._polymat_braid_factor(cls, table.id)])
+        result = polymat.pack([self._polymat_braid_factor(cls, table.id) for _ in sequences])
         for i in range(length):
             images = polymat.pack([self._polymat_braid_factor(cls, seq[i]) for seq in sequences])
             result = self.polymat_mul(result, images)
-- 
2.43.0


From 8b09f3fe7bd178cb6686a6e4eacabd56fef4bdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 19/27] fix: accumulate products of packed matrices in 64 bits
 (RepBase)

---
 peyl/jonesrep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/jonesrep.py b/peyl/jonesrep.py
index 407b395..b24c6ee 100644
--- a/peyl/jonesrep.py
+++ b/peyl/jonesrep.py
@@ -103,11 +103,12 @@ class RepBase:
 
     def polymat_mul(self, left: np.ndarray, right: np.ndarray):
         """Multiply two polymats in this representation (performs mod p if p != 0, and projectivisation)."""
-        product = polymat.mul(left, right)
+        # Products are accumulated in 64 bits: sums of many products do not fit in 32 bits.
+        product = polymat.mul(left.astype(np.int64), right)
         if self.p != 0:
             product = product % self.p
 
-        return polymat.projectivise(product)
+        return polymat.projectivise(product.astype(left.dtype))
 
     def polymat_artin_gens_invs(self) -> tuple[np.ndarray, np.ndarray]:
         """
-- 
2.43.0


From b859738a7cd45b528e65970ab2641ffc17962216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 20/27] fix: accumulate products of packed matrices in 64 bits
 (JonesSummand)

---
 peyl/braidsearch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 6d9df14..f942c3f 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -106,11 +106,12 @@ class JonesSummand:
 
     def mul(self, left: npt.NDArray, right: npt.NDArray):
         """Multiplication in the representation (performs mod p if necessary, and projectivisation)."""
-        product = polymat.mul(left, right)
+        # Products are accumulated in 64 bits: sums of many products do not fit in 32 bits.
+        product = polymat.mul(left.astype(np.int64), right)
         if self.p != 0:
             product = product % self.p
 
-        return polymat.projectivise(product)
+        return polymat.projectivise(product.astype(self.dtype()))
 
 
 def batched(iterable, chunk_length: int):
-- 
2.43.0


From 2b9c5e00fc65c3eb0cf862cb0f8fcc82042f7f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 21/27] fix: the trivial summand has dimension one

---
 peyl/braidsearch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index f942c3f..5031c72 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -85,6 +85,10 @@ class JonesSummand:
 
     def dimension(self) -> int:
         """The dimension of this representation."""
+        # math.comb raises an error if it gets a negative second argument.
+        if self.r == 0:
+            return 1
+
         return math.comb(self.n, self.r) - math.comb(self.n, self.r - 1)
 
     @functools.cache
-- 
2.43.0


From 4fe042dd1649fa37197d3c78247462e6efb5d360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 22/27] fix: validate buckets with the representation of the
 tracker

---
 peyl/braidsearch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 5031c72..68effd9 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -413,7 +413,7 @@ class Tracker:
         """Ensure that the braids in each bucket evaluate to the matrices stored there."""
         for bucket in self.buckets:
             braids, images = self.bucket_braids_images(bucket)
-            actual = evaluate_braids_of_same_length(BraidGroup(braids[0].n), braids, p=self.p)
+            actual = evaluate_braids_of_same_length(self.rep, braids)
             if not np.all(images == actual):
                 print(f"A braid image is wrong in bucket {bucket}")
                 for i in range(len(braids)):
-- 
2.43.0


From cd953649c040e6552decca118398eae0f22822fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 23/27] fix: buckets of braids of length zero have descendants
 too

---
 peyl/bucketing.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 61aeec5..4cf021d 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -360,27 +360,28 @@ class Tracker:
 
         # Let's sort this bucket first, so that elements ending in the same normal form factor appear next to each other.
         bucket_braids, bucket_images = self.buckets[tag].braids_images()
-        last_factors = np.array([braid.factors[-1] for braid in bucket_braids])
+        # Braids of length zero have no last factor.
+        last_factors = np.array([braid.factors[-1] if braid.factors else -1 for braid in bucket_braids])
         sorted_indices = np.argsort(last_factors)
 
         sorted_braids = [bucket_braids[i] for i in sorted_indices]
         sorted_images = bucket_images[sorted_indices]
 
         # Now we can iterate through each group ending in the same factor.
-        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1]):
+        for last, indices in itertools.groupby(range(len(sorted_braids)), key=lambda i: sorted_braids[i].factors[-1:]):
             index_list = list(indices)
             chunk = slice(min(index_list), max(index_list)+1)
             braids = sorted_braids[chunk]
             left = sorted_images[chunk]
 
             # Cache suffixes and their images depending on the last factor.
-            last_factor = braids[0].canonical_factor(-1)
-            if (length, last_factor) not in self.suffix_cache:
+            suffix_key = (length, braids[0].__class__, last)
+            if suffix_key not in self.suffix_cache:
                 suffixes = list(braids[0].nf_suffixes(length))
                 rights = self.rep.polymat_evaluate_braids_of_same_length(suffixes)
-                self.suffix_cache[length, last_factor] = (suffixes, rights)
+                self.suffix_cache[suffix_key] = (suffixes, rights)
             else:
-                suffixes, rights = self.suffix_cache[length, last_factor]
+                suffixes, rights = self.suffix_cache[suffix_key]
 
             images = self.rep.polymat_mul(left[None, ...], rights[:, None, ...])
             images = images.reshape((-1, *images.shape[2:]))
-- 
2.43.0


From c15c49a2df9021013c750186760ac9c45a73c751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 24/27] fix: weighted sampling accepts items in proportion to
 the capacity, and copes with zero weights

---
 peyl/bucketing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peyl/bucketing.py b/peyl/bucketing.py
index 4cf021d..0ab8fd6 100644
--- a/peyl/bucketing.py
+++ b/peyl/bucketing.py
@@ -330,7 +330,8 @@ class Tracker:
                     if not bucket.is_full():
                         bucket.append_braid(braid, image, weight)
                     else:
-                        if self.rand.random() <= weight / bucket.reservoir_weight:
+                        # The inclusion probability is capacity * weight / total. The total can be zero.
+                        if self.rand.random() * bucket.reservoir_weight < bucket.capacity * weight:
                             replace = self.rand.randrange(0, bucket.capacity)
                             bucket.replace_braid(replace, braid, image, weight)
 
-- 
2.43.0


From 405e34ea1b5340a0f01e4018db631bb6093e613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:22 +0000
Subject: [PATCH 25/27] fix: reduce the images of the generators modulo p

---
 peyl/braidsearch.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 68effd9..1935d6b 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -104,9 +104,13 @@ class JonesSummand:
         are the images of their inverses.
         """
         gens, invs = cell_matrices(self.n, self.r)
-        matgens = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens]))
-        matinvs = polymat.projectivise(polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs]))
-        return matgens, matinvs
+        matgens = polymat.pack([polymat.from_matrix(x, dtype=self.dtype()) for x in gens])
+        matinvs = polymat.pack([polymat.from_matrix(x, dtype=self.dtype(), proj=True) for x in invs])
+        if self.p != 0:
+            matgens %= self.p
+            matinvs %= self.p
+
+        return polymat.projectivise(matgens), polymat.projectivise(matinvs)
 
     def mul(self, left: npt.NDArray, right: npt.NDArray):
         """Multiplication in the representation (performs mod p if necessary, and projectivisation)."""
-- 
2.43.0


From 924820c06329d05df410f9f3091f4b7006015416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 26/27] fix: name the buckets by the statistics asked for

---
 peyl/braidsearch.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/peyl/braidsearch.py b/peyl/braidsearch.py
index 1935d6b..a69ec07 100644
--- a/peyl/braidsearch.py
+++ b/peyl/braidsearch.py
@@ -441,14 +441,13 @@ class Tracker:
         keep = self.criterion(stats)
         indices = [i for i in range(len(keep)) if keep[i]]
 
-        lengths = [braid.garside_length() for braid in braids]
-        projlens = polymat.projlen(images)
+        columns = [stats[key].to_numpy() for key in self.bucket_keys]
         self.minimise(images)
 
         kept = []
         for i in indices:
             braid, image = braids[i], images[i]
-            bucket = (lengths[i], projlens[i])
+            bucket = tuple(column[i] for column in columns)
 
             if bucket not in self.buckets:
                 self.buckets |= {bucket}
-- 
2.43.0


From 660511ea383217436aa1fc3a4e651f7c46b41aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:27 +0000
Subject: [PATCH 27/27] fix: refuse factors which are not indices of simple
 elements

---
 peyl/braid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peyl/braid.py b/peyl/braid.py
index 222bee7..ccf55bb 100644
--- a/peyl/braid.py
+++ b/peyl/braid.py
@@ -84,6 +84,8 @@ class NFTable(Generic[T]):
         no D's appear at the start, no identities appear at the back, and
         every other pair (x, y) is in normal form.
         """
+        if not all(0 <= x < self.order for x in factors):
+            return False
         for i in range(len(factors) - 1):
             if not self.is_normalised[factors[i]][factors[i+1]]:
                 return False
-- 
2.43.0

