From 40d9d140a6f6c4becf4582aac9911dfb6ebc308c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 01/52] fix: convert sparse matrices and LinearOperators to
 dense and csr

Scipy removed spmatrix.A, and the converted LinearOperator was never stored.
---
 qsymm/linalg.py | 2 +-
 qsymm/model.py  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..6908506 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..82abd44 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -620,7 +620,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
@@ -632,10 +632,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From 7815239b27725d2bb71984663bd5fdb6f6a7814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 02/52] fix: compare sparse matrices without stored entries by
 value

The size of a sparse matrix is its number of stored entries, so the zero
matrix was equal to every matrix of the same shape.
---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6908506..b41cd89 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. Do not use `size`, for sparse
+    # matrices it is the number of stored entries.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From 588a8af8f329d9238d14be0f602fd13d396c5bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 03/52] fix: use the Frobenius norm for sparse matrices in
 eliminate_zeros

`**` is the matrix power for sparse matrices, nonzero nilpotent terms were
removed.
---
 qsymm/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 82abd44..8996c6c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -718,7 +718,9 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
-            return np.sqrt(np.sum(np.abs(mat)**2))
+            # `**` is the matrix power for sparse matrices
+            data = mat.tocoo().data if isinstance(mat, scipy.sparse.spmatrix) else mat
+            return np.sqrt(np.sum(np.abs(data)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
         result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}
-- 
2.43.0


From 5af454ae413db86a9a6279580827a71574058a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 04/52] fix: support sparse values in Model.around

---
 qsymm/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 8996c6c..1ab4ecf 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -586,8 +586,13 @@ class Model(UserDict):
         """Return Model with matrices rounded to given number of decimals."""
         result = self.zeros_like()
         for key, val in self.items():
-            val = np.around(val, decimals)
-            if not np.allclose(val, 0):
+            if isinstance(val, scipy.sparse.spmatrix):
+                val = val.tocoo(copy=True)
+                val.data = np.around(val.data, decimals)
+                val = self.format(val)
+            else:
+                val = np.around(val, decimals)
+            if not allclose(val, 0):
                 result[key] = val
         return result
 
-- 
2.43.0


From 5ae49de505620b6718db20a6750f49a5dcc43c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 05/52] fix: store an added constant under a key in standard
 form

Adding an array to a Model or BlochModel without constant term added the
integer 1 as a key, later operations on the result failed.
---
 qsymm/model.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 1ab4ecf..452d078 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -330,7 +330,7 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[self._constant_key()] += other
         else:
             raise NotImplementedError('Addition of {} with shape {} with {} not supported'.format(type(self), self.shape, type(other)))
         return result
@@ -345,11 +345,15 @@ class Model(UserDict):
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
             result = self.copy()
-            result[1] += other
+            result[self._constant_key()] += other
         else:
             raise NotImplementedError('Addition of {} with {} not supported'.format(type(self), type(other)))
         return result
 
+    def _constant_key(self):
+        # Key of the constant term in standard form
+        return One()
+
     def __neg__(self):
         result = self.zeros_like()
         result.data = {key: -val for key, val in self.items()}
@@ -842,6 +846,9 @@ class BlochModel(Model):
         else:
             return self.__missing__(key)
 
+    def _constant_key(self):
+        return BlochCoeff(np.zeros((len(self.momenta),)), One())
+
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
 
-- 
2.43.0


From 86e5b1357b70d240446a2af11424b74ec1d5f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 06/52] fix: avoid object arrays when multiplying Model by a
 sympy number

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 452d078..61e0810 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -365,6 +365,9 @@ class Model(UserDict):
     def __mul__(self, other):
         # Multiplication by numbers, sympy symbols, arrays and Model
         if isinstance(other, Number):
+            if isinstance(other, Basic):
+                # Sympy numbers would result in arrays of object dtype
+                other = complex(other)
             result = self.zeros_like()
             result.data = {key: val * other for key, val in self.items()}
         elif isinstance(other, Basic):
-- 
2.43.0


From a78c131a3203d9a25e3065c311a6c85818258178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 07/52] fix: require R of ContinuousGroupGenerator to be both
 Hermitian and antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..8b35e72 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -533,7 +533,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 11810120a1ed9b8b83a98b97f16027b8fcf5dbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 08/52] fix: avoid object arrays when dividing Model by a sympy
 number

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 61e0810..03a367b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -457,7 +457,7 @@ class Model(UserDict):
     def __truediv__(self, other):
         result = self.zeros_like()
         if isinstance(other, Number):
-            result.data = {key : val * (1/other) for key, val in self.items()}
+            result.data = {key : val * complex(1/other) for key, val in self.items()}
         else:
             raise TypeError(
                 "unsupported operand type for /: {} and {}".format(type(self), type(other)))
-- 
2.43.0


From 79e0e174d17208c625db62af0ed2cafb21b84905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 09/52] fix: print ContinuousGroupGenerator without U and with
 the right axis

The name was undefined if U is trivial, and rounding the already rounded
axis printed the wrong axis, for example [0 1 0] for [1 1 0].
---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 8b35e72..cbedcfa 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1038,7 +1038,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
@@ -1053,6 +1052,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From d362ebc333a4e68f491df73d0143a27e3a035fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 10/52] fix: find the angle of rotations with an axis whose
 components sum to zero

The sign of the direction was 0, so these were printed as 2-fold rotations
or gave a division by zero.
---
 qsymm/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index cbedcfa..ccbc365 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1079,14 +1079,14 @@ def rotation_to_angle(R):
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
     # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n *= (-1 if np.sum(n) < 0 else 1)
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From ead6a7890f09fd8c347bef04815dda754c28730a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 11/52] fix: map sites to their images in
 symmetry_from_permutation

The inverse permutation was constructed, which only agrees with the
documented {site: image_site} if the permutation is an involution.
---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index ccbc365..2bfb217 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1285,7 +1285,7 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From 8a9dde7840cc41ebe07cc5a00006514c7da6fa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 12/52] fix: make R and U of the exact 6-fold rotation in
 hexagonal consistent

R was the clockwise and U the counterclockwise rotation, as opposed to
sympy_R=False, where both are counterclockwise.
---
 qsymm/groups.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 2bfb217..919df76 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -820,8 +820,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         if sympy_R:
 
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2],
-                                         [-sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2],
+                                         [sympy.sqrt(3)/2,       sympy.Rational(1, 2)]]
                                                          ),
                                          False, False, U6)
         else:
@@ -832,8 +832,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         C2x = rotation(1/2, [1, 0, 0], spin=spin)
         if sympy_R:
             C6 = PointGroupElement(sympy.ImmutableMatrix(
-                                        [[sympy.Rational(1, 2), sympy.sqrt(3)/2, 0],
-                                         [-sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
+                                        [[sympy.Rational(1, 2), -sympy.sqrt(3)/2, 0],
+                                         [sympy.sqrt(3)/2, sympy.Rational(1, 2), 0],
                                          [0, 0, 1]]
                                                          ),
                                          False, False, U6)
-- 
2.43.0


From baa6b302d3c4b6a5061a0edc5beb763b67d4bf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 13/52] fix: evaluate exponentials in evalf of Model and
 BlochModel

---
 qsymm/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 03a367b..4ecfb0c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -621,7 +621,8 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(float(key.evalf(subs=subs)) * val for key, val in self.items())
+        return sum(complex(key.evalf(subs=subs).subs(e, np.e)) * val
+                   for key, val in self.items())
 
     def tocsr(self):
         """Convert to sparse csr format."""
@@ -883,6 +884,10 @@ class BlochModel(Model):
         If nsimplify=True, attempt to rewrite numerical coefficients as exact formulas."""
         return self.tomodel(nsimplify=nsimplify).tosympy(nsimplify)
 
+    def evalf(self, subs=None):
+        """Evaluate using parameter values in `subs`."""
+        return self.tomodel(nsimplify=False).evalf(subs=subs)
+
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
         return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
-- 
2.43.0


From 0677db5f73eeb39f74ab79df1554022d15afe012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 14/52] fix: evaluate numerical exponentials without other
 factors in Model.subs

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 4ecfb0c..a34e9e5 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -551,7 +551,7 @@ class Model(UserDict):
             # find all exponentials.
             key = sympy.expand(key, power_base=True, power_exp=True,
                                mul=True, log=False, multinomial=False)
-            find_expos = [ele for ele in key.args if ele.is_Pow]
+            find_expos = [ele for ele in sympy.Mul.make_args(key) if ele.is_Pow]
             if len(find_expos):
                 rest = key / np.prod(find_expos)
                 # If an exponential evaluates to a number, replace it with that number.
-- 
2.43.0


From 8284d4e075d9de7f7c2b7806acb65137ad4779dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 15/52] fix: find sparse null spaces of small matrices and of
 large dimension

---
 qsymm/linalg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index b41cd89..0c01609 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -227,7 +227,10 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-        if k_max > 0:
+        if k_max >= A.shape[0]:
+            # The sparse solver cannot find all the eigenvectors
+            evals, evecs = la.eigh(A.toarray())
+        elif k_max > 0:
             # If k_max is specified, find k_max smallest eigenvalues
             evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                      k=k_max, return_eigenvectors=True)
@@ -235,7 +238,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
             # Successively find more eigenvalues until some not close to zero
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
-            k_max = min(A.shape[0] - 2, k_step)
+            k_max = k_step
             while k_max < A.shape[0] - 1:
                 evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                          k=k_max, return_eigenvectors=True)
@@ -246,8 +249,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
                     # All small, need to increase k_max
                     k_max += k_step
             else:
-                raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
-                                 'Try using sparse=False.')
+                # The sparse solver cannot find (almost) all the eigenvectors
+                evals, evecs = la.eigh(A.toarray())
         else:
             raise ValueError('k_max must be nonzero.')
 
-- 
2.43.0


From 6368f4bd93b703634436c26d55bbec679dae696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 16/52] fix: return S from rref for zero matrices if requested

---
 qsymm/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 0c01609..c12912b 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -538,10 +538,10 @@ def rref(m, rtol = 1e-3, return_S=False):
         return P
 
     # Stop if m is identically zero
+    S = np.eye(rows, dtype=complex)
     if np.allclose(red, 0):
-        return red
+        return (red, S) if return_S else red
 
-    S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
 
     lead = 0
-- 
2.43.0


From 61afc61dc0fe5433083e65d4880ba41e5cfcb3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 17/52] fix: do not modify the symmetries passed to
 bloch_family

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..0c387e1 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -708,9 +708,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
-        pg = generate_group(set(pg))
+        # Do not modify the input symmetries.
+        pg = {PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg}
+        pg = generate_group(pg)
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-- 
2.43.0


From f944d4d383112a1539270dbb14016be04d0066d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 18/52] fix: enforce conserved quantities in bloch_family after
 symmetrization

Symmetrizing does not preserve conserved quantities that the point group
does not leave invariant, resulting in terms that break the symmetry.
---
 qsymm/hamiltonian_generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 0c387e1..c1232da 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -718,6 +718,10 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             if not term == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
+        # Symmetrization may break conserved quantities that are not
+        # invariant under the point group
+        if conserved:
+            family = constrain_family(conserved, family)
     else:
         # Constrain the terms by symmetry
         family = constrain_family(pg, remove_duplicates(family))
-- 
2.43.0


From de1e334166e303883d30c8c8e8fbd6e1e17d2651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 19/52] fix: keep custom momenta in the Models returned by
 continuum_pairing

The terms had the default momenta regardless of `momenta`. Also accept any
iterable of symmetries as documented.
---
 qsymm/hamiltonian_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c1232da..c93cba7 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -138,6 +138,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
+    symmetries = list(symmetries)
     if phases is None:
         phases = np.ones(len(symmetries))
     symmetries = deepcopy(symmetries)
@@ -152,6 +153,7 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
     ph = np.array([[0, 1], [ph_square, 0]])
     ph = PointGroupElement(np.eye(dim), True, True, np.kron(ph, np.eye(N)))
     symmetries.append(ph)
+    all_momenta = momenta
     momenta = momenta[:dim]
     momentum_variables = continuum_variables(dim, total_power, all_powers=all_powers, momenta=momenta)
     # matrix basis for all matrices in off-diagonal blocks
@@ -178,8 +180,8 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     # Cast the pairing terms into new Model objects, to ensure that each object has the correct
     # shape.
-    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}) for monomial in
-              family]
+    family = [Model({term: matrix[:N, N:] for term, matrix in monomial.items()}, momenta=all_momenta)
+              for monomial in family]
     return [mon for mon in family if len(mon)]
 
 
-- 
2.43.0


From b1083f5c9b6fe91d3a4c34301e7149781607bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 20/52] fix: solve matrix equations with complex conjugation
 over the reals

Without hermitian=True these were treated as complex linear, the result was
not a solution.
---
 qsymm/linalg.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index c12912b..c9d2401 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -409,6 +409,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
         If True, solve X HL[i] = HR[i] X^* instead.
         If a list with the same length as HL and HR is provided, conjugation
         is applied to the equations with index corresponding to the True entries.
+        In this case the solutions form a real vector space.
     sparse : bool  or None (default)
         Whether to use sparse linear algebra to find the null space.
         The default value is inferred from the type of the input array.
@@ -448,10 +449,19 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     if N == 0:
         return np.empty((0, dim, dim))
 
+    # Equations with conjugation are only linear over the reals, treat
+    # the real and imaginary parts of the coefficients as independent.
+    real_only = any(conjugate) and not hermitian
+
+    def _basis(sparse):
+        yield from matrix_basis(dim, traceless=traceless, sparse=sparse)
+        if real_only:
+            yield from matrix_basis(dim, traceless=traceless, antihermitian=True, sparse=sparse)
+
     # Prepare for differences in sparse and dense algebra
     if sparse:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
+            return _basis(sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
@@ -459,7 +469,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
+            return _basis(sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -476,7 +486,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if hermitian or real_only:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -486,7 +496,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     # Make all solutions
     # 'ij,jkl->ikl'
     def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
+        return _basis(sparse=False)
     return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
 
 
-- 
2.43.0


From 08897aada75e1d8052cf76e950fa6d1eb530d7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 21/52] fix: accept names of momenta as strings in the
 Hamiltonian generators

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index c93cba7..5890561 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -229,8 +229,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
@@ -671,6 +670,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
                          'only PointGroupElements that are defined with exact sympy '
                          'rotation matrices or use `bloch_model=True`.')
 
+    momenta = _find_momenta(tuple(momenta))
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
-- 
2.43.0


From 39987391e623869be1946a23aa2b4f7bb283ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:26 +0000
Subject: [PATCH 22/52] fix: reject particle-hole symmetry together with spin
 in hexagonal

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 919df76..9cf8064 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -811,6 +811,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
-- 
2.43.0


From b1adc4979cd1e47c8f5f6e580f93611c3bdd9381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:19 +0000
Subject: [PATCH 23/52] fix: reject spins that are not half-integer in
 spin_matrices

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 9cf8064..e69bdfc 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1145,9 +1145,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 830dfa89b292854f19a0f90e3e8109bb986a0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 24/52] fix: orient the d-orbital angular momentum as that of
 p-orbitals

---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index e69bdfc..d1c08ef 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1222,16 +1222,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 26eefe21ce550907b8dba2708bff77ff363aafa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:53 +0000
Subject: [PATCH 25/52] fix: keep the sparse format of Models in transposition

The transpose of a csr_matrix is a csc_matrix, such that the values did
not match the format of the Model, and H.T() + H raised ValueError.
---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index a34e9e5..0ecd9a7 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -575,6 +575,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # The transpose of some sparse formats is in a different format
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From b79c7652c424820dadee2581c3a1632a25d16e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:06 +0000
Subject: [PATCH 26/52] fix: copy the values of sparse Models

copy.copy of a sparse matrix shares its data array, so modifying the
values of a copy or a sum of sparse Models in place changed the original.
---
 qsymm/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 0ecd9a7..5b96fd1 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -323,9 +323,9 @@ class Model(UserDict):
             for key in self.keys() & other.keys():
                 result[key] = self[key] + other[key]
             for key in self.keys() - other.keys():
-                result[key] = copy(self[key])
+                result[key] = _copy_value(self[key])
             for key in other.keys() - self.keys():
-                result[key] = copy(other[key])
+                result[key] = _copy_value(other[key])
         elif ((isinstance(other, self.format) and self.shape == other.shape)
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
@@ -660,7 +660,7 @@ class Model(UserDict):
         # This is faster than deepcopy of the dict
         # Do not copy the keys, as Sympy objects (and BlochCoeffs) are
         # immutable anyway, and making a copy breaks equality checking and hashing.
-        result.data = {k: copy(v) for k, v in self.items()}
+        result.data = {k: _copy_value(v) for k, v in self.items()}
         return result
 
     def lambdify(self, nsimplify=False, *, onsite=False, hopping=False):
@@ -1027,6 +1027,13 @@ def _bloch_normalizer(key, momenta):
         return _to_bloch_coeff(key, momenta)
 
 
+def _copy_value(val):
+    # `copy.copy` of a sparse matrix shares its data with the original
+    if isinstance(val, scipy.sparse.spmatrix):
+        return val.copy()
+    return copy(val)
+
+
 def _shape_and_format(val):
     # Find shape and type of val
     format = type(val)
-- 
2.43.0


From f8438f4183af80fe5276c3d55cf7a890bb8170d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:06 +0000
Subject: [PATCH 27/52] fix: apply keep to the terms of Models given as
 expressions or normalized

keep was ignored for strings and sympy expressions, and with
normalize=True it was compared with keys before their normalization.
---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 5b96fd1..400394c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -196,9 +196,10 @@ class Model(UserDict):
 
         if isinstance(hamiltonian, abc.Mapping):
             # Initialize as dict sympifying the keys
+            # Coefficients are only in the form they have in `keep` after normalization
             self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
                               if symbol_normalizer(k) in self.keep
-                                 or not self.keep}
+                                 or not self.keep or normalize}
 
         else:
             # Try to parse the input with kwant_continuum.sympify
@@ -262,6 +263,8 @@ class Model(UserDict):
                     self[new_key] += new_val
             # remove zero entries, apply symbol_normalizer
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            if self.keep:
+                self.data = {k: v for k, v in self.items() if k in self.keep}
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
-- 
2.43.0


From 7e83273abb9f3846d66441fcebc4c4eec03d3672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:56 +0000
Subject: [PATCH 28/52] fix: support LinearOperators in Model.evalf

---
 qsymm/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 400394c..02a2817 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -627,8 +627,10 @@ class Model(UserDict):
 
     def evalf(self, subs=None):
         """Evaluate using parameter values in `subs`."""
-        return sum(complex(key.evalf(subs=subs).subs(e, np.e)) * val
-                   for key, val in self.items())
+        terms = [complex(key.evalf(subs=subs).subs(e, np.e)) * val
+                 for key, val in self.items()]
+        # LinearOperators cannot be added to the number 0
+        return sum(terms[1:], terms[0]) if terms else 0
 
     def tocsr(self):
         """Convert to sparse csr format."""
-- 
2.43.0


From 6cd9e38405d9b97493ea3cb670402d93eba4a948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:12 +0000
Subject: [PATCH 29/52] fix: compare BlochCoeff with symbols that have the same
 hash

BlochCoeff has the hash of its symbolic part, so looking up either of them
in a dict or cache that contains the other one raised TypeError.
---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 02a2817..f9866e5 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -73,6 +73,9 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        # Other objects may have the same hash, for example `coeff1`
+        if not isinstance(other, tuple):
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
-- 
2.43.0


From 539f1e472f25b70c70aa6a21cd5b3ea88e964b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:24 +0000
Subject: [PATCH 30/52] fix: compare Models with small terms term by term in
 allclose

---
 qsymm/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index f9866e5..5152842 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -720,7 +720,8 @@ class Model(UserDict):
 
     def allclose(self, other, rtol=1e-05, atol=1e-08, equal_nan=False):
         """Test whether two Models are approximately equal"""
-        if other == {} or other == 0:
+        # A Model with small but nonzero terms has to be compared term by term
+        if other.data == {} if isinstance(other, Model) else (other == {} or other == 0):
             if self.data == {}:
                 return True
             else:
-- 
2.43.0


From fe10c89faf1a1867a67370a0a2f2f6cc0ada8ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 31/52] fix: include the variables of the family in the
 constraints of constrain_family

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5890561..980d32d 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -420,7 +420,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From 9ec783db2f229d9493a1780eb9ff8c88e9c76ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 32/52] fix: print zero-dimensional PointGroupElements

---
 qsymm/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index d1c08ef..2e8eb18 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -921,7 +921,9 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        rot_name = '1'
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From 08b21d2787ce86087c346bd96601bf2fdcec4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 33/52] fix: do not repeat constants at higher powers in zero
 dimensions

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 980d32d..7583b26 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -224,7 +224,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From 90a4ac36830f6244db46cfe96665eddf66959e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 34/52] fix: accept iterators in continuum_hamiltonian and
 check_symmetry

---
 qsymm/hamiltonian_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 7583b26..b2f3266 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -60,7 +60,8 @@ def continuum_hamiltonian(symmetries, dim, total_power, all_powers=None,
         total_power = range(max_power + 1)
 
     # Generate a Hamiltonian family
-    N = list(symmetries)[0].U.shape[0] # Dimension of Hamiltonian matrix
+    symmetries = list(symmetries)
+    N = symmetries[0].U.shape[0] # Dimension of Hamiltonian matrix
     momenta = momenta[:dim]
     # Symmetries do not mix the total degree of momenta. We can thus work separately at each
     # fixed degree.
@@ -362,6 +363,7 @@ def check_symmetry(family, symmetries, num_digits=None):
     """
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
+    family = list(family)
     for symmetry in symmetries:
         # Iterate over all members of the family
         for member in family:
-- 
2.43.0


From 2dddfcbd7bc92e9c1bdc5b0912bd17fd7deef657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:45 +0000
Subject: [PATCH 35/52] fix: find all of degenerate null space vectors in
 sparse nullspace

---
 qsymm/linalg.py | 67 +++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 33 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index c9d2401..18bbb91 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -227,40 +227,41 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-        if k_max >= A.shape[0]:
-            # The sparse solver cannot find all the eigenvectors
-            evals, evecs = la.eigh(A.toarray())
-        elif k_max > 0:
-            # If k_max is specified, find k_max smallest eigenvalues
-            evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                     k=k_max, return_eigenvectors=True)
-        elif k_max < 0:
-            # Successively find more eigenvalues until some not close to zero
-            # Number of new null space vectors to find in each step
-            k_step = abs(k_max)
-            k_max = k_step
-            while k_max < A.shape[0] - 1:
-                evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
-                                         k=k_max, return_eigenvectors=True)
-                if np.max(np.abs(evals)) > atol:
-                    # We found the first large one
-                    break
-                else:
-                    # All small, need to increase k_max
-                    k_max += k_step
-            else:
-                # The sparse solver cannot find (almost) all the eigenvectors
-                evals, evecs = la.eigh(A.toarray())
-        else:
+        if k_max == 0:
             raise ValueError('k_max must be nonzero.')
-
-        # Only keep eigenvectors with small eigenvalues
-        nnz = np.isclose(evals, 0, atol=atol)
-        ns = evecs[:, nnz]
-        # Orthonormalize null space
-        if ns.shape[1] > 0:
-            ns, _ = la.qr(ns, mode='economic')
-        return ns.T
+        # Number of new null space vectors to find in each step
+        k_step = abs(k_max)
+        # Maximum number of null space vectors
+        max_dim = k_max if k_max > 0 else A.shape[0]
+        # The sparse solver cannot find (almost) all the eigenvectors
+        dense = k_step >= A.shape[0] - 1
+        if not dense:
+            ns = np.empty((A.shape[0], 0))
+            solve = sla.splu((A - sigma * scipy.sparse.eye(A.shape[0])).tocsc()).solve
+
+            def shift_invert(x):
+                # The sparse solver may miss some eigenvectors of a degenerate eigenvalue.
+                # Project out the ones that are already found to find the missing ones.
+                x = solve(x - ns @ (ns.T.conj() @ x))
+                return x - ns @ (ns.T.conj() @ x)
+
+            op = sla.LinearOperator(A.shape, matvec=shift_invert, dtype=A.dtype)
+            while ns.shape[1] < max_dim:
+                try:
+                    evals, evecs = sla.eigsh(op, which='LA', k=k_step)
+                except sla.ArpackError:
+                    dense = True
+                    break
+                # Only keep eigenvectors with small eigenvalues of A
+                evecs = evecs[:, evals > 1 / (atol - sigma)]
+                if evecs.shape[1] == 0:
+                    break
+                # Orthonormalize null space
+                ns, _ = la.qr(np.hstack((ns, evecs)), mode='economic')
+        if dense:
+            evals, evecs = la.eigh(A.toarray())
+            ns = evecs[:, np.isclose(evals, 0, atol=atol)]
+        return ns[:, :max_dim].T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
             A = A.toarray()
-- 
2.43.0


From a2dc3e6f8d487e22b138b21cf9d90a0e70716a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 36/52] fix: support sympy hopping vectors in bloch_family with
 bloch_model=True

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index b2f3266..697f369 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -688,7 +688,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))
         block_basis = np.concatenate((block_basis, 1j*block_basis))
         if bloch_model:
-            bloch_coeff = BlochCoeff(np.array(vec), sympy.sympify(1))
+            bloch_coeff = BlochCoeff(np.array(vec, dtype=float), sympy.sympify(1))
         else:
             # Hopping direction in real space
             # Dot product with momentum vector
-- 
2.43.0


From d81c426880ccaa7733542b54ac3133ee9f30890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:24 +0000
Subject: [PATCH 37/52] fix: do not round symmetrized terms in bloch_family
 before removing duplicates

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 697f369..7fa2006 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -718,7 +718,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
+            # Do not round, that would make linearly dependent terms independent
+            term = symmetrize_monomial(term, pg).eliminate_zeros(rtol=0, atol=10**(-num_digits))
             if not term == {}:
                 family2.append(term)
         family = remove_duplicates(family2, tol=10**(-num_digits))
-- 
2.43.0


From c14202ddd293cd9c0caac615474d6d9df08cf5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 38/52] fix: constrain diagonal hoppings in bloch_family
 without symmetrization

---
 qsymm/hamiltonian_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 7fa2006..157bafa 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -702,7 +702,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             if bloch_model:
                 term = BlochModel({bloch_coeff: matrix}, momenta=momenta[:dim])
             else:
-                term = Model({factor: matrix}, momenta=momenta[:dim])
+                # Keys have to be in standard form to be comparable with those of
+                # the symmetry images
+                term = Model({factor: matrix}, momenta=momenta[:dim], normalize=True)
             term = term + term.T().conj()
             hopfamily.append(term)
         # If there are conserved quantities, constrain the hopping, it is assumed that
-- 
2.43.0


From d0d32c588cb714d2b48a56ab2b679aae988a1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:36 +0000
Subject: [PATCH 39/52] fix: generate families without point group symmetries
 in bloch_family and constrain_family

---
 qsymm/hamiltonian_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 157bafa..3fb8872 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -404,6 +404,8 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    if not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -712,7 +714,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         if conserved:
             hopfamily = constrain_family(conserved, hopfamily)
         family.extend(hopfamily)
-    if symmetrize:
+    if symmetrize and pg:
         # Make sure that group is generated while keeping track of unitary part.
         # Do not modify the input symmetries.
         pg = {PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True) for g in pg}
-- 
2.43.0


From db86c73d8d5fcd416d1213a4310e90786ae48a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 40/52] fix: keep generators of the center Hermitian in
 separate_lie_algebra

Rounding errors made the basis of the null space of the Killing form
complex, so conserved quantities were not Hermitian and inaccurate.
---
 qsymm/symmetry_finder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..2e2446b 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -158,7 +158,9 @@ def separate_lie_algebra(gens):
     genss : ndarray
         generators of semisimple part, shape (ms, N, N)
     """
-    g = killing(gens)
+    # The Killing form of a real Lie-algebra is real. Rounding errors would make
+    # the basis of its null space, and the generators of the center, complex.
+    g = np.real_if_close(killing(gens), tol=1e6)
     c, s = nullspace(g, return_complement=True)
     # 'ab,bij->aij'
     gensc = np.tensordot(c, gens, axes=(1, 0))
-- 
2.43.0


From 5fe0669bd9879ffb14fee549b52d16cf76b587d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 41/52] fix: find continuous rotations of Hamiltonians with
 one-dimensional blocks

Blocks of dimension 1 have no Hilbert space generators, and
continuous_symmetries raised ValueError for decoupled bands.
---
 qsymm/symmetry_finder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 2e2446b..82a80a6 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -721,9 +721,13 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
 
         # Iterate over all reduced hamiltonians transformed by only hilbert space part
         R = None
-        Ls = matrix_basis(blockdim, traceless=True)
-        trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if blockdim > 1:
+            Ls = matrix_basis(blockdim, traceless=True)
+            trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.empty((len(Rblock), 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From 74f5abc4a4e00e7c34a860f27b3ac94248b9f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 42/52] fix: account for rounding of prettified continuous
 rotations in the final check

continuous_symmetries raised AssertionError for prettify=True with
num_digits <= 6, because the rounded generators were compared with the
precision of the unrounded ones.
---
 qsymm/symmetry_finder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 82a80a6..732118f 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -739,6 +739,11 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
     null_vecs = nullspace(constraints, sparse=sparse_linalg)
     if prettify:
         null_vecs = sparse_basis(null_vecs, reals=False, num_digits=num_digits)
+    # Precision of the generators, prettified ones are rounded
+    atol = 1e-6
+    if prettify:
+        norm = max((abs(H).max() for H in model.values()), default=0)
+        atol += constraints.shape[1] * norm * 10**(-num_digits)
 
     # Build the symmetry generator
     symmetries = []
@@ -758,7 +763,7 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
         symmetries.append(g)
         # Check that it is a symmetry
         trf = g.apply(model)
-        assert trf.allclose(0, atol=1e-6), (trf, g)
+        assert trf.allclose(0, atol=atol), (trf, g)
     return PrettyList(symmetries)
 
 
-- 
2.43.0


From 54995b2daf4198cf5b1c9103833b3c3a52390993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 43/52] fix: apply continuous generators with both parts to
 sparse Models

The commutator of sparse values with dense generators is dense and could
not be added to the derivative, so continuous_symmetries failed for all
sparse Models with rotation symmetry.
---
 qsymm/groups.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 2e8eb18..1ec2ae9 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -7,6 +7,7 @@ from numbers import Number
 from collections import OrderedDict
 
 import numpy as np
+import scipy.sparse
 import tinyarray as ta
 import scipy.linalg as la
 import sympy
@@ -571,7 +572,13 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            commutator = model @ (1j*U) + (-1j*U) @ model
+            if issubclass(model.format, scipy.sparse.spmatrix):
+                # Products of sparse and dense matrices are dense
+                sparse = model.zeros_like()
+                sparse.data = {key: model.format(val) for key, val in commutator.items()}
+                commutator = sparse
+            result += commutator
         return result
 
 
-- 
2.43.0


From ee1df8b900d9d8d7c72b815597b6eab77b1c4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:23 +0000
Subject: [PATCH 44/52] fix: make bravais_point_group independent of the unit
 of length

Absolute tolerances gave wrong groups or AssertionErrors for periods much
shorter than 1, and lost symmetries of periods much longer than 1.
---
 qsymm/symmetry_finder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 732118f..3257a11 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -829,6 +829,8 @@ def bravais_point_group(periods, tr=False, ph=False, generators=False, verbose=F
 
     # get lll reduced basis
     periods, _ = lll(periods)
+    # The point group does not depend on the unit of length
+    periods = periods / np.min(la.norm(periods, axis=1))
     # get nearest neighbors
     neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods
     neighbors = neighbors[:len(neighbors)//2]
-- 
2.43.0


From d5f8112ead3aba3a319b191b33efa5eb86e73921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 45/52] fix: invert all integer matrices with determinant 1 or
 -1

The determinant was compared with 1 without allowing for rounding errors, so
inverses of rotations in skewed lattice bases raised ValueError.
---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 18bbb91..b40f479 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -632,6 +632,7 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    # The determinant is an integer up to rounding errors
+    if _A != A or abs(np.round(la.det(A))) != 1:
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From beef7bed99578a83a32d4f62d99c280baaec2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 46/52] fix: respect k_max in the sparse null space of a
 vanishing matrix

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index b40f479..3780fe4 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -223,7 +223,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         A.eliminate_zeros()
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
-            return np.eye(A.shape[1])
+            return np.eye(A.shape[1])[:k_max if k_max > 0 else None]
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
-- 
2.43.0


From 26d677eb5f7e013ee59d2243db6acf71a0b05500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 47/52] fix: check_symmetry ignored num_digits for continuous
 symmetries

---
 qsymm/hamiltonian_generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 3fb8872..5fd78bd 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -376,7 +376,10 @@ def check_symmetry(family, symmetries, num_digits=None):
                         fail()
             elif isinstance(symmetry, ContinuousGroupGenerator):
                 # Continous symmetry if applying it returns zero
-                if symmetry.apply(member) != {}:
+                result = symmetry.apply(member)
+                if num_digits is not None:
+                    result = result.around(num_digits)
+                if result != {}:
                     fail()
 
 
-- 
2.43.0


From 345095d81e7cd3565342c93a910fe445faeee775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:44 +0000
Subject: [PATCH 48/52] fix: lambdify of expressions that contain a function
 with several arguments raised SyntaxError

---
 qsymm/kwant_continuum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 7d16e30..5e67e30 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -101,8 +101,8 @@ def lambdify(expr, locals=None):
     """
     expr = sympify(expr, locals)
 
-    args = [s.name for s in expr.atoms(sympy.Symbol)]
-    args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
+    args = {s.name for s in expr.atoms(sympy.Symbol)}
+    args |= {str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)}
 
     return sympy.lambdify(sorted(args), expr)
 
-- 
2.43.0


From d8e0f2f4b834e799de6bfd326954403c39aae49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 49/52] fix: != of Bloch coefficients compared the elements of
 tuples and raised ValueError

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 5152842..b6d865a 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -80,6 +80,10 @@ class BlochCoeff(tuple):
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
 
+    def __ne__(self, other):
+        # `tuple.__ne__` would compare the elements of the arrays
+        return not self == other
+
     def __mul__(self, other):
         hop1, coeff1 = self
         if isinstance(other, sympy.Expr):
-- 
2.43.0


From 2c4a1e7819253dff2f3e60d1dfd9ca7e81b7f217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 50/52] fix: pickling or deep copying BlochModels raised
 TypeError

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index b6d865a..d2f93a7 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -65,6 +65,10 @@ class BlochCoeff(tuple):
             raise ValueError('`coeff` must be a single term with no sum.')
         return super(BlochCoeff, cls).__new__(cls, [hop, coeff])
 
+    def __getnewargs__(self):
+        # Pickling and deep copies call `__new__` with these arguments
+        return tuple(self)
+
     def __hash__(self):
         # only hash coeff
         return hash(self[1])
-- 
2.43.0


From 98f9744a80108082480394d5c9d7c67a439a8760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:37 +0000
Subject: [PATCH 51/52] fix: substitution of momenta by name, by equal symbols,
 simultaneously or from iterators gave wrong momenta

---
 qsymm/model.py | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index d2f93a7..017903b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -533,28 +533,42 @@ class Model(UserDict):
         momenta.
         """
         # Allowed inputs are an old, new pair, or
-        # a list or dictionary of old, new pairs.
+        # an iterable or dictionary of old, new pairs.
         # Bring them all to the form of a list of old, new pairs.
         if len(args) == 2:  # Input is a single pair
-            args = ([(args[0], args[1])], )
+            pairs = [args]
         elif isinstance(args[0], dict): # Input is a dictionary
-            args = ([(key, value) for key, value in args[0].items()], )
+            pairs = args[0].items()
+        else:
+            pairs = args[0]
+        # Strings are interpreted in the same way as by ``sympy.Expr.subs()``
+        pairs = [(sympy.Symbol(old) if isinstance(old, str) else old,
+                  sympy.sympify(new) if isinstance(new, str) else new)
+                 for old, new in pairs]
+        args = (pairs, )
+
+        def substitute_momenta(momenta, replacements):
+            result = []
+            symbols = {*momenta, *(replacements[k] for k in momenta
+                                   if isinstance(replacements.get(k), sympy.Symbol))}
+            for momentum in momenta:
+                new = replacements.get(momentum, momentum)
+                # Substitution of a momentum variable with a symbol
+                # is a renaming of the momentum.
+                if isinstance(new, sympy.Symbol):
+                    result.append(new)
+                # If no momenta appear in the replacement for a momentum, or it
+                # is not a sympy object, we consider that momentum removed.
+                elif isinstance(new, sympy.Basic) and new.atoms(sympy.Symbol) & symbols:
+                    result.append(momentum)
+            return tuple(result)
 
         momenta = self.momenta
-        for (old, new) in args[0]:
-            # Substitution of a momentum variable with a symbol
-            # is a renaming of the momentum.
-            if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
-                                for momentum in momenta)
-            # If no momenta appear in the replacement for a momentum, we consider
-            # that momentum removed.
-            # Replacement is not a sympy object.
-            elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
-            # Replacement is a sympy object, but does not contain momenta.
-            elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+        if kwargs.get('simultaneous', False):
+            momenta = substitute_momenta(momenta, dict(pairs))
+        else:
+            for old, new in pairs:
+                momenta = substitute_momenta(momenta, {old: new})
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From 74b6558436323f5a12b478a9c0372694ca1d2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:44 +0000
Subject: [PATCH 52/52] fix: 1x1 matrices of the circular ensemble D with given
 charge

Negate a row to change the sign of the determinant instead of swapping
two, which raised IndexError if there is only one.
---
 qsymm/kwant_rmt.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..2535fc6 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -281,10 +281,7 @@ def circular(n, sym='A', charge=None, rng=None):
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
         if (charge > 0) != (det > 0):
-            idx = np.arange(n)
-            idx[-1] -= 1
-            idx[-2] += 1
-            s = s[idx]
+            s[-1] *= -1
 
     # Add the proper time-reversal symmetry:
     if sym in ('AI', 'CI'):
-- 
2.43.0

