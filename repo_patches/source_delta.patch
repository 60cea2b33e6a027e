From 8138324f4b24f1e9ed7d27f972882360cd3ac03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 01/56] fix: make kwant_continuum.sympify safe for concurrent
 callers

The function temporarily replaces the process-global sympy converter for
lists. Two threads doing so at the same time could parse with the wrong
converter, raise KeyError, or leave the replacement installed for good.
---
 qsymm/kwant_continuum.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 7d16e30..e5027a5 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -36,6 +36,7 @@
 
 
 import keyword
+import threading
 from collections import defaultdict
 
 import numpy as np
@@ -68,6 +69,10 @@ del extra_ns['I']
 del extra_ns['pi']
 
 
+# Protects the temporary replacement of the (global) sympy list converter.
+_converter_lock = threading.RLock()
+
+
 ################  Helpers to handle sympy
 
 def lambdify(expr, locals=None):
@@ -210,21 +215,22 @@ def sympify(expr, locals=None):
 
     for k, v in extra_ns.items():
         locals.setdefault(k, v)
-    try:
-        stored_value = converter.pop(list, None)
-        converter[list] = lambda x: sympy.Matrix(x)
-        hamiltonian = sympy.sympify(expr, locals=locals)
-        # if input is for example ``[[k_x * A(x) * k_x]]`` after the first
-        # sympify we are getting list of sympy objects, so we call sympify
-        # second time to obtain ``sympy`` matrices.
-        hamiltonian = sympy.sympify(hamiltonian)
-        # A workaround for qsymm issue #48
-        hamiltonian = hamiltonian.subs(sympy.sympify('e'), e)
-    finally:
-        if stored_value is not None:
-            converter[list] = stored_value
-        else:
-            del converter[list]
+    with _converter_lock:
+        try:
+            stored_value = converter.pop(list, None)
+            converter[list] = lambda x: sympy.Matrix(x)
+            hamiltonian = sympy.sympify(expr, locals=locals)
+            # if input is for example ``[[k_x * A(x) * k_x]]`` after the first
+            # sympify we are getting list of sympy objects, so we call sympify
+            # second time to obtain ``sympy`` matrices.
+            hamiltonian = sympy.sympify(hamiltonian)
+            # A workaround for qsymm issue #48
+            hamiltonian = hamiltonian.subs(sympy.sympify('e'), e)
+        finally:
+            if stored_value is not None:
+                converter[list] = stored_value
+            else:
+                del converter[list]
 
     return hamiltonian
 
-- 
2.43.0


From ac7b1f79cf4bb8ba5c8efdcda9ab6ad302dd4106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 02/56] fix: make BlochCoeff and BlochModel picklable and
 deepcopy-able

---
 qsymm/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index fdb6b1d..72e31cd 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -65,6 +65,10 @@ class BlochCoeff(tuple):
             raise ValueError('`coeff` must be a single term with no sum.')
         return super(BlochCoeff, cls).__new__(cls, [hop, coeff])
 
+    def __getnewargs__(self):
+        # Needed for pickling and deepcopy, as __new__ takes two arguments.
+        return tuple(self)
+
     def __hash__(self):
         # only hash coeff
         return hash(self[1])
-- 
2.43.0


From ead8a31bda0178733666c9234123db4b34bf5441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 03/56] fix: convert sparse and LinearOperator Models correctly

toarray and nullspace used the .A attribute that sparse matrices no longer
have, and toarray/tocsr dropped the terms of LinearOperator Models.
---
 qsymm/linalg.py | 2 +-
 qsymm/model.py  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index f4a125e..6908506 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -259,7 +259,7 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-            A = A.A
+            A = A.toarray()
         # Do dense SVD
         _, s, vh = la.svd(A, full_matrices = True)
         nnz = np.isclose(s, 0, atol=atol)
diff --git a/qsymm/model.py b/qsymm/model.py
index 72e31cd..203f132 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -624,7 +624,7 @@ class Model(UserDict):
                 result[key] = scipy.sparse.csr_matrix(val, dtype=complex)
             else:
                 # LinearOperator doesn't support multiplication with sparse matrix
-                val = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
+                result[key] = scipy.sparse.csr_matrix(val @ np.eye(val.shape[-1], dtype=complex), dtype=complex)
         return result
 
     def toarray(self):
@@ -636,10 +636,10 @@ class Model(UserDict):
                 result[key] = val
             elif isinstance(val, Number):
                 result[key] = np.asarray(val)
-            elif scipy.sparse.spmatrix:
-                result[key] = val.A
+            elif isinstance(val, scipy.sparse.spmatrix):
+                result[key] = val.toarray()
             else:
-                 val = val @ np.eye(val.shape[-1], dtype=complex)
+                result[key] = val @ np.eye(val.shape[-1], dtype=complex)
         return result
 
     def copy(self):
-- 
2.43.0


From 3c72efae8b78d940363f74444c4916aa0bffad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 04/56] fix: bloch_family no longer modifies the symmetries
 passed to it

---
 qsymm/hamiltonian_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5e01e13..558fffe 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -708,9 +708,9 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         family.extend(hopfamily)
     if symmetrize:
         # Make sure that group is generated while keeping track of unitary part.
-        for g in pg:
-            g._strict_eq = True
-        pg = generate_group(set(pg))
+        # Do not modify the elements that belong to the caller.
+        pg = generate_group({PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True)
+                             for g in pg})
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-- 
2.43.0


From c9fd7ad7e372f0d47a8620f6e401d8f219e393a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 05/56] fix: compare momenta by value in Model.subs

Equal sympy symbols need not be the same object (sympy may evict them from
its cache), in which case the momentum was substituted but not removed.
---
 qsymm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 203f132..65b876f 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -528,16 +528,16 @@ class Model(UserDict):
             # Substitution of a momentum variable with a symbol
             # is a renaming of the momentum.
             if old in momenta and isinstance(new, sympy.Symbol):
-                momenta = tuple(momentum if old is not momentum else new
+                momenta = tuple(momentum if old != momentum else new
                                 for momentum in momenta)
             # If no momenta appear in the replacement for a momentum, we consider
             # that momentum removed.
             # Replacement is not a sympy object.
             elif not isinstance(new, sympy.Basic):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
             # Replacement is a sympy object, but does not contain momenta.
             elif not any([momentum in new.atoms() for momentum in momenta]):
-                momenta = tuple(momentum for momentum in momenta if old is not momentum)
+                momenta = tuple(momentum for momentum in momenta if old != momentum)
         substituted = self.transform_symbolic(lambda x: x.subs(*args, **kwargs))
         substituted.momenta = momenta
         # If there are exponentials, evaluate any numerical exponents,
-- 
2.43.0


From 902774873539f35cf07f358f54a954be1915c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 06/56] fix: sense of the spin rotation in
 hexagonal(sympy_R=True, spin=...)

The exact C6 rotates real space clockwise, but its spin action was
counterclockwise.
---
 qsymm/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 34eafd1..a76d742 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -812,7 +812,8 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
     if spin is not None and sympy_R:
-        U6 = spin_rotation(np.pi / 3 * np.array([0, 0, 1]), spin)
+        # The exact rotation matrices below are clockwise.
+        U6 = spin_rotation(-np.pi / 3 * np.array([0, 0, 1]), spin)
     else:
         U6 = None
     if dim == 2:
-- 
2.43.0


From 202b89be4970879e9bcc2c7acc3fe6668105aa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 07/56] fix: printing of continuous rotation generators without
 onsite action

---
 qsymm/groups.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a76d742..29b5253 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1054,6 +1054,8 @@ def pretty_print_cgg(g, latex=False):
             L_name = r'L = {} \\'.format(_array_to_latex(np.round(L, 3)))
         else:
             L_name = '\nL = {}'.format(str(np.round(L, 3)).replace('\n', '\n    '))
+    else:
+        L_name = ''
 
     if latex:
         if R is not None:
-- 
2.43.0


From 800f192d82b1897ee6b2654f222d3798115fdac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:02 +0000
Subject: [PATCH 08/56] fix: symmetry_from_permutation maps each site to its
 image site

The unitary was built with the inverse of the documented permutation, which
is only correct for permutations that are their own inverse.
---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 29b5253..a82334e 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1287,7 +1287,7 @@ def symmetry_from_permutation(R, perm, norbs, onsite_action=None,
     for a in norbs.keys():
         if not norbs[a] == norbs[perm[a]]:
             raise ValueError('Symmetry related sites must have the same number or orbitals')
-        U[ranges[a], ranges[perm[a]]] = onsite_action[a]
+        U[ranges[perm[a]], ranges[a]] = onsite_action[a]
     g = PointGroupElement(R, antiunitary, antisymmetry, U)
     return g
 
-- 
2.43.0


From dbb42dba464b2064b45c2d22371d9cfd1898a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 09/56] fix: version lookup must not hang on or fail because of
 git

Read the output of git before waiting for it (waiting first can deadlock on
a full pipe and leaks the pipes), and treat a top-level directory that cannot
be examined as not ours instead of failing the import.
---
 qsymm/_version.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qsymm/_version.py b/qsymm/_version.py
index d4de10e..a7c5b0e 100644
--- a/qsymm/_version.py
+++ b/qsymm/_version.py
@@ -60,10 +60,14 @@ def get_version_from_git():
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)
     except OSError:
         return
-    if p.wait() != 0:
+    toplevel = p.communicate()[0].decode().rstrip('\n')
+    if p.returncode != 0:
         return
-    if not os.path.samefile(p.communicate()[0].decode().rstrip('\n'),
-                            distr_root):
+    try:
+        same_root = os.path.samefile(toplevel, distr_root)
+    except OSError:
+        return
+    if not same_root:
         # The top-level directory of the current Git repository is not the same
         # as the root directory of the distribution: do not extract the
         # version from Git.
@@ -78,11 +82,12 @@ def get_version_from_git():
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE)
         except OSError:
             return
-        if p.wait() == 0:
+        description = p.communicate()[0]
+        if p.returncode == 0:
             break
     else:
         return
-    description = p.communicate()[0].decode().strip('v').rstrip('\n')
+    description = description.decode().strip('v').rstrip('\n')
 
     release, dev, git = description.rsplit('-', 2)
     labels = []
-- 
2.43.0


From 0c7ac5cace5c0f3c5553924279f32fe29742e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:57 +0000
Subject: [PATCH 10/56] fix: ContinuousGroupGenerator rejects R that is not
 Hermitian antisymmetric

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a82334e..fd36153 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -533,7 +533,7 @@ class ContinuousGroupGenerator:
 
     def __init__(self, R=None, U=None):
         # Make sure that R and U have correct properties
-        if R is not None and not _is_hermitian(R) and not _is_antisymmetric(R):
+        if R is not None and not (_is_hermitian(R) and _is_antisymmetric(R)):
             raise ValueError('R must be Hermitian antisymmetric')
         if U is not None and not _is_hermitian(U):
             raise ValueError('U must be Hermitian')
-- 
2.43.0


From 3034ea0f8806855ef861da02048d40fa486947d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:38 +0000
Subject: [PATCH 11/56] fix: continuous_symmetries with one-dimensional blocks

---
 qsymm/symmetry_finder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3dfc11e..3b6575c 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -719,9 +719,13 @@ def continuous_symmetries(model, Ps=None, prettify=True, num_digits=8, sparse_li
 
         # Iterate over all reduced hamiltonians transformed by only hilbert space part
         R = None
-        Ls = matrix_basis(blockdim, traceless=True)
-        trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
-        Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        if blockdim > 1:
+            Ls = matrix_basis(blockdim, traceless=True)
+            trf_hams = [ContinuousGroupGenerator(R, L).apply(rham) for L in Ls]
+            Lblock = family_to_vectors(trf_hams, all_keys=keys).T
+        else:
+            # There is no action in a 1D block
+            Lblock = np.empty((Rblock.shape[0], 0))
         Lblocks.append(Lblock)
 
     # Build constraint matrix: first the spatial blocks in a column, then the
-- 
2.43.0


From 98cc2238541041f0d6f93364dbabf8b758adab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 12/56] fix: comparison of sparse matrices without stored
 entries

---
 qsymm/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6908506..2f03228 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -47,8 +47,9 @@ def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
     elif isinstance(b, sla.LinearOperator):
         b = b @ np.eye(a.shape[-1], dtype=complex)
 
-    # Check if empty arrays, only compare shape
-    if a.size == 0:
+    # Check if empty arrays, only compare shape. Note that `size` of a
+    # sparse matrix is the number of its stored entries.
+    if 0 in a.shape:
         return a.shape == b.shape
     atol = atol + rtol * max(np.max(np.abs(a)), np.max(np.abs(b)))
     diff = a - b
-- 
2.43.0


From 12f96e132b465870876e26229392b4dbaf952d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 13/56] fix: ContinuousGroupGenerator.apply on sparse Models

---
 qsymm/groups.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index fd36153..5df38ae 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -9,6 +9,7 @@ from collections import OrderedDict
 import numpy as np
 import tinyarray as ta
 import scipy.linalg as la
+import scipy.sparse
 import sympy
 from sympy.matrices.matrices import MatrixBase
 
@@ -571,7 +572,11 @@ class ContinuousGroupGenerator:
                           for i, j in product(range(dim), repeat=2)])
             result += 1j * model.transform_symbolic(trf)
         if U_nonzero:
-            result += model @ (1j*U) + (-1j*U) @ model
+            if issubclass(model.format, scipy.sparse.spmatrix):
+                # Keep the result in the format of the model
+                U = model.format(U)
+            # Sparse matrices do not defer to Model in (-1j*U) @ model
+            result += model @ (1j*U) + model.__rmatmul__(-1j*U)
         return result
 
 
-- 
2.43.0


From c453c81323544ceed58e5fcc9163eaf77ea5157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 14/56] fix: accept momenta given as strings in Hamiltonian
 generators

---
 qsymm/hamiltonian_generator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 558fffe..765cc8f 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -7,7 +7,7 @@ from copy import deepcopy
 import tinyarray as ta
 
 from .linalg import matrix_basis, nullspace, family_to_vectors, rref, allclose
-from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, e, I
+from .model import Model, BlochModel, BlochCoeff, _commutative_momenta, _find_momenta, e, I
 from .groups import PointGroupElement, ContinuousGroupGenerator, generate_group
 from . import kwant_continuum
 
@@ -227,8 +227,7 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
     else:
-        momenta = [kwant_continuum.make_commutative(k, k)
-                        for k in momenta]
+        momenta = _find_momenta(tuple(momenta))
 
     # Generate powers for all terms
     powers = [p for p in it.product(*all_powers) if sum(p) == total_power]
@@ -672,6 +671,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
     # Check dimensionality
     dim = len(hopping_vectors[0][-1])
     assert all([len(hop[-1]) == dim for hop in hopping_vectors])
+    momenta = _find_momenta(tuple(momenta[:dim]))
 
     # Add zero hoppings for onsites
     if onsites:
@@ -689,16 +689,16 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             # Hopping direction in real space
             # Dot product with momentum vector
             phase = sum([coordinate * momentum for coordinate, momentum in
-                         zip(vec, momenta[:dim])])
+                         zip(vec, momenta)])
             factor = e**(I*phase)
         hopfamily = []
         for mat in block_basis:
             matrix = np.zeros((N, N), dtype=complex)
             matrix[ranges[a], ranges[b]] = mat
             if bloch_model:
-                term = BlochModel({bloch_coeff: matrix}, momenta=momenta[:dim])
+                term = BlochModel({bloch_coeff: matrix}, momenta=momenta)
             else:
-                term = Model({factor: matrix}, momenta=momenta[:dim])
+                term = Model({factor: matrix}, momenta=momenta)
             term = term + term.T().conj()
             hopfamily.append(term)
         # If there are conserved quantities, constrain the hopping, it is assumed that
-- 
2.43.0


From 10cc97d3bb050e2b519bd705704958bacd157b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 15/56] fix: families without point-group symmetries

---
 qsymm/hamiltonian_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 765cc8f..4d8a44e 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -400,6 +400,8 @@ def constrain_family(symmetries, family, sparse_linalg=False):
     # Fix ordering
     family = list(family)
     symmetries = list(symmetries)
+    if not symmetries:
+        return family
     # Check compatibility of family members and symmetries
     shape = family[0].shape
     momenta = family[0].momenta
@@ -706,7 +708,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         if conserved:
             hopfamily = constrain_family(conserved, hopfamily)
         family.extend(hopfamily)
-    if symmetrize:
+    if symmetrize and pg:
         # Make sure that group is generated while keeping track of unitary part.
         # Do not modify the elements that belong to the caller.
         pg = generate_group({PointGroupElement(g.R, g.conjugate, g.antisymmetry, g.U, _strict_eq=True)
-- 
2.43.0


From 3c407f31ef150cca9bde0211970de7a1258c561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:12 +0000
Subject: [PATCH 16/56] fix: accept any iterable of symmetries in continuum
 generators

---
 qsymm/hamiltonian_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 4d8a44e..f743c33 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -60,7 +60,8 @@ def continuum_hamiltonian(symmetries, dim, total_power, all_powers=None,
         total_power = range(max_power + 1)
 
     # Generate a Hamiltonian family
-    N = list(symmetries)[0].U.shape[0] # Dimension of Hamiltonian matrix
+    symmetries = list(symmetries)
+    N = symmetries[0].U.shape[0] # Dimension of Hamiltonian matrix
     momenta = momenta[:dim]
     # Symmetries do not mix the total degree of momenta. We can thus work separately at each
     # fixed degree.
@@ -138,9 +139,9 @@ def continuum_pairing(symmetries, dim, total_power, all_powers=None, momenta=_co
 
     if ph_square not in (-1, 1):
         raise ValueError('Particle-hole operator must square to +1 or -1.')
+    symmetries = deepcopy(list(symmetries))
     if phases is None:
         phases = np.ones(len(symmetries))
-    symmetries = deepcopy(symmetries)
     N = symmetries[0].U.shape[0]
     # Attach phases to symmetry operators and extend to BdG space
     for sym, phase in zip(symmetries, phases):
-- 
2.43.0


From a54952227be20ea5058f7f549f62b967b9af02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 17/56] fix: printing of zero-dimensional point group elements

---
 qsymm/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 5df38ae..901bfdc 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -923,7 +923,9 @@ def pretty_print_pge(g, full=False, latex=False):
         return angle
 
     R = np.array(g.R).astype(float)
-    if R.shape[0] == 1:
+    if R.shape[0] == 0:
+        rot_name = '1'
+    elif R.shape[0] == 1:
         if R[0, 0] == 1:
             rot_name = '1'
         else:
-- 
2.43.0


From c0f9ded3a7ef1c50bb7bdb71f82facb8fdf772d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 18/56] fix: no momentum powers without momenta

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index f743c33..6a46ac0 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -223,7 +223,8 @@ def continuum_variables(dim, total_power, all_powers=None, momenta=_commutative_
             all_powers[i] = range(power + 1)
 
     if dim == 0:
-        return [kwant_continuum.sympify(1)]
+        # Only the constant term exists without momenta
+        return [kwant_continuum.sympify(1)] if total_power == 0 else []
 
     if all(isinstance(i, int) for i in momenta):
         momenta = [_commutative_momenta[i] for i in momenta]
-- 
2.43.0


From cb1235b5fa519fe205f7ea358dd552f6553dd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 19/56] fix: constrain_family with variables that no symmetry
 maps to

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 6a46ac0..941c3ff 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -422,7 +422,7 @@ def constrain_family(symmetries, family, sparse_linalg=False):
 
     # Get all variables and fix ordering
     all_variables = set()
-    for member in it.chain(*rotated_families):
+    for member in it.chain(family, *rotated_families):
         all_variables |= member.keys()
     all_variables = list(all_variables)
 
-- 
2.43.0


From 79d7d523af188c5ec30ece30e2f8ce7c34559058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 20/56] fix: bloch_family with exact hopping vectors in
 BlochModel format

---
 qsymm/hamiltonian_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 941c3ff..dcf2909 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -688,7 +688,7 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         block_basis = np.eye(n*m, n*m).reshape((n*m, n, m))
         block_basis = np.concatenate((block_basis, 1j*block_basis))
         if bloch_model:
-            bloch_coeff = BlochCoeff(np.array(vec), sympy.sympify(1))
+            bloch_coeff = BlochCoeff(np.array(vec).astype(float), sympy.sympify(1))
         else:
             # Hopping direction in real space
             # Dot product with momentum vector
-- 
2.43.0


From 08469f80ae6a82d92f53acbab22f34a8785332c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:18 +0000
Subject: [PATCH 21/56] fix: subtract_family returns the terms with family2
 projected out

---
 qsymm/hamiltonian_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index dcf2909..5181a65 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -556,6 +556,8 @@ def subtract_family(family1, family2, tol=1e-8, prettify=False):
         raise ValueError('Projecting onto the complement of family2 did not result in a subspace of family1')
     # Find the coefficients of linearly independent vectors
     _, projected_coeffs1 = nullspace(projected_basis1.T, atol=tol, return_complement=True)
+    # Express the projected vectors with the members of family1
+    projected_coeffs1 = projected_coeffs1.dot(projected_basis1).dot(la.pinv(basis1, rtol=tol))
     rfamily = []
     for vec in projected_coeffs1:
         rfamily.append(sum([family1[i] * c for i, c in enumerate(vec)]))
-- 
2.43.0


From f1831bf643bfe86fa34cfddd7da7bb83d8e3bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 22/56] fix: bloch_family keys of hoppings along several
 directions

---
 qsymm/hamiltonian_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 5181a65..ff3bcad 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -696,7 +696,8 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
             # Dot product with momentum vector
             phase = sum([coordinate * momentum for coordinate, momentum in
                          zip(vec, momenta)])
-            factor = e**(I*phase)
+            # Expand, so that the same hopping always gives the same key
+            factor = e**sympy.expand(I*phase)
         hopfamily = []
         for mat in block_basis:
             matrix = np.zeros((N, N), dtype=complex)
-- 
2.43.0


From db752e9fdb1aca997ccaec686b7047cdff34cf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:18 +0000
Subject: [PATCH 23/56] fix: spurious members of bloch_family from rounding
 before removing duplicates

---
 qsymm/hamiltonian_generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index ff3bcad..3035342 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -721,13 +721,16 @@ def bloch_family(hopping_vectors, symmetries, norbs, onsites=True,
         # Symmetrize every term and remove linearly dependent or zero ones
         family2 = []
         for term in family:
-            term = symmetrize_monomial(term, pg).around(decimals=num_digits)
-            if not term == {}:
+            term = symmetrize_monomial(term, pg)
+            if not term.around(decimals=num_digits) == {}:
                 family2.append(term)
+        # Only round the result, rounding errors would look linearly independent
         family = remove_duplicates(family2, tol=10**(-num_digits))
     else:
         # Constrain the terms by symmetry
         family = constrain_family(pg, remove_duplicates(family))
     if prettify:
         family = make_basis_pretty(family, num_digits=num_digits)
+    elif symmetrize:
+        family = round_family(family, num_digits)
     return family
-- 
2.43.0


From ca95bc1b55bb300989206c4d2ae351b6da13c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:27 +0000
Subject: [PATCH 24/56] fix: complete null spaces from the sparse solver

The Lanczos iteration misses some of the degenerate zero modes for a
fraction of the start vectors.
---
 qsymm/linalg.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 2f03228..c8f76a3 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -227,6 +227,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Make Hermitian positive definite matrix
         A = A.T.conj().dot(A)
 
+        # Do not return more null space vectors than this
+        limit = k_max if k_max > 0 else A.shape[0] - 1
         if k_max > 0:
             # If k_max is specified, find k_max smallest eigenvalues
             evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
@@ -257,6 +259,22 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Orthonormalize null space
         if ns.shape[1] > 0:
             ns, _ = la.qr(ns, mode='economic')
+        # The Lanczos iteration may miss some of the degenerate zero modes,
+        # search in the orthocomplement of the ones found so far.
+        shifted = A - sigma * scipy.sparse.identity(A.shape[0], format='csc')
+        solve = sla.factorized(scipy.sparse.csc_matrix(shifted))
+        while 0 < ns.shape[1] < limit:
+            def deflated_inverse(vec, ns=ns):
+                vec = vec - ns @ (ns.T.conj() @ vec)
+                vec = solve(vec)
+                return vec - ns @ (ns.T.conj() @ vec)
+
+            inverse = sla.LinearOperator(A.shape, matvec=deflated_inverse,
+                                         dtype=np.result_type(A.dtype, ns.dtype))
+            evals, evecs = sla.eigsh(inverse, which='LA', k=1)
+            if not np.isclose(1 / evals[0] + sigma, 0, atol=atol):
+                break
+            ns, _ = la.qr(np.hstack([ns, evecs]), mode='economic')
         return ns.T
     else:
         if isinstance(A, scipy.sparse.spmatrix):
-- 
2.43.0


From 1085eee60ac14b7cad9a0feef2581f5375dbf8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 25/56] fix: Model.eliminate_zeros of sparse Models

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 65b876f..5373083 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -722,6 +722,9 @@ class Model(UserDict):
             return result
         # Write it explicitely so it works with sparse arrays
         def norm(mat):
+            if isinstance(mat, scipy.sparse.spmatrix):
+                # `**` is the matrix power
+                return np.sqrt(np.sum(np.abs(mat).power(2)))
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-- 
2.43.0


From a8f6c257419094b1d8793a9fc45b6dd5a0aca7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 26/56] fix: standard form of keys set by addition of constants
 or by the user

Adding a constant stored it under the integer 1, after which conj, subs,
rotate_momenta, products etc. of the result failed.
---
 qsymm/model.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 5373083..8ae8c8c 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -269,6 +269,9 @@ class Model(UserDict):
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
+        if key not in self.data:
+            # Bring text and number keys to standard form
+            key = self._standard_key(key)
         if (isinstance(item, self.format) and self.shape == item.shape):
             self.data[key] = item
         elif (isinstance(item, Number) and self.shape == ()):
@@ -286,6 +289,9 @@ class Model(UserDict):
         else:
             return self.__missing__(key)
 
+    def _standard_key(self, key):
+        return key if isinstance(key, Basic) else _symbol_normalizer(key)
+
     # Defaultdict functionality
     def __missing__(self, key):
         if self.format is np.complex128:
@@ -842,6 +848,11 @@ class BlochModel(Model):
         else:
             return self.__missing__(key)
 
+    def _standard_key(self, key):
+        return _bloch_normalizer(super()._standard_key(key)
+                                 if not isinstance(key, BlochCoeff) else key,
+                                 self.momenta)
+
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
 
-- 
2.43.0


From 8ea1d331902c969e4b4ca86a773cc29c0dfa1e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:41 +0000
Subject: [PATCH 27/56] fix: copies of sparse Models share no data with the
 original

---
 qsymm/model.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 8ae8c8c..fd9942f 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -249,7 +249,7 @@ class Model(UserDict):
             # * removing entries which values care np.allclose to zero
             # Do not copy key, as Sympy objects are immutable anyway,
             # and making a copy breaks equality checking and hashing.
-            old_data = {key: copy(val) for key, val in self.items()}
+            old_data = {key: _copy_value(val) for key, val in self.items()}
             self.data = {}
             for key, val in old_data.items():
                 for summand in key.expand().powsimp(combine='exp').as_ordered_terms():
@@ -333,9 +333,9 @@ class Model(UserDict):
             for key in self.keys() & other.keys():
                 result[key] = self[key] + other[key]
             for key in self.keys() - other.keys():
-                result[key] = copy(self[key])
+                result[key] = _copy_value(self[key])
             for key in other.keys() - self.keys():
-                result[key] = copy(other[key])
+                result[key] = _copy_value(other[key])
         elif ((isinstance(other, self.format) and self.shape == other.shape)
               or (isinstance(other, Number) and self.shape == ())):
             # Addition of constants
@@ -375,7 +375,7 @@ class Model(UserDict):
             result.data = {key: val * other for key, val in self.items()}
         elif isinstance(other, Basic):
             keep = self.keep
-            result = sum((type(self)({key * other: copy(val)},
+            result = sum((type(self)({key * other: _copy_value(val)},
                                      keep=keep,
                                      momenta=self.momenta)
                          for key, val in self.items()
@@ -415,7 +415,7 @@ class Model(UserDict):
             # The order 'key * other' is important: we want to force
             # the implementation of __mul__ of 'key' to be used. This
             # is correct as long as the symbols in 'key' and 'other' commute.
-            result = sum((type(self)({key * other: copy(val)},
+            result = sum((type(self)({key * other: _copy_value(val)},
                                      keep=keep,
                                      momenta=self.momenta)
                          for key, val in self.items()
@@ -488,7 +488,7 @@ class Model(UserDict):
         """Transform keys by applying func to all of them. Useful for
         symbolic substitutions, differentiation, etc."""
         # Add possible duplicate keys that only differ in constant factors
-        result = sum((type(self)({func(key): copy(val)},
+        result = sum((type(self)({func(key): _copy_value(val)},
                                  normalize=True,
                                  momenta=self.momenta)
                          for key, val in self.items()),
@@ -654,7 +654,7 @@ class Model(UserDict):
         # This is faster than deepcopy of the dict
         # Do not copy the keys, as Sympy objects (and BlochCoeffs) are
         # immutable anyway, and making a copy breaks equality checking and hashing.
-        result.data = {k: copy(v) for k, v in self.items()}
+        result.data = {k: _copy_value(v) for k, v in self.items()}
         return result
 
     def lambdify(self, nsimplify=False, *, onsite=False, hopping=False):
@@ -734,7 +734,7 @@ class Model(UserDict):
             return np.sqrt(np.sum(np.abs(mat)**2))
         max_norm = np.max([norm(val) for val in self.values()])
         tol = max(atol, max_norm * rtol)
-        result.data = {key: copy(val) for key, val in self.items() if not norm(val) < tol}
+        result.data = {key: _copy_value(val) for key, val in self.items() if not norm(val) < tol}
         return result
 
 
@@ -863,7 +863,7 @@ class BlochModel(Model):
         # do rotation on hopping vectors with transpose matrix
         R_T = np.array(R).astype(float).T
         result = self.zeros_like()
-        result.data = {BlochCoeff(R_T @ hop, coeff): copy(val) for (hop, coeff), val in self.items()}
+        result.data = {BlochCoeff(R_T @ hop, coeff): _copy_value(val) for (hop, coeff), val in self.items()}
         return result
 
     def conj(self):
@@ -886,7 +886,7 @@ class BlochModel(Model):
 
     def tomodel(self, nsimplify=False):
         """Convert to Model."""
-        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): copy(val)
+        return Model({key.tosympy(self.momenta, nsimplify=nsimplify): _copy_value(val)
                       for key, val in self.items()},
                      momenta=self.momenta,
                      keep={key.tosympy(self.momenta, nsimplify=nsimplify)
@@ -1020,6 +1020,11 @@ def _bloch_normalizer(key, momenta):
         return _to_bloch_coeff(key, momenta)
 
 
+def _copy_value(val):
+    # `copy.copy` of a sparse matrix shares its data with the original
+    return val.copy() if isinstance(val, scipy.sparse.spmatrix) else copy(val)
+
+
 def _shape_and_format(val):
     # Find shape and type of val
     format = type(val)
-- 
2.43.0


From 8440061ae5043bebae73e9ac3196b2bea614fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:44 +0000
Subject: [PATCH 28/56] fix: transposition of sparse Models keeps the format

---
 qsymm/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index fd9942f..69cd669 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -578,6 +578,9 @@ class Model(UserDict):
         """Transpose"""
         result = self.zeros_like()
         result.data = {key: val.T for key, val in self.items()}
+        if issubclass(self.format, scipy.sparse.spmatrix):
+            # Transposition changes the type of some sparse matrices
+            result.data = {key: self.format(val) for key, val in result.items()}
         result.shape = self.shape[::-1]
         return result
 
-- 
2.43.0


From b0fca9713b66b40ae440068a1b653c0555faae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 29/56] fix: do not ignore keep when a Model is made from text
 or sympy expressions

---
 qsymm/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 69cd669..496812b 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -198,7 +198,8 @@ class Model(UserDict):
         else:
             self.keep = set()
 
-        if isinstance(hamiltonian, abc.Mapping):
+        parsed = not isinstance(hamiltonian, abc.Mapping)
+        if not parsed:
             # Initialize as dict sympifying the keys
             self.data = {symbol_normalizer(k): v for k, v in hamiltonian.items()
                               if symbol_normalizer(k) in self.keep
@@ -266,6 +267,8 @@ class Model(UserDict):
                     self[new_key] += new_val
             # remove zero entries, apply symbol_normalizer
             self.data = {symbol_normalizer(k): v for k, v in self.items() if not allclose(v, 0)}
+            if parsed and self.keep:
+                self.data = {k: v for k, v in self.items() if k in self.keep}
 
     # Make sure values have the correct format
     def __setitem__(self, key, item):
-- 
2.43.0


From 26db5dea767ba958943a20453d7fbdd2498bc292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 30/56] fix: Model.subs of momenta given as text

---
 qsymm/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qsymm/model.py b/qsymm/model.py
index 496812b..e9467d7 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -531,6 +531,8 @@ class Model(UserDict):
             args = ([(args[0], args[1])], )
         elif isinstance(args[0], dict): # Input is a dictionary
             args = ([(key, value) for key, value in args[0].items()], )
+        # Make sure that names given as text are recognized as momenta.
+        args = ([(sympy.sympify(old), sympy.sympify(new)) for old, new in args[0]], )
 
         momenta = self.momenta
         for (old, new) in args[0]:
-- 
2.43.0


From d801029641b994f355dd805d832e8dba10ab36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 31/56] fix: compare BlochCoeff with sympy expressions and with
 !=

---
 qsymm/model.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index e9467d7..b31c1f0 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -77,10 +77,17 @@ class BlochCoeff(tuple):
         hop1, coeff1 = self
         if other == 1:
             return allclose(hop1, 0) and coeff1 == 1
+        if not isinstance(other, tuple):
+            # e.g. a sympy expression with the same hash
+            return False
         hop2, coeff2 = other
         # test equality of hop with allclose
         return allclose(hop1, hop2) and coeff1 == coeff2
 
+    def __ne__(self, other):
+        # Do not fall back on comparison of tuples
+        return not self == other
+
     def __mul__(self, other):
         hop1, coeff1 = self
         if isinstance(other, sympy.Expr):
@@ -857,9 +864,9 @@ class BlochModel(Model):
             return self.__missing__(key)
 
     def _standard_key(self, key):
-        return _bloch_normalizer(super()._standard_key(key)
-                                 if not isinstance(key, BlochCoeff) else key,
-                                 self.momenta)
+        if isinstance(key, BlochCoeff):
+            return key
+        return _bloch_normalizer(super()._standard_key(key), self.momenta)
 
     def transform_symbolic(self, func):
         raise NotImplementedError('`transform_symbolic` is not implemented for `BlochModel`')
-- 
2.43.0


From 1989a04845f8149e9ef90028963eb27b1eb52bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 32/56] fix: generate_group accepts any iterable of generators

---
 qsymm/groups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 901bfdc..28886ad 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -595,7 +595,7 @@ def generate_group(gens):
     group : set of PointGroupElement
         group generated by gens, closed under multiplication
     """
-    gens = set(gens.copy())
+    gens = set(gens)
     # here we keep all the elements generated so far
     group = gens.copy()
     # these are the elements generated in the previous step
-- 
2.43.0


From 4ae11ddd4efd37eee4b09aea4649e1f3d2a05629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 33/56] fix: hexagonal rejects spin together with particle-hole

---
 qsymm/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 28886ad..a26870c 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -816,6 +816,10 @@ def hexagonal(dim=2, tr=True, ph=True, generators=False, sympy_R=True, spin=None
         is different. Here we consider the action of the mirror, which is the same as the
         action of a 2-fold rotation around the mirror axis, assuming inversion acts trivially.
     """
+    if ph and spin is not None:
+        raise ValueError('If `ph` is True, `spin` may not be provided, as it is not '
+                         'possible to deduce the unitary representation of particle-hole symmetry '
+                         'from spin alone. In this case construct the particle-hole operator manually.')
     if spin is not None and sympy_R:
         # The exact rotation matrices below are clockwise.
         U6 = spin_rotation(-np.pi / 3 * np.array([0, 0, 1]), spin)
-- 
2.43.0


From 6f88944356b50744c207e172111a77025ec45e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:26 +0000
Subject: [PATCH 34/56] fix: bravais_point_group does not depend on the length

---
 qsymm/symmetry_finder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index 3b6575c..ca0d2ab 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -822,6 +822,9 @@ def bravais_point_group(periods, tr=False, ph=False, generators=False, verbose=F
 
     # get lll reduced basis
     periods, _ = lll(periods)
+    # measure lengths in units of the lattice constant, such that the
+    # tolerances of the comparisons do not depend on the length unit
+    periods = periods / la.norm(periods, axis=1).min()
     # get nearest neighbors
     neighbors = voronoi(periods, reduced=True, rtol=1e-5) @ periods
     neighbors = neighbors[:len(neighbors)//2]
-- 
2.43.0


From bf2437f197c28e952294ccb009b4a99828717674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 35/56] fix: circular of size 1 in class D with given charge

---
 qsymm/kwant_rmt.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qsymm/kwant_rmt.py b/qsymm/kwant_rmt.py
index bd37a4c..d1af1f3 100644
--- a/qsymm/kwant_rmt.py
+++ b/qsymm/kwant_rmt.py
@@ -281,10 +281,13 @@ def circular(n, sym='A', charge=None, rng=None):
         if sym == 'DIII':
             det *= (-1) ** (n // 2)
         if (charge > 0) != (det > 0):
-            idx = np.arange(n)
-            idx[-1] -= 1
-            idx[-2] += 1
-            s = s[idx]
+            if n == 1:
+                s = -s
+            else:
+                idx = np.arange(n)
+                idx[-1] -= 1
+                idx[-2] += 1
+                s = s[idx]
 
     # Add the proper time-reversal symmetry:
     if sym in ('AI', 'CI'):
-- 
2.43.0


From 88840eacd8ab4899d11884ef159150633e31e9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 36/56] fix: version lookup with paths and tags that are not
 valid UTF-8

---
 qsymm/_version.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qsymm/_version.py b/qsymm/_version.py
index a7c5b0e..ee87fc0 100644
--- a/qsymm/_version.py
+++ b/qsymm/_version.py
@@ -60,7 +60,8 @@ def get_version_from_git():
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE)
     except OSError:
         return
-    toplevel = p.communicate()[0].decode().rstrip('\n')
+    # Paths need not be valid UTF-8
+    toplevel = os.fsdecode(p.communicate()[0]).rstrip('\n')
     if p.returncode != 0:
         return
     try:
@@ -87,7 +88,7 @@ def get_version_from_git():
             break
     else:
         return
-    description = description.decode().strip('v').rstrip('\n')
+    description = description.decode(errors='replace').strip('v').rstrip('\n')
 
     release, dev, git = description.rsplit('-', 2)
     labels = []
-- 
2.43.0


From be03fc21dc44616a14d9002f74c42aec9ddafa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 37/56] fix: quote the version written to the static version
 file

---
 qsymm/_version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/_version.py b/qsymm/_version.py
index ee87fc0..0677242 100644
--- a/qsymm/_version.py
+++ b/qsymm/_version.py
@@ -151,7 +151,7 @@ def _write_version(fname):
         pass
     with open(fname, 'w') as f:
         f.write("# This file has been created by setup.py.\n"
-                "version = '{}'\n".format(__version__))
+                "version = {!a}\n".format(__version__))
 
 
 class _build_py(build_py_orig):
-- 
2.43.0


From 6669b075165dc78aa62751e0ee03d86fd51800d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 38/56] fix: do not mix up integer and floating point keys in
 the caches of models

A key 1 was normalised to 1.0, or 1.0 to 1, depending on which of the two
equal numbers the process had met first.
---
 qsymm/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index b31c1f0..3ceb0f6 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -1022,12 +1022,12 @@ def _find_momenta(momenta):
                         for k in _momenta)
 
 
-@lru_cache(maxsize=1000)
+@lru_cache(maxsize=1000, typed=True)
 def _symbol_normalizer(key):
     return sympy.expand_power_exp(sympy.sympify(key, locals={'e': e}))
 
 
-@lru_cache(maxsize=1000)
+@lru_cache(maxsize=1000, typed=True)
 def _bloch_normalizer(key, momenta):
     if isinstance(key, BlochCoeff):
         return key
-- 
2.43.0


From 99587f8025448b426ca7d4a02c38ae2810c3e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 39/56] fix: names of rotations around axes whose components
 add up to zero

The sign of the sum was taken to be zero, which sent these rotations to the
branch of two-fold rotations: wrong names or failing assertions.
---
 qsymm/groups.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a26870c..be42107 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1091,15 +1091,17 @@ def rotation_to_angle(R):
     # Convert 3D rotation matrix to axis and angle
     assert allclose(R, R.real)
     n = np.array([1j * np.trace(L @ R) for L in L_matrices()]).real
-    # Choose direction to minimize number of minus signs
-    absn = la.norm(n) * np.sign(np.sum(n))
+    # Choose direction to minimize number of minus signs. The components may
+    # also add up to zero.
+    absn = la.norm(n) * (-1 if np.sum(n) < 0 else 1)
     if np.isclose(absn, 0):
         # n is zero for 2-fold rotation, find eigenvector with +1
         val, vec = la.eigh(R)
         assert np.isclose(val[-1], 1), R
         n = vec[:, -1]
         # Choose direction to minimize number of minus signs
-        n /= np.sign(np.sum(n))
+        n *= -1 if np.sum(n) < 0 else 1
+        absn = 0.
     else:
         n /= absn
     theta = np.arctan2(absn, np.trace(R).real - 1)
-- 
2.43.0


From 6168bab153707753a94927b4db85e02451cd6b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 40/56] fix: rotation axis in the names of continuous
 generators

The axis was rounded twice; the second time it was no longer normalized, so
diagonal axes were shown as coordinate axes.
---
 qsymm/groups.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index be42107..a7c233f 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1050,7 +1050,6 @@ def pretty_print_cgg(g, latex=False):
     if R is not None and R.shape[0] == 3:
         n = np.array([np.trace(l @ R) for l in L_matrices()]).real  # Noqa: E741
         n /= la.norm(n)
-        n = _round_axis(n)
         if latex:
             rot_name = r'R_{{\phi}} = R\left(\phi, {}\right)\\'.format(_round_axis(n))
         else:
-- 
2.43.0


From 6e8885ba4386bed5a83d206b90b60197bc3aa6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:51 +0000
Subject: [PATCH 41/56] fix: reduce the later basis vectors again after a swap
 in the LLL algorithm

---
 qsymm/kwant_linalg_lll.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qsymm/kwant_linalg_lll.py b/qsymm/kwant_linalg_lll.py
index 2f10c1e..45961d1 100644
--- a/qsymm/kwant_linalg_lll.py
+++ b/qsymm/kwant_linalg_lll.py
@@ -112,6 +112,8 @@ def lll(basis, c=1.34):
     # Main part of LLL algorithm.
     i = 0
     while i < m-1:
+        # A swap changes the coefficients of all the later vectors as well.
+        ll_reduce(i+1)
         if (np.linalg.norm(vecsstar[i]) ** 2 <
            c * np.linalg.norm(vecsstar[i+1]) ** 2):
             i += 1
@@ -128,8 +130,6 @@ def lll(basis, c=1.34):
             for j in range(i+2, m):
                 u[j, i] = gs_coefficient(vecs[j], vecsstar[i])
                 u[j, i+1] = gs_coefficient(vecs[j], vecsstar[i+1])
-            if abs(u[i+1, i]) > 0.5:
-                ll_reduce(i+1)
             i = max(i-1, 0)
     # TODO: change to rcond=None once we depend on numpy >= 1.14.
     coefs = np.linalg.lstsq(vecs_orig.T, vecs.T, rcond=-1)[0]
-- 
2.43.0


From 5eeeed18d05e9fb2c8e1bd39d50a87df0ae796e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 42/56] fix: reject spins that are neither integer nor
 half-integer

---
 qsymm/groups.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index a7c233f..5527c73 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1155,9 +1155,8 @@ def spin_matrices(s, include_0=False):
         Array of shape `(3, 2*s + 1, 2*s + 1)`, or if `include_0` is True
         `(4, 2*s + 1, 2*s + 1)`.
     """
-    d = np.round(2*s + 1)
-    assert np.isclose(d, int(d))
-    d = int(d)
+    d = int(np.round(2*s + 1))
+    assert np.isclose(d, 2*s + 1)
     Sz = 1/2 * np.diag(np.arange(d - 1, -d, -2))
     # first diagonal for general s from en.wikipedia.org/wiki/Spin_(physics)
     diag = [1/2*np.sqrt((s + 1) * 2*i - i * (i + 1)) for i in np.arange(1, d)]
-- 
2.43.0


From 9d1847db236233c8c9be362ab4c153debc939f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 43/56] fix: sense of rotations around x and y of d orbitals

L_matrices(3, 2) rotated the orbitals by the opposite angle around x and y
relative to positions and p orbitals.
---
 qsymm/groups.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/qsymm/groups.py b/qsymm/groups.py
index 5527c73..aa9229a 100644
--- a/qsymm/groups.py
+++ b/qsymm/groups.py
@@ -1232,16 +1232,16 @@ def L_matrices(d=3, l=1):  # Noqa: E741
                                [0, 0, 0]]])
     elif d == 3 and l==2:
         s3 = np.sqrt(3)
-        return 1j * np.array([[[0, 0, 0, -1, 0],
-                              [0, 0, 0, -s3, 0],
-                              [0, 0, 0, 0, 1],
-                              [1, s3, 0, 0, 0],
-                              [0, 0, -1, 0, 0]],
-                             [[0, 0, 0, 0, -1],
-                              [0, 0, 0, 0, s3],
-                              [0, 0, 0, -1, 0],
-                              [0, 0, 1, 0, 0],
-                              [1, -s3, 0, 0, 0]],
+        return 1j * np.array([[[0, 0, 0, 1, 0],
+                              [0, 0, 0, s3, 0],
+                              [0, 0, 0, 0, -1],
+                              [-1, -s3, 0, 0, 0],
+                              [0, 0, 1, 0, 0]],
+                             [[0, 0, 0, 0, 1],
+                              [0, 0, 0, 0, -s3],
+                              [0, 0, 0, 1, 0],
+                              [0, 0, -1, 0, 0],
+                              [-1, s3, 0, 0, 0]],
                              [[0, 0, -2, 0, 0],
                               [0, 0, 0, 0, 0],
                               [2, 0, 0, 0, 0],
-- 
2.43.0


From 7e5f42c5140cbd5d5f25660a98be5532b6931acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 44/56] fix: monomials of nested powers of noncommutative
 symbols

---
 qsymm/kwant_continuum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index e5027a5..4353668 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -312,6 +312,10 @@ def _expression_monomials(expr, gens):
         val = []
         for factor in summand.as_ordered_factors():
             symbol, exponent = factor.as_base_exp()
+            if symbol.is_Pow:
+                # Merge the nested powers that expand leaves if noncommutative
+                factor = symbol ** exponent
+                symbol, exponent = factor.as_base_exp()
             if symbol in gens:
                 key.append(factor)
             else:
-- 
2.43.0


From d14d33e202603697ae14aeb64b1f30da33307287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 45/56] fix: lambdify expressions where a function occurs more
 than once

---
 qsymm/kwant_continuum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 4353668..1f6cf48 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -109,7 +109,7 @@ def lambdify(expr, locals=None):
     args = [s.name for s in expr.atoms(sympy.Symbol)]
     args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
 
-    return sympy.lambdify(sorted(args), expr)
+    return sympy.lambdify(sorted(set(args)), expr)
 
 
 def sympify(expr, locals=None):
-- 
2.43.0


From 9633d5a09191e3c5a0c951dd754d91bd2fedb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 46/56] fix: lambdify used known functions instead of arguments
 of the same name

---
 qsymm/kwant_continuum.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qsymm/kwant_continuum.py b/qsymm/kwant_continuum.py
index 1f6cf48..e4a0cc8 100644
--- a/qsymm/kwant_continuum.py
+++ b/qsymm/kwant_continuum.py
@@ -109,7 +109,12 @@ def lambdify(expr, locals=None):
     args = [s.name for s in expr.atoms(sympy.Symbol)]
     args += [str(f.func) for f in expr.atoms(AppliedUndef, sympy.Function)]
 
-    return sympy.lambdify(sorted(set(args)), expr)
+    # The functions that are arguments take precedence over known functions of
+    # the same name, such as gamma and beta.
+    functions = {str(f.func) for f in expr.atoms(AppliedUndef)}
+    modules = [dict.fromkeys(functions), 'scipy', 'numpy'] if functions else None
+
+    return sympy.lambdify(sorted(set(args)), expr, modules=modules)
 
 
 def sympify(expr, locals=None):
-- 
2.43.0


From 5bb43eb5c9cd5ea13c36f1d953e58e58a2422fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 47/56] fix: check_symmetry rejected symmetric families that
 were rounded

---
 qsymm/hamiltonian_generator.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/qsymm/hamiltonian_generator.py b/qsymm/hamiltonian_generator.py
index 3035342..fd86e7a 100644
--- a/qsymm/hamiltonian_generator.py
+++ b/qsymm/hamiltonian_generator.py
@@ -362,19 +362,21 @@ def check_symmetry(family, symmetries, num_digits=None):
     """
     def fail():
         raise ValueError(f'Member {member} does not satisfy symmetry {symmetry}.')
+
+    def atol(member):
+        # Do not compare rounded values, nearly equal values may be rounded differently.
+        # The symmetry mixes up to `shape[0]` rounded matrix elements.
+        return 1e-08 if num_digits is None else 2 * max(member.shape) * 10**(-num_digits)
+
     for symmetry in symmetries:
         # Iterate over all members of the family
         for member in family:
             if isinstance(symmetry, PointGroupElement):
-                if num_digits is None:
-                    if symmetry.apply(member) != member:
-                        fail()
-                else:
-                    if symmetry.apply(member).around(num_digits) != member.around(num_digits):
-                        fail()
+                if not symmetry.apply(member).allclose(member, atol=atol(member)):
+                    fail()
             elif isinstance(symmetry, ContinuousGroupGenerator):
                 # Continous symmetry if applying it returns zero
-                if symmetry.apply(member) != {}:
+                if not symmetry.apply(member).allclose({}, atol=atol(member)):
                     fail()
 
 
-- 
2.43.0


From 3d473cc11495470d6f91b188761f7d6504f9bb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 48/56] fix: inverses of integer rotations whose determinant is
 not exact in floating point

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index c8f76a3..3e6884a 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -636,6 +636,6 @@ def _inv_int(A):
     _A = ta.array(A, int)
     if A == np.empty((0, 0)):
         return A
-    if _A != A or abs(la.det(A)) != 1:
+    if _A != A or abs(round(la.det(_A))) != 1:
         raise ValueError('Input needs to be an invertible integer matrix')
     return ta.array(np.round(la.inv(_A)), int)
-- 
2.43.0


From 1da2e3db6e5201ed654a3ce7532c41d263e9d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 49/56] fix: rref of a vanishing matrix returns S when asked to

---
 qsymm/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 3e6884a..931fb8b 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -554,7 +554,7 @@ def rref(m, rtol = 1e-3, return_S=False):
 
     # Stop if m is identically zero
     if np.allclose(red, 0):
-        return red
+        return (red, np.eye(rows, dtype=complex)) if return_S else red
 
     S = np.eye(rows, dtype=complex)
     tol = np.max(np.abs(m)) * rtol
-- 
2.43.0


From 619f0b959023aa5fb7b0ebbdf6b28ae71fea9b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 50/56] fix: sparse nullspace does not refuse null spaces
 within its limits

---
 qsymm/linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 931fb8b..9955ea5 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -238,15 +238,15 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
             # Number of new null space vectors to find in each step
             k_step = abs(k_max)
             k_max = min(A.shape[0] - 2, k_step)
-            while k_max < A.shape[0] - 1:
+            while k_max > 0:
                 evals, evecs = sla.eigsh(A, sigma=sigma, which='LM',
                                          k=k_max, return_eigenvectors=True)
-                if np.max(np.abs(evals)) > atol:
-                    # We found the first large one
+                if np.max(np.abs(evals)) > atol or k_max == A.shape[0] - 2:
+                    # We found the first large one, or cannot find more
                     break
                 else:
                     # All small, need to increase k_max
-                    k_max += k_step
+                    k_max = min(A.shape[0] - 2, k_max + k_step)
             else:
                 raise ValueError('A should have at most A.shape[0]-2 dimensional null space.'
                                  'Try using sparse=False.')
-- 
2.43.0


From ef0fc8defa3a6594ba160b4ce7ec0bb25e05b434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 51/56] fix: sparse nullspace of any sparse format, without
 changing the argument

---
 qsymm/linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 9955ea5..6c57c23 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -217,9 +217,8 @@ def nullspace(A, atol=1e-6, return_complement=False, sparse=None, k_max=-10):
         # Do sparse eigenvalue solving
         # sigma used for shift-invert, should be a small negative value
         sigma = -1e-1
-        # Make sure A is sparse matrix
-        if isinstance(A, np.ndarray):
-            A = scipy.sparse.csr_matrix(A)
+        # Make sure A is a sparse matrix, and not the one of the caller
+        A = scipy.sparse.csr_matrix(A, copy=True)
         A.eliminate_zeros()
         # Treat A=0 case
         if np.allclose(A.data, 0, atol=atol/A.shape[1]):
-- 
2.43.0


From ca1b406a0469665e7a51a8ec8178331215ae03c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 52/56] fix: solve_mat_eqn with conjugate and without hermitian

---
 qsymm/linalg.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6c57c23..6ae1c58 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -462,10 +462,18 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     if N == 0:
         return np.empty((0, dim, dim))
 
+    # Complex conjugation is only linear with real coefficients
+    reals = hermitian or any(conjugate)
+
+    def all_basis(sparse):
+        yield from matrix_basis(dim, traceless=traceless, sparse=sparse)
+        if reals and not hermitian:
+            yield from matrix_basis(dim, traceless=traceless, antihermitian=True, sparse=sparse)
+
     # Prepare for differences in sparse and dense algebra
     if sparse:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=True)
+            return all_basis(sparse=True)
         vstack = scipy.sparse.vstack
         bmat = scipy.sparse.bmat
         # Cast it to coo format and reshape
@@ -473,7 +481,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
             return scipy.sparse.coo_matrix(x).reshape((x.shape[0]*x.shape[1], 1))
     else:
         def basis():
-            return matrix_basis(dim, traceless=traceless, sparse=False)
+            return all_basis(sparse=False)
         vstack = np.vstack
         bmat = np.block
         def flatten(x):
@@ -490,7 +498,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
 
     null_mat = bmat(null_mat)
 
-    if hermitian:
+    if reals:
         # Simultaneaous equations for real and immaginary parts
         # Lapack guarantees that the SVD of a real matrix is real
         null_mat = vstack((null_mat.real, null_mat.imag))
@@ -500,7 +508,7 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     # Make all solutions
     # 'ij,jkl->ikl'
     def basis():
-        return matrix_basis(dim, traceless=traceless, sparse=False)
+        return all_basis(sparse=False)
     return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
 
 
-- 
2.43.0


From 218e45ef5c5b5e61895d74b44d3df36478909c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 53/56] fix: solve_mat_eqn without solutions returns an array
 of matrices

---
 qsymm/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qsymm/linalg.py b/qsymm/linalg.py
index 6ae1c58..5ce708b 100644
--- a/qsymm/linalg.py
+++ b/qsymm/linalg.py
@@ -509,7 +509,8 @@ def solve_mat_eqn(HL, HR=None, hermitian=False, traceless=False,
     # 'ij,jkl->ikl'
     def basis():
         return all_basis(sparse=False)
-    return np.array([sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns])
+    sols = [sum((v * mat for v, mat in zip(vec, basis()))) for vec in ns]
+    return np.array(sols).reshape(-1, dim, dim)
 
 
 def rref(m, rtol = 1e-3, return_S=False):
-- 
2.43.0


From 232e2229a75f00ebeeb101a21561e844bfebb090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 54/56] fix: Model.subs evaluates exponentials that are the
 whole symbolic part of a term

---
 qsymm/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 3ceb0f6..07da5ef 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -566,7 +566,7 @@ class Model(UserDict):
             # find all exponentials.
             key = sympy.expand(key, power_base=True, power_exp=True,
                                mul=True, log=False, multinomial=False)
-            find_expos = [ele for ele in key.args if ele.is_Pow]
+            find_expos = [ele for ele in sympy.Mul.make_args(key) if ele.is_Pow]
             if len(find_expos):
                 rest = key / np.prod(find_expos)
                 # If an exponential evaluates to a number, replace it with that number.
-- 
2.43.0


From 71c1b5cf0ce43fff76d8976bfe688f0204aba1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 55/56] fix: casimir recognizes semisimple algebras of any size
 and scale

---
 qsymm/symmetry_finder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qsymm/symmetry_finder.py b/qsymm/symmetry_finder.py
index ca0d2ab..c242768 100644
--- a/qsymm/symmetry_finder.py
+++ b/qsymm/symmetry_finder.py
@@ -133,7 +133,7 @@ def killing(gens):
 def casimir(gens):
     # Calculate quadratic Casimir operator
     g = killing(gens)
-    if np.isclose(la.det(g), 0):
+    if len(nullspace(g)) > 0:
         raise ValueError('Lie-algebra not semisimple!')
     # 'ab,aik,bkj->ij'
     return np.tensordot(la.inv(g), gens.dot(gens), axes=((0, 1), (0, 2)))
-- 
2.43.0


From c82cad38751a8b83774249d14e787fa3b2b505e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 56/56] fix: shape and format given alone must match the values
 of a Model

---
 qsymm/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qsymm/model.py b/qsymm/model.py
index 07da5ef..735bef8 100644
--- a/qsymm/model.py
+++ b/qsymm/model.py
@@ -239,9 +239,9 @@ class Model(UserDict):
                 warn('Provide `shape` and `format` when initializing empty Model.', DeprecationWarning)
             else:
                 val = next(iter(self.values()))
-                shape, format = _shape_and_format(val)
-                self.shape = (shape if self.shape is not None else shape)
-                self.format = (format if self.format is not None else format)
+                val_shape, val_format = _shape_and_format(val)
+                self.shape = shape = (shape if shape is not None else val_shape)
+                self.format = format = (format if format is not None else val_format)
         if shape == ():
             # Recast numbers to np.complex128
             self.data = {k: np.complex128(v) for k, v in self.items()}
-- 
2.43.0

