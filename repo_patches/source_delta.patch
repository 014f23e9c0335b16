From 4bcf996ffa386258fea3eb0ca675851215e94f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 01/54] fix: print the vectors of the reference cell, not a
 transposed product

---
 irrep/spacegroup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index cf9830d..dab8b8d 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -749,8 +749,7 @@ class SpaceGroup():
         print('')
 
         # Print cell vectors in DFT and reference cells
-        vecs_refUC = np.dot(self.Lattice, self.refUC).T
-        #vecs_refUC = np.dot(self.refUC, self.Lattice)
+        vecs_refUC = np.dot(self.refUC.T, self.Lattice)
         print('Cell vectors in angstroms:\n')
         print('{:^32}|{:^32}'.format('Vectors of DFT cell', 'Vectors of REF. cell'))
         for i in range(3):
-- 
2.43.0


From 3b0f90b0283a62cbead15b90bb1a5f6e3d41c11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 02/54] fix: take the origin shift into account in the
 positions printed for the reference cell

---
 irrep/spacegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index dab8b8d..3204cf6 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -764,7 +764,7 @@ class SpaceGroup():
         # Print atomic positions
         print('Atomic positions in direct coordinates:\n')
         print('{:^} | {:^25} | {:^25}'.format('Atom type', 'Position in DFT cell', 'Position in REF cell'))
-        positions_refUC = self.positions.dot(np.linalg.inv(self.refUC.T))
+        positions_refUC = (self.positions - self.shiftUC).dot(np.linalg.inv(self.refUC.T))
         for itype, pos1, pos2 in zip(self.typat, self.positions, positions_refUC):
             s = '{:^9d}'.format(itype)
             s += ' | '
-- 
2.43.0


From 6ae79b1381e5c15892f6b12f07ed418280f3d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:25 +0000
Subject: [PATCH 03/54] fix: make the matching of spinor rotations reproducible

---
 irrep/spacegroup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 3204cf6..63ae008 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -933,8 +933,11 @@ class SpaceGroup():
             """
             return residue_matrix(RR(x)) / len(S1)
 
+        # fixed sequence of starting points: the signs (and thus the labels of
+        # irreps) must be the same every time the code is run
+        rng = np.random.RandomState(0)
         for i in range(11):
-            x0 = np.random.random(2 * n * n)
+            x0 = rng.random_sample(2 * n * n)
             res = minimize(residue, x0)
             r = res.fun
             if r < 1e-4:
-- 
2.43.0


From 15833b3aadc8dc7222c7a406d4e039802c67608f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 04/54] fix: write k-points of a table in the form in which
 they are read

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 61743d8..f6ac55e 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -187,7 +187,7 @@ class KPoint:
             Line that, when parsed, would lead to an instance of class `KPoint` 
             with identical values of attributes.
         '''
-        return "{0} : {1}  : {2}".format(
+        return "kpoint {0} : {1}  : {2}".format(
             self.name,
             " ".join(str(x) for x in self.k),
             " ".join(str(x) for x in sorted(self.isym)),
-- 
2.43.0


From 8b220bc73facd800b38a75808118f3b04956d007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 05/54] fix: compare lists of symmetries of k-points element by
 element

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index f6ac55e..6b24d24 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -162,7 +162,7 @@ class KPoint:
             return False
         if np.linalg.norm(self.k - other.k) > 1e-8:
             return False
-        if self.isym != other.isym:
+        if list(self.isym) != list(other.isym):
             return False
         return True
 
-- 
2.43.0


From 663b49123279cb68559c3b3ce95ca0919196feb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 06/54] fix: check the number of the space group written in the
 table

---
 irreptables/irreptables/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irreptables/irreptables/__init__.py b/irreptables/irreptables/__init__.py
index 6b24d24..8181687 100644
--- a/irreptables/irreptables/__init__.py
+++ b/irreptables/irreptables/__init__.py
@@ -340,7 +340,7 @@ class IrrepTable:
         while len(lines) > 0:
             l = lines.pop().strip().split("=")
             # logger.debug(l,l[0].lower())
-            if l[0].lower() == "SG":
+            if l[0].lower() == "sg":
                 assert int(l[1]) == self.number
             elif l[0].lower() == "name":
                 self.name = l[1]
-- 
2.43.0


From 69cff18187db3e70242c4a6bcfb79e69d17a96b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:28 +0000
Subject: [PATCH 07/54] fix: use the characters of the states at -k where the
 tables need it

The tables represent a lattice translation t by exp(+ik.t), whereas it acts
on Bloch states as exp(-ik.t). At k-points that are not equivalent to -k the
tabulated characters have to be conjugated; otherwise non-integer multiplicities
are obtained e.g. at P in groups 122, 141, 199, 206, 214, 220, 230 and W in 227.
---
 irrep/spacegroup.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 63ae008..8035dbf 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1005,10 +1005,18 @@ class SpaceGroup():
                                 3),
                             k1))
                 tab[irr.name] = {}
+                # In the tables a translation t is represented by exp(+ik.t), 
+                # while Bloch states get exp(-ik.t). Thus, unless k is 
+                # equivalent to -k, states at k transform as the complex 
+                # conjugate of the tabulated irrep
+                is_trim = np.allclose(2 * k1, np.round(2 * k1), atol=1e-4)
                 for i,(sym1,sym2) in enumerate(zip(self.symmetries,table.symmetries)):
                     try:
                         dt = sym2.t - sym1.translation_refUC(self.refUC, self.shiftUC)
-                        tab[irr.name][i + 1] = irr.characters[i + 1] * \
+                        char = irr.characters[i + 1]
+                        if not is_trim:
+                            char = np.conj(char)
+                        tab[irr.name][i + 1] = char * \
                             sym1.sign * np.exp(2j * np.pi * dt.dot(irr.k))
                     except KeyError:
                         pass
-- 
2.43.0


From f1bafe8a89775e1e52a5a0317a4d7b335d761fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:21 +0000
Subject: [PATCH 08/54] fix: phase of the translation in the matrix of a
 symmetry operation

symm_matrix used A.T instead of inv(A).T (as symm_eigenvalues does), which is
wrong for operations whose rotation is not its own inverse.
---
 irrep/gvectors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 85bf2b4..10998fe 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -414,7 +414,9 @@ def symm_matrix(
         Bloch Hamiltonian :math:`H(k)`.
     """
     npw1 = igall.shape[1]
-    multZ = np.exp(-1.0j * (2 * np.pi * A.dot(T).dot(igall[:3, :] + K[:, None])))
+    multZ = np.exp(
+        -1.0j * (2 * np.pi * np.linalg.inv(A).dot(T).dot(igall[:3, :] + K[:, None]))
+    )
     igrot = transformed_g(K, igall, RecLattice, A)
     if spinor:
         WF1 = np.stack([WF[:, igrot], WF[:, igrot + npw1]], axis=2).conj()
-- 
2.43.0


From 2bcfa4e3b9269ff8c69611eb40e764ca11327ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 09/54] fix: apply the sign of spinor rotations to the
 reference-cell traces also when cells are identical

---
 irrep/kpoint.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 0d6a2d7..b9fbc1b 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -635,14 +635,16 @@ class Kpoint:
 
         # Transfer traces in calculational cell to refUC
         char_refUC = char.copy()
-        if (not np.allclose(refUC, np.eye(3, dtype=float)) or
-            not np.allclose(shiftUC, np.zeros(3, dtype=float))):
-            # Calculational and reference cells are not identical
-            for i,sym in enumerate(self.little_group):
+        same_cell = (np.allclose(refUC, np.eye(3, dtype=float)) and
+                     np.allclose(shiftUC, np.zeros(3, dtype=float)))
+        for i,sym in enumerate(self.little_group):
+            # Matrices for spinors may differ from those in tables even if
+            # calculational and reference cells are identical
+            char_refUC[:,i] *= sym.sign
+            if not same_cell:
                 dt = (symmetries_tables[sym.ind-1].t 
                       - sym.translation_refUC(refUC, shiftUC))
-                char_refUC[:,i] *= (sym.sign 
-                                     * np.exp(-2j*np.pi*dt.dot(self.k_refUC)))
+                char_refUC[:,i] *= np.exp(-2j*np.pi*dt.dot(self.k_refUC))
 
         return char, char_refUC, Energy_mean
 
-- 
2.43.0


From 07b39b6b70892188a87f519d5b1f628ec6e7c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:42 +0000
Subject: [PATCH 10/54] fix: accept k-points written with few digits when
 determining the little group

The label of a k-point is matched with 5 digits, but operations were dropped from
the little group of e.g. (0.333333, 0.666667), so that irreps were identified
with an incomplete set of traces.
---
 irrep/gvectors.py | 2 +-
 irrep/kpoint.py   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 10998fe..96e8bcd 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -281,7 +281,7 @@ def transformed_g(kpt, ig, RecLattice, A):
     B = np.linalg.inv(A).T
     kpt_ = B.dot(kpt)
     dkpt = np.array(np.round(kpt_ - kpt), dtype=int)
-    if not np.isclose(dkpt, kpt_ - kpt).all():
+    if not np.isclose(dkpt, kpt_ - kpt, atol=3e-5).all():
         raise NotSymmetryError(
             "The k-point {0} is transformed to non-equivalent point {1}  under transformation\n {2}".format(
                 kpt, kpt_, A
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index b9fbc1b..f6a7e64 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -201,7 +201,8 @@ class Kpoint:
                 continue
             k_rotated = np.dot(np.linalg.inv(symop.rotation).T, self.k)
             dkpt = np.array(np.round(k_rotated - self.k), dtype=int)
-            if np.allclose(dkpt, k_rotated - self.k):
+            # Coordinates of k may have been written with few digits (0.33333)
+            if np.allclose(dkpt, k_rotated - self.k, atol=3e-5):
                 self.little_group.append(symop)
 
         # Sort symmetries based on their indices
-- 
2.43.0


From 68f38b99aec452f0bd643866b5b63ab3300928f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:10 +0000
Subject: [PATCH 11/54] fix: look for plane waves in the whole sphere below the
 cutoff

The search stopped as soon as the number of plane waves in the file was reached,
so that a wrong number could go unnoticed, or never stopped if it was too large.
---
 irrep/gvectors.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index 96e8bcd..b84fac7 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -99,25 +99,25 @@ def calc_gvectors(
     igall = []
     Eg = []
     memory = np.full(10, True)
-    for N in range(nplanemax):
+    # Sum of absolute values of components of the farthest vector in the sphere
+    signs = np.array([(i, j, k) for i in (1, -1) for j in (1, -1) for k in (1, -1)])
+    Nmax = int(np.max(
+        np.sqrt(Ecut * twomhbar2) * la.norm(signs.dot(la.inv(B).T), axis=1) - signs.dot(K)
+    )) + 1
+    for N in range(min(nplanemax, Nmax + 1)):
         flag = True
         if N % 10 == 0:
             msg = f'Cycle {N:>3d}: number of plane waves = {len(igall):>10d}'
             log_message(msg, v, 2)
-        if len(igall) >= nplane / 2:    # Only enters if vasp
-            if spinor:
-                break
-            else:      # Sure that not spinors?
-                if len(igall) >= nplane: # spinor=F, all plane waves found
-                    break
-                elif np.all(memory): # probably spinor wrong set as spinor=F
-                    raise RuntimeError(
-                          "calc_gvectors is stuck "
-                          "calculating plane waves of energy larger "
-                          "than cutoff Ecut = {}. Make sure that the "
-                          "VASP calculation does not include SOC and "
-                          "set -spinor if it does.".format(Ecut)
-                    )
+        if nplane / 2 <= len(igall) < nplane:    # Only enters if vasp
+            if not spinor and np.all(memory):    # probably spinor wrong set as spinor=F
+                raise RuntimeError(
+                      "calc_gvectors is stuck "
+                      "calculating plane waves of energy larger "
+                      "than cutoff Ecut = {}. Make sure that the "
+                      "VASP calculation does not include SOC and "
+                      "set -spinor if it does.".format(Ecut)
+                )
 
         for ig3 in range(-N, N + 1):
             for ig2 in range(-(N - abs(ig3)), N - abs(ig3) + 1):
-- 
2.43.0


From 5bfefe20edff9f3094e7c8fa6212eb50f99491bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:35 +0000
Subject: [PATCH 12/54] fix: order of plane waves when opposite boundary
 vectors are in the same row

---
 irrep/gvectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index b84fac7..c709b6a 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -148,7 +148,8 @@ def calc_gvectors(
                     )
                 )
     igall = np.array(igall, dtype=int)
-    ng = igall.max(axis=0) - igall.min(axis=0)
+    # Grid large enough to contain all plane waves without overlapping
+    ng = 2 * abs(igall).max(axis=0) + 1
     igall1 = igall % ng[None, :]
     igallsrt = np.argsort((igall1[:, 2] * ng[1] + igall1[:, 1]) * ng[0] + igall1[:, 0])
     igall1 = igall[igallsrt]
-- 
2.43.0


From ad4cbcfe59f152767a66f79478b79a7eba6ae312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:36 +0000
Subject: [PATCH 13/54] fix: convert the lattice read from Abinit to angstrom

---
 irrep/bandstructure.py | 4 ++--
 irrep/readfiles.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 7ba4f8b..4011230 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -26,7 +26,7 @@ from .readfiles import ParserAbinit, ParserVasp, ParserEspresso, ParserW90
 from .kpoint import Kpoint
 from .spacegroup import SpaceGroup
 from .gvectors import sortIG, calc_gvectors
-from .utility import log_message
+from .utility import log_message, BOHR
 
 
 class BandStructure:
@@ -335,7 +335,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
                 WF, Energy, kg = parser.parse_kpoint(ik)
-                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'espresso':
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 5682ee6..7188efd 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -196,7 +196,7 @@ class ParserAbinit():
          usepaw,
          nspinor,
          occopt) = np.array(record[0])[[0, 4, 8, 12, 13, 11, 14, 17, 10, 15]]
-        rprimd = record[1][7:16].reshape((3, 3))
+        rprimd = record[1][7:16].reshape((3, 3)) * BOHR  # to angstrom
         ecut = record[1][0] * Hartree_eV
         nshiftk_orig = record[2][1]
         nshiftk = record[2][2]
-- 
2.43.0


From c5fb587a8a90edfde101910a0eec21d64b3195c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 14/54] fix: energies of plane waves for Quantum ESPRESSO with
 the actual Bohr radius

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 4011230..14a3119 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -341,7 +341,7 @@ class BandStructure:
                 msg = f'Parsing wave functions at k-point #{ik:>3d}'
                 log_message(msg, v, 2)
                 WF, Energy, kg, kpt = parser.parse_kpoint(ik, NBin, spin_channel, v=v)
-                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice/2.0, self.Ecut0, self.Ecut, self.spinor)
+                WF, kg = sortIG(ik+1, kg, kpt, WF, self.RecLattice*BOHR, self.Ecut0, self.Ecut, self.spinor)
 
             elif code == 'wannier90':
                 kpt = kpred[ik]
-- 
2.43.0


From ba018bd8bca16fd7b5ac3cd8230d82ef2ca337df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 15/54] fix: read all plane waves below the cutoff from UNK
 files

Plane waves whose components add up to more than half of the grid were omitted,
which breaks the symmetry of the set in non-orthogonal cells. Plane waves that
are not in the grid are not aliased silently any more.
---
 irrep/bandstructure.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 14a3119..94b2e19 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -346,14 +346,16 @@ class BandStructure:
             elif code == 'wannier90':
                 kpt = kpred[ik]
                 Energy = Energies[ik]
-                ngx, ngy, ngz = parser.parse_grid(ik+1)
                 kg = calc_gvectors(kpred[ik],
                                    self.RecLattice,
                                    self.Ecut,
                                    spinor=self.spinor,
-                                   nplanemax=np.max([ngx, ngy, ngz]) // 2,
                                    v=v
                                    )
+                ngrid = parser.parse_grid(ik+1)
+                if np.any(kg[:3].max(axis=1) - kg[:3].min(axis=1) >= ngrid):
+                    raise RuntimeError(f"the grid of UNK files {ngrid} is too "
+                                       f"small for Ecut = {self.Ecut} eV")
                 selectG = tuple(kg[0:3])
                 msg = f'Parsing wave functions at k-point #{ik:>3d}: {kpt}'
                 log_message(msg, v, 2)
-- 
2.43.0


From d7c2c6377cfe759501b95a49d57b424d19b1fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:08 +0000
Subject: [PATCH 16/54] fix: count inversion-odd states also when inversion
 comes with a translation

---
 irrep/kpoint.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index f6a7e64..9b24382 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -224,11 +224,9 @@ class Kpoint:
             # Determine number of band inversions based on parity
             found = False
             for i,sym in enumerate(self.little_group):
-                if (
-                    sum(abs(sym.translation)) < 1e-6
-                    and
-                    abs(sym.rotation + np.eye(3)).sum() < 1e-6
-                ):
+                # Its square is the identity whatever the translation (position
+                # of the inversion center), so eigenvalues are always +-1
+                if abs(sym.rotation + np.eye(3)).sum() < 1e-6:
                     found = True
                     break
             if found:
-- 
2.43.0


From a36317a37263d390cb13b7bd4735a9a3c247e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:31 +0000
Subject: [PATCH 17/54] fix: print also the last level when irreps are not
 identified

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 9b24382..221025b 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -664,7 +664,7 @@ class Kpoint:
 
         self.onlytraces = irreptable is None
         if self.onlytraces:
-            irreps = ["None"] * (len(self.degeneracies) - 1)
+            irreps = ["None"] * len(self.degeneracies)
 
         else:
 
-- 
2.43.0


From 203456354f2f305f34e864565bc1e9e2874bd588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 18/54] fix: do not change the list of k-points passed by the
 caller

---
 irrep/bandstructure.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 94b2e19..a645306 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -304,8 +304,7 @@ class BandStructure:
         if kplist is None:
             kplist = range(NK)
         else:
-            kplist -= 1
-            kplist = np.array([k for k in kplist if k >= 0 and k < NK])
+            kplist = np.array([k - 1 for k in kplist if k >= 1 and k <= NK])
 
         # Parse wave functions at each k-point
         self.kpoints = []
-- 
2.43.0


From b25ceea195c864ca424c340be682ffc360e7ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 19/54] fix: read any selection of k-points, in any order, from
 Abinit files

---
 irrep/readfiles.py | 72 +++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 40 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 7188efd..3a1675c 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -124,7 +124,6 @@ class ParserAbinit():
     def __init__(self, filename):
         #fWFK = FF(fname, "r")
         self.fWFK = FFR(filename)  # temporary
-        self.kpt_count = 0  # index of the next k-point to be read
 
     def parse_header(self, v=0):
         '''
@@ -295,6 +294,7 @@ class ParserAbinit():
             record_abinit(self.fWFK,"i4")
 
         # Set as attributes quantities that need to be retrieved by the rest of methods
+        self.num_records_header = 5 + npsp + (2 if usepaw == 1 else 0)
         self.nband = nband
         self.spinor = spinor
         self.npwarr = npwarr
@@ -319,46 +319,38 @@ class ParserAbinit():
 
         nspinor = 2 if self.spinor else 1
 
-        # We need to skip lines in fWFK until we reach the lines of ik
-        for i in range(self.kpt_count, ik+1):
-
-            if self.kpt_count < ik:
-                skip = True
-            else:
-                skip = False
-
-            # 1st record: npw, nspinor, nband
-            record = record_abinit(self.fWFK, "i4")  # [0]
-            npw, nspinor_loc, nband = record
-            assert npw == self.npwarr[ik], ("Different number of plane waves "
-                                            "in header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nspinor_loc == nspinor, ("Different values of nspinor in "
-                                            "header and k-point's block. "
-                                            "Probably a bug in Abinit...")
-            assert nband == self.nband[ik], ("Different number of bands in "
-                                             "header and k-point's block. "
-                                             "Probably a bug in Abinit...")
-
-            # 2nd record: reciprocal lattice vectors in the expansion
-            kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
-
-            # 3rd record: energies and occupations
+        # Go to the block of ik: blocks of previous k-points contain 3 records
+        # and one more for each band
+        self.fWFK.goto_record(self.num_records_header
+                              + 3 * ik
+                              + int(np.sum(self.nband[:ik])))
+
+        # 1st record: npw, nspinor, nband
+        record = record_abinit(self.fWFK, "i4")  # [0]
+        npw, nspinor_loc, nband = record
+        assert npw == self.npwarr[ik], ("Different number of plane waves "
+                                        "in header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nspinor_loc == nspinor, ("Different values of nspinor in "
+                                        "header and k-point's block. "
+                                        "Probably a bug in Abinit...")
+        assert nband == self.nband[ik], ("Different number of bands in "
+                                         "header and k-point's block. "
+                                         "Probably a bug in Abinit...")
+
+        # 2nd record: reciprocal lattice vectors in the expansion
+        kg = record_abinit(self.fWFK, "i4").reshape(npw, 3)
+
+        # 3rd record: energies and occupations
+        record = record_abinit(self.fWFK, "f8")
+        eigen = record[:nband]
+        eigen *= Hartree_eV
+
+        # Next records: coefficients of expansions in plane waves
+        CG = np.zeros((nband, npw * nspinor), dtype=complex)
+        for iband in range(nband):
             record = record_abinit(self.fWFK, "f8")
-            if not skip:
-                eigen = record[:nband]
-                eigen *= Hartree_eV
-
-            # 4th record: coefficients of expansions in plane waves
-            if skip:
-                record = record_abinit(self.fWFK, "f8")
-            else:
-                CG = np.zeros((nband, npw * nspinor), dtype=complex)
-                for iband in range(nband):
-                    record = record_abinit(self.fWFK, "f8")
-                    CG[iband] = record[0::2] + 1.0j * record[1::2]
-
-            self.kpt_count += 1
+            CG[iband] = record[0::2] + 1.0j * record[1::2]
 
         return CG, eigen, kg
 
-- 
2.43.0


From c46dc25b24a0922bbf11be9ddd1efa38d9e57800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 20/54] fix: energies of the selected spin channel for Quantum
 ESPRESSO

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 3a1675c..303fe88 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -684,6 +684,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if spin_channel == "up":  # energies of both channels are written together
+            Energy = Energy[:NBin]
+        elif spin_channel == "dw":
+            Energy = Energy[len(Energy) - NBin:]
 
         # Open file with the wave functions
         wfcname="wfc{}{}".format({None:"","dw":"dw","up":"up"}[spin_channel], ik+1)
-- 
2.43.0


From 5d3888d89217384519beffffa50599c24531be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:10 +0000
Subject: [PATCH 21/54] fix: accept numbers for the Fermi energy

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index a645306..882f36a 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -251,7 +251,7 @@ class BandStructure:
             return
 
         # Set Fermi energy
-        if EF.lower() == "auto":
+        if str(EF).lower() == "auto":
             if EF_in is None:
                 self.efermi = 0.0
                 msg = "WARNING : fermi-energy not found. Setting it as 0 eV"
-- 
2.43.0


From 69a97de4f5142dfc05083fd3adda27fe69223289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 22/54] fix: read Abinit files of crystals with one atom

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 303fe88..8e7add3 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -235,7 +235,7 @@ class ParserAbinit():
                     ntypat=ntypat)
                )
         record = record_abinit(self.fWFK, fmt)[0]
-        typat = record[6]
+        typat = np.atleast_1d(record[6])  # int if there is one atom
         kpt = record[7]
         nband = record[1]
         istwfk = record[0]
-- 
2.43.0


From 3b163744d6d05fffe3028d5e8ab124785f516fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 23/54] fix: read .eig files with a single line

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 8e7add3..a66f254 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -895,7 +895,7 @@ class ParserW90:
         '''
 
         feig = self.prefix + ".eig"
-        Energy = np.loadtxt(self.prefix + ".eig")
+        Energy = np.loadtxt(feig, ndmin=2)
         try:
             if Energy.shape[0] != self.NBin * self.NK:
                 raise RuntimeError("wrong number of entries ")
-- 
2.43.0


From e5f60cbbc8e7cb81390ecb313d46ceb89d283193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:31 +0000
Subject: [PATCH 24/54] fix: allow numbers of bands that vary with k-points

---
 irrep/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 882f36a..114dd7e 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -377,7 +377,7 @@ class BandStructure:
                 Energy=Energy,
                 ig=kg,
                 upper=upper,
-                num_bands=NBout,
+                num_bands=len(Energy),  # it may vary with k in Abinit
                 RecLattice=self.RecLattice,
                 calculate_traces=calculate_traces,
                 symmetries_SG=self.spacegroup.symmetries,
-- 
2.43.0


From 68ede5b797a2a11eaeea7cd2628b3e34fd2f40b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 25/54] fix: allow comments at the end of lines of .win files

---
 irrep/readfiles.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index a66f254..eaa56eb 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -756,11 +756,15 @@ class ParserW90:
     def __init__(self, prefix):
 
         self.prefix = prefix
-        self.fwin = [l.strip().lower() for l in open(prefix + ".win").readlines()]
+        # Remove comments, which may also follow the value of a parameter
+        self.fwin = [
+            l.split("!")[0].split("#")[0].strip().lower()
+            for l in open(prefix + ".win").readlines()
+        ]
         self.fwin = [
             [s.strip() for s in split(l)]
             for l in self.fwin
-            if len(l) > 0 and l[0] not in ("!", "#")
+            if len(l) > 0
         ]
         self.ind = np.array([l[0] for l in self.fwin])
         self.iterwin = iter(self.fwin)
-- 
2.43.0


From aec316f43f37270cb1a598b7f13db6b8b6753424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 26/54] fix: read mp_grid without assignment sign

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index eaa56eb..d223bdd 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -791,7 +791,7 @@ class ParserW90:
             EF = self.get_param("fermi_energy", float, None)
         except RuntimeError:
             EF = None
-        self.NK = np.prod(np.array(self.get_param("mp_grid", str).split(), dtype=int))
+        self.NK = np.prod(np.array(self.get_param("mp_grid", str, join=True).split(), dtype=int))
 
         return self.NK, self.NBin, self.spinor, EF
 
-- 
2.43.0


From 68e311881d75df947606e1dd6aec0becb4021e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 27/54] fix: units and order of the block atoms_cart in .win
 files

---
 irrep/readfiles.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index d223bdd..139d444 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -865,8 +865,13 @@ class ParserW90:
                     found_atoms = True
                     positions = []
                     nameat = []
+                    cartesian = l[1][6:10] == "cart"
+                    units_atoms = "ang"
                     while True:
                         l1 = next(self.iterwin)
+                        if cartesian and len(nameat) == 0 and l1[0] in ("bohr", "ang"):
+                            units_atoms = l1[0]
+                            continue
                         if l1[0] == "end":
                             if l1[1] != l[1]:
                                 raise RuntimeError(
@@ -881,8 +886,12 @@ class ParserW90:
                     typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
-                    if l[1][6:10] == "cart":  # from cartesian to direct coords
-                        positions = positions.dot(np.linalg.inv(lattice))
+
+        # From cartesian to direct coords. Blocks may come in any order
+        if cartesian:
+            if units_atoms == "bohr":
+                positions *= BOHR
+            positions = positions.dot(np.linalg.inv(lattice))
 
         return lattice, positions, typat, kpred
 
-- 
2.43.0


From f03ddb1f0c5e7f6de5feeac9469fd7b21790d5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 28/54] fix: number species of .win files in order of
 appearance

---
 irrep/readfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 139d444..e2d1e8a 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -883,7 +883,7 @@ class ParserW90:
                                 break
                         nameat.append(l1[0])
                         positions.append(l1[1:4])
-                    typatdic = {n: i + 1 for i, n in enumerate(set(nameat))}
+                    typatdic = {n: i + 1 for i, n in enumerate(dict.fromkeys(nameat))}
                     typat = [typatdic[n] for n in nameat]
                     positions = np.array(positions, dtype=float)
 
-- 
2.43.0


From 8f15ca7ac03a80b02a2518cc51e3a9846e8f0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 29/54] fix: scale factor of POSCAR for cartesian positions and
 given volume

---
 irrep/readfiles.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index e2d1e8a..bcdb188 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -413,8 +413,11 @@ class ParserVasp:
         fpos = (l.strip() for l in open(self.fPOS))
         title = next(fpos)  # title
         del title
-        lattice = float(
-            next(fpos)) * np.array([next(fpos).split() for i in range(3)], dtype=float)
+        scale = float(next(fpos))
+        lattice = np.array([next(fpos).split() for i in range(3)], dtype=float)
+        if scale < 0:  # it is the volume of the cell
+            scale = (-scale / abs(np.linalg.det(lattice)))**(1/3)
+        lattice *= scale
         try:
             nat = np.array(next(fpos).split(), dtype=int)
         except BaseException:
@@ -447,7 +450,7 @@ class ParserVasp:
                 "not all atomic positions were read : {0} of {1}".format(
                     i, sum(nat)))
         if cartesian:
-            positions = positions.dot(np.linalg.inv(lattice))
+            positions = scale * positions.dot(np.linalg.inv(lattice))
         return lattice, positions, typat
 
     def parse_header(self):
-- 
2.43.0


From f0678df2d69dfd1bc50be0d9140d1e64b6067655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:09 +0000
Subject: [PATCH 30/54] fix: reject incomplete atomic positions in POSCAR

---
 irrep/readfiles.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index bcdb188..05f284d 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -439,12 +439,12 @@ class ParserVasp:
         for l in fpos:
             if i >= sum(nat):
                 break
-            try:
-                positions[i] = np.array(l.split()[:3])
-                i += 1
-            except Exception as err:
-                log_message(err, msg, 1)
-                pass
+            position = l.split()[:3]
+            if len(position) != 3:
+                raise RuntimeError(
+                    "wrong atomic position in POSCAR: '{}'".format(l))
+            positions[i] = np.array(position)
+            i += 1
         if sum(nat) != i:
             raise RuntimeError(
                 "not all atomic positions were read : {0} of {1}".format(
-- 
2.43.0


From e43fca220cb0a097bb2638874d260dce3551e7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 31/54] fix: direction of the axis of two-fold rotations
 independent of rounding

---
 irrep/spacegroup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 8035dbf..6d5f25b 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -162,6 +162,10 @@ class SymmetryOperation():
             angle = 0
         elif np.isclose(E[:2], -1).all():
             angle = np.pi
+            # both directions of the axis give the same rotation, but opposite
+            # spinor rotations: choose always the same one
+            if axis[np.where(abs(axis) > 1e-3)[0][-1]] < 0:
+                axis = -axis
         else:
             angle = np.angle(E[0])
             v = V[:, 0]
-- 
2.43.0


From 45eee10e74c78173a425375a7757ebe2e2b5533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 32/54] fix: separation of states by symmetry eigenvalues, with
 and without grouping of Kramers pairs, in any number of steps

---
 irrep/bandstructure.py |  76 +++++++----------------------
 irrep/kpoint.py        | 106 ++++++++++++++++++-----------------------
 2 files changed, 63 insertions(+), 119 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 114dd7e..ca0065a 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -662,68 +662,26 @@ class BandStructure:
 
         # Separate each k-point
         kpseparated = [
-            kp.Separate(symop, degen_thresh=degen_thresh, groupKramers=groupKramers)
+            kp.Separate(symop, degen_thresh=degen_thresh, groupKramers=groupKramers, v=v)
             for kp in self.kpoints
         ] # each element is a dict with separated bandstructure of a k-point
 
-        allvalues = np.array(sum((list(kps.keys()) for kps in kpseparated), []))
-        #        print (allvalues)
-        #        for kps in kpseparated :
-        #            allvalues=allvalues | set( kps.keys())
-        #        allvalues=np.array(allavalues)
-        if groupKramers:
-            allvalues = allvalues[np.argsort(np.real(allvalues))].real
-            borders = np.hstack(
-                (
-                    [0],
-                    np.where(abs(allvalues[1:] - allvalues[:-1]) > 0.01)[0] + 1,
-                    [len(allvalues)],
-                )
-            )
-            #            nv=len(allvalues)
-            if len(borders) > 2:
-                allvalues = set(
-                    [allvalues[b1:b2].mean() for b1, b2 in zip(borders, borders[1:])]
-                ) # unrepeated Re parts of all eigenvalues
-                subspaces = {}
-                for v in allvalues:
-                    other = copy.copy(self)
-                    other.kpoints = []
-                    for K in kpseparated:
-                        vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
-                            other.kpoints.append(K[vk0])
-                    subspaces[v] = other # unnecessary indent ?
-                return subspaces
-            else:
-                return dict({allvalues.mean(): self})
-        else:
-            allvalues = allvalues[np.argsort(np.angle(allvalues))]
-            log_message(f'allvalues: {allvalues}', v, 1)
-            borders = np.where(abs(allvalues - np.roll(allvalues, 1)) > 0.01)[0]
-            nv = len(allvalues)
-            if len(borders) > 0:
-                allvalues = set(
-                    [
-                        np.roll(allvalues, -b1)[: (b2 - b1) % nv].mean()
-                        for b1, b2 in zip(borders, np.roll(borders, -1))
-                    ]
-                )
-                log_message(f'Distinct values: {allvalues}', v, 1)
-                subspaces = {}
-                for v in allvalues:
-                    other = copy.copy(self)
-                    other.kpoints = []
-                    for K in kpseparated:
-                        vk = list(K.keys())
-                        vk0 = vk[np.argmin(np.abs(v - vk))]
-                        if abs(vk0 - v) < 0.05:
-                            other.kpoints.append(K[vk0])
-                        subspaces[v] = other
-                return subspaces
-            else:
-                return dict({allvalues.mean(): self})
+        # Bring together the subspaces of all k-points with close eigenvalues
+        subspaces = {}
+        for kps in kpseparated:
+            for w, kp in kps.items():
+                for v in subspaces:
+                    if abs(w - v) < 0.05:
+                        break
+                else:
+                    v = w
+                    subspaces[v] = copy.copy(self)
+                    subspaces[v].kpoints = []
+                subspaces[v].kpoints.append(kp)
+
+        if len(subspaces) == 1:
+            return {v: self for v in subspaces}
+        return {v: subspaces[v] for v in sorted(subspaces, key=np.real, reverse=True)}
 
     def zakphase(self):
         """
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index 221025b..a7b22be 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -18,8 +18,8 @@
 
 from functools import lru_cache
 import numpy as np
-import numpy.linalg as la
 import copy
+from scipy.linalg import schur
 from .gvectors import symm_eigenvalues, symm_matrix
 from .utility import compstr, is_round, format_matrix, log_message
 
@@ -276,6 +276,9 @@ class Kpoint:
         WF : array
             Coefficients of the plane-wave expansion of wave-functions. Each row 
             corresponds to a wave-function, each row to a plane-wave.
+        inds : array
+            Index, in attributes `char` and `irreps`, of the energy-level to 
+            which each state belongs.
 
         Returns
         -------
@@ -285,25 +288,27 @@ class Kpoint:
         """
         other = copy.copy(self) # copy of whose class
         # Sort energy levels
-        sortE = np.argsort(E)
+        sortE = np.argsort(E, kind="stable")
         other.Energy_mean = E[sortE]
+        other.Energy_raw = E[sortE]
         other.WF = WF[sortE]
         other.num_bands = len(E)
         inds = inds[sortE]
 
+        # States of different levels should not be mixed if separated again
+        other.borders = np.hstack([
+             [0],
+             np.where(inds[1:] != inds[:-1])[0] + 1,
+             [other.num_bands],
+        ])
+
         # Do not group by degeneracy of energy-levels for printing
         other.degeneracies = [1] * other.num_bands
-        char = []
-        char_refUC = []
-        for i in inds:
-            char.append(other.char[i])
-            char_refUC.append(other.char_refUC[i])
-        other.char = np.array(char)
-        other.char_refUC = np.array(char_refUC)
-        irreps = []
-        for i in inds:
-            irreps.append(other.irreps[i])
-        other.irreps = irreps
+        if hasattr(self, "char"):
+            other.char = self.char[inds]
+            other.char_refUC = self.char_refUC[inds]
+        if hasattr(self, "irreps"):
+            other.irreps = [self.irreps[i] for i in inds]
         return other
 
     def unfold(self, supercell, kptPBZ, degen_thresh=1e-4):
@@ -487,7 +492,7 @@ class Kpoint:
         check = np.max(abs(Sblock))
         if check > 0.1:
             msg = ("WARNING: matrix of symmetry has non-zero elements between "
-                   "states of different energy:  \n", check)
+                   f"states of different energy:  \n {check}")
             log_message(msg, v, 1)
             msg = (f"Printing matrix of symmetry at k={self.k}")
             log_message(msg, v, 1)
@@ -498,19 +503,20 @@ class Kpoint:
         eigenvectors = []
         inds_states = []
         Eloc = []
-        for istate, num_states in  enumerate(self.degeneracies):
-            b1 = self.borders[istate]
-            b2 = self.borders[istate+1]
-            inds_states += [istate] * num_states  # index for set of states
-            W, V = la.eig(S[b1:b2, b1:b2])
-            for w, v in zip(W, V.T):
+        # index in attributes char and irreps for each state
+        inds_char = np.repeat(np.arange(len(self.degeneracies)), self.degeneracies)
+        for b1, b2 in zip(self.borders, self.borders[1:]):
+            # Schur vectors of a unitary matrix are orthonormal eigenvectors
+            T, V = schur(S[b1:b2, b1:b2], output='complex')
+            for w, vec in zip(np.diag(T), V.T):
                 eigenvalues.append(w)
-                Eloc.append(self.Energy_mean[istate])
+                inds_states.append(inds_char[b1])
+                Eloc.append(self.Energy_raw[b1:b2].mean())
                 eigenvectors.append(
-                    np.hstack((np.zeros(b1), v, np.zeros(self.num_bands - b2)))
+                    np.hstack((np.zeros(b1), vec, np.zeros(self.num_bands - b2)))
                 )
         w = np.array(eigenvalues)
-        v = np.array(eigenvectors).T # each col an eigenvector
+        eigenvectors = np.array(eigenvectors).T # each col an eigenvector
         Eloc = np.array(Eloc)
         inds_states = np.array(inds_states)
 
@@ -521,48 +527,28 @@ class Kpoint:
             raise RuntimeError(" some eigenvalues are not unitary :{0} ".format(w))
         w /= np.abs(w)
 
-        subspaces = {}
-
         if groupKramers:
-
-            # Sort based on real part of eigenvalues
-            arg = np.argsort(np.real(w))
-            w = w[arg]
-            v = v[:, arg]
-            Eloc = Eloc[arg]
-            inds_states = inds_states[arg]
-            borders = np.hstack(
-                ([0], np.where((w[1:] - w[:-1]) > 0.05)[0] + 1, [self.num_bands])
-            )
-
-            # Probably this if-else statement can be removed
-            if len(borders) > 0:
-                for b1, b2 in zip(borders, borders[1:]):
-                    v1 = v[:, b1:b2]
-                    subspaces[w[b1:b2].mean()] = self.copy_sub(E=Eloc[b1:b2], WF=v1.T.dot(self.WF), inds=inds_states[b1:b2])
-            else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, WF=v1.T.dot(self.WF), degen_thresh=degen_thresh, inds_states=inds_states)
+            # Group states whose eigenvalues have the same real part
+            w = np.real(w)
+            arg = np.argsort(w)
+            borders = np.where(w[arg][1:] - w[arg][:-1] > 0.05)[0] + 1
 
         else:  # don't group Kramers pairs
-            
-            # Sort based on the argument of eigenvalues
+            # Sort based on the argument of eigenvalues. Start in a gap, in
+            # order not to split a group whose argument is close to pi
             arg = np.argsort(np.angle(w))
-            w = w[arg]
-            v = v[:, arg]
-            Eloc = Eloc[arg]
-            borders = np.where(abs(w - np.roll(w, 1)) > 0.1)[0]
-
-            if len(borders) > 0:
-                for b1, b2 in zip(borders, np.roll(borders, -1)):
-                    v1 = np.roll(v, -b1, axis=1)[:, : (b2 - b1) % self.num_bands]
-                    subspaces[np.roll(w, -b1)[: (b2 - b1) % self.num_bands].mean()] = self.copy_sub(
-                        E=np.roll(Eloc, -b1)[: (b2 - b1) % self.num_bands], degen_thresh=degen_thresh, WF=v1.T.dot(self.WF)
-                    )
+            jumps = np.where(abs(w[arg] - np.roll(w[arg], 1)) > 0.1)[0]
+            if len(jumps) > 0:
+                arg = np.roll(arg, -jumps[0])
+            borders = np.where(abs(w[arg][1:] - w[arg][:-1]) > 0.1)[0] + 1
 
-            else:
-                v1 = v
-                subspaces[w.mean()] = self.copy_sub(E=Eloc, degen_thresh=degen_thresh, WF=v1.T.dot(self.WF))
+        subspaces = {}
+        for group in np.split(arg, borders):
+            subspaces[w[group].mean()] = self.copy_sub(
+                E=Eloc[group],
+                WF=eigenvectors[:, group].T.dot(self.WF),
+                inds=inds_states[group]
+            )
 
         return subspaces
 
-- 
2.43.0


From 2b764039707340008eb21ba84d27c95e77e1f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 33/54] fix: calculation of Zak phases and Wannier charge
 centers

---
 irrep/bandstructure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index ca0065a..611eb67 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -710,7 +710,7 @@ class BandStructure:
         print("overlaps")
         for O in overlaps:
             print(np.abs(O[0, 0]), np.angle(O[0, 0]))
-        print("   sum  ", np.sum(np.angle(O[0, 0]) for O in overlaps) / np.pi)
+        print("   sum  ", np.sum([np.angle(O[0, 0]) for O in overlaps]) / np.pi)
         #        overlaps.append(self.kpoints[-1].overlap(self.kpoints[0],g=np.array( (self.kpoints[-1].K-self.kpoints[0].K).round(),dtype=int )  )  )
         nmax = np.min([o.shape for o in overlaps])
         # calculate zak phase in incresing dimension of the subspace (1 band,
@@ -721,13 +721,13 @@ class BandStructure:
         #        print (np.array([k.Energy[1:] for k in self.kpoints] ))
         #        print (np.min([k.Energy[1:] for k in self.kpoints],axis=0) )
         emin = np.hstack(
-            (np.min([k.Energy[1:nmax] for k in self.kpoints], axis=0), [np.inf])
+            (np.min([k.Energy_raw[1:nmax] for k in self.kpoints], axis=0), [np.inf])
         )
-        emax = np.max([k.Energy[:nmax] for k in self.kpoints], axis=0)
+        emax = np.max([k.Energy_raw[:nmax] for k in self.kpoints], axis=0)
         locgap = np.hstack(
             (
                 np.min(
-                    [k.Energy[1:nmax] - k.Energy[0 : nmax - 1] for k in self.kpoints],
+                    [k.Energy_raw[1:nmax] - k.Energy_raw[0 : nmax - 1] for k in self.kpoints],
                     axis=0,
                 ),
                 [np.inf],
@@ -753,7 +753,7 @@ class BandStructure:
             np.dot,
             [functools.reduce(np.dot, np.linalg.svd(O)[0:3:2]) for O in overlaps],
         )
-        return np.sort((np.angle(np.linalg.eig(wilson)) / (2 * np.pi)) % 1)
+        return np.sort((np.angle(np.linalg.eigvals(wilson)) / (2 * np.pi)) % 1)
 
     def write_plotfile(self, filename='bands-tognuplot.dat'):
         """
-- 
2.43.0


From 2679d1ed1fc2bd34bb55393250ea4cecff47a9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:44 +0000
Subject: [PATCH 34/54] fix: Zak phases of all subspaces, not only of the first
 one

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index e755bfe..d06bd05 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -456,7 +456,7 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-            exit()
+        exit()
 
     if wcc:
         for k in subbands:
-- 
2.43.0


From 069e65e7884bb21b41ac027aa33e5ed8ee4781e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:56 +0000
Subject: [PATCH 35/54] fix: sign of the translations read from .sym files

---
 irrep/spacegroup.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 6d5f25b..7cf96eb 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1380,7 +1380,8 @@ def read_sym_file(fname):
     np.array(Nsym, 3, 3)
         Each element is a 3x3 array describing a rotation matrix in cartesian coordinates
     np.array(Nsym, 3)
-        Each element is a 3D vector describing a translation in units of alat.
+        Each element is a 3D vector describing a translation in units of alat
+        (with the sign opposite to that in the file).
     """
 
     with open(fname, "r") as f:
@@ -1391,7 +1392,8 @@ def read_sym_file(fname):
     assert len(lines) == 1 + 4 * nsym
     RT = np.array(lines[1:], dtype=float).reshape(nsym, 4, 3)
     rotations = RT[:, 0:3]
-    translations = RT[:, 3] 
+    # In the file, operations act on a point r as rR - t
+    translations = -RT[:, 3]
     return rotations, translations
 
 def cart_to_crystal(rot_cart, trans_cart, lattice, alat):
-- 
2.43.0


From abb5c8d1cc14ef936b1148f6040fe66dd9311c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 36/54] fix: options trans_thresh and alat were ignored

---
 irrep/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/irrep/cli.py b/irrep/cli.py
index d06bd05..9a113e3 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -377,6 +377,8 @@ def cli(
         search_cell = searchcell,
         degen_thresh=degenthresh,
         save_wf=save_wf,
+        trans_thresh=trans_thresh,
+        alat=alat,
         v=v,
         from_sym_file=from_sym_file
     )
-- 
2.43.0


From 457b695c216647f7e9112cdb9e03c8bdb491252a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:23 +0000
Subject: [PATCH 37/54] fix: separation by several symmetries in the command
 line

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 9a113e3..4920d6e 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -421,9 +421,9 @@ def cli(
     if isymsep is not None:
         json_data["separated by symmetry"]=True
         json_data["separating symmetries"]=isymsep
-        tmp_subbands = {}
         for isym in isymsep:
             print("\n-------- SEPARATING BY SYMMETRY # {} --------".format(isym))
+            tmp_subbands = {}
             for s_old, bs in subbands.items():
                 separated = bs.Separate(isym, degen_thresh=degenthresh, groupKramers=groupkramers, v=v)
                 for s_new, bs_separated in separated.items():
-- 
2.43.0


From 40666a5feb23ddac5c95f4197995e467ad520374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:36 +0000
Subject: [PATCH 38/54] fix: names of k-points in irrep-output.json and
 selection of symmetries in the text printed

---
 irrep/cli.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 4920d6e..7f40a8d 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -383,7 +383,7 @@ def cli(
         from_sym_file=from_sym_file
     )
 
-    bandstr.spacegroup.show()
+    bandstr.spacegroup.show(symmetries)
 
     if writesym:
         bandstr.spacegroup.write_sym_file(filename=prefix+".sym", alat=alat)
@@ -412,7 +412,7 @@ def cli(
     # Temporary, until we make it valid for isymsep
     json_data = {}
     json_data ["spacegroup"] = bandstr.spacegroup.json(symmetries=symmetries)
-    json_bandstr = bandstr.json()
+    json_bandstr = bandstr.json(kpnames)
     json_data['characters and irreps'] = [{"subspace": json_bandstr}]
 
     # Separate in terms of symmetry eigenvalues
@@ -439,7 +439,12 @@ def cli(
                     ),
                 )
                 sub.write_characters()
-                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(symmetries)})
+                # Names of the k-points where there are states in the subspace
+                names = None
+                if kpnames is not None:
+                    kpinds = [kp.ik0 for kp in bandstr.kpoints]
+                    names = [kpnames[kpinds.index(kp.ik0)] for kp in sub.kpoints]
+                json_data["characters and irreps"].append({"symmetry eigenvalues":k , "subspace": sub.json(names)})
     else :
         json_data["separated by symmetry"]=False
         
-- 
2.43.0


From 7a140c410c9add63eff81fc2ede6cf877e15188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:22 +0000
Subject: [PATCH 39/54] fix: option correct_Ecut0 was ignored

---
 irrep/bandstructure.py | 5 +++++
 irrep/cli.py           | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 611eb67..07820f3 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -92,6 +92,9 @@ class BandStructure:
         1: print info about decisions taken internally by the code, recommended 
         when the code runs without errors but the result is not the expected.
         2: print detailed info, recommended when the code stops with an error
+    correct_Ecut0 : float, default=0.
+        Correction (in eV) added to the cutoff read from WAVECAR. Only applied 
+        in the interface to VASP.
 
     Attributes
     ----------
@@ -161,6 +164,7 @@ class BandStructure:
         v=0,
         alat=None,
         from_sym_file=None,
+        correct_Ecut0=0.,
     ):
 
         code = code.lower()
@@ -180,6 +184,7 @@ class BandStructure:
             self.Lattice, positions, typat = parser.parse_poscar(v)
             if not onlysym:
                 NK, NBin, self.Ecut0, lattice = parser.parse_header()
+                self.Ecut0 += correct_Ecut0
                 if not np.allclose(self.Lattice, lattice):
                     raise RuntimeError("POSCAR and WAVECAR contain different lattices")
                 EF_in = None  # not written in WAVECAR
diff --git a/irrep/cli.py b/irrep/cli.py
index 7f40a8d..219127c 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -380,7 +380,8 @@ def cli(
         trans_thresh=trans_thresh,
         alat=alat,
         v=v,
-        from_sym_file=from_sym_file
+        from_sym_file=from_sym_file,
+        correct_Ecut0=correct_ecut0
     )
 
     bandstr.spacegroup.show(symmetries)
-- 
2.43.0


From a93f8fa333c3adadfb1d7d02030330aa320dbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 40/54] fix: values of any type in configuration files, command
 line takes precedence

---
 irrep/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 219127c..5d5bf17 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -48,9 +48,15 @@ class LoadContextFromConfig(click.Command):
             # sanitize inputs to be all lower-case
             config_data = {k.lower(): v for k, v in config_data.items()}
 
-            for param, value in ctx.params.items():
-                if param in config_data:
-                    ctx.params[param] = config_data[param]
+            for param in self.params:
+                # options given in the command line take precedence
+                source = ctx.get_parameter_source(param.name)
+                if (param.name in ctx.params and param.name in config_data
+                        and source is not click.core.ParameterSource.COMMANDLINE):
+                    value = config_data[param.name]
+                    if isinstance(value, (list, tuple)):
+                        value = ",".join(str(x) for x in np.ravel(value))
+                    ctx.params[param.name] = param.type_cast_value(ctx, value)
 
         return super(LoadContextFromConfig, self).invoke(ctx)
 
-- 
2.43.0


From 2b03d0d6a385d5c789bffb6d51a3c38f905cc97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:54 +0000
Subject: [PATCH 41/54] fix: separation by more than one symmetry ended with an
 error

---
 irrep/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 5d5bf17..405a1ef 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -359,7 +359,7 @@ def cli(
     if kpnames:
         kpnames = kpnames.split(",")
 
-    if isymsep or wcc or zak:
+    if isymsep is not None or wcc or zak:
         save_wf = True
     else:
         save_wf = False
-- 
2.43.0


From 810e87a1c15afc86100bfc8054d1afe98ad9ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:09 +0000
Subject: [PATCH 42/54] fix: print imaginary parts of traces in the reference
 cell when those of the DFT cell are real

---
 irrep/kpoint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index a7b22be..efa572d 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -711,7 +711,8 @@ class Kpoint:
             str_irreps.append(s)
 
         # Set auxiliary blank strings for formatting
-        writeimaginary = np.abs(self.char.imag).max() > 1e-4
+        writeimaginary = max(np.abs(self.char.imag).max(),
+                             np.abs(self.char_refUC.imag).max()) > 1e-4
         if writeimaginary:
             aux1 = ' ' * 4
         else:
-- 
2.43.0


From ac5d5258e2aee845ed43e8871f0daebe76aa8172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 43/54] fix: traces in a reference cell whose symmetries don't
 match those in tables

---
 irrep/bandstructure.py | 3 ++-
 irrep/kpoint.py        | 5 +++--
 irrep/spacegroup.py    | 6 +++++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 07820f3..6272554 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -390,7 +390,8 @@ class BandStructure:
                 degen_thresh=degen_thresh,
                 refUC=self.spacegroup.refUC,
                 shiftUC=self.spacegroup.shiftUC,
-                symmetries_tables=self.spacegroup.symmetries_tables,
+                symmetries_tables=(self.spacegroup.symmetries_tables
+                                   if self.spacegroup.match_tables else None),
                 save_wf=save_wf,
                 v=v
                 )
diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index efa572d..a5e0891 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -569,7 +569,8 @@ class Kpoint:
         symmetries_tables : list
             Attribute `symmetries` of class `IrrepTable`. Each component is an 
             instance of class `SymopTable` corresponding to a symmetry operation
-            in the "point-group" of the space-group.
+            in the "point-group" of the space-group. If it is `None`, 
+            translations of symmetries are those in the reference cell.
         degen_thresh : float, default=1e-8
             Threshold to identify degenerate energy levels.
         
@@ -626,7 +627,7 @@ class Kpoint:
             # Matrices for spinors may differ from those in tables even if
             # calculational and reference cells are identical
             char_refUC[:,i] *= sym.sign
-            if not same_cell:
+            if not same_cell and symmetries_tables is not None:
                 dt = (symmetries_tables[sym.ind-1].t 
                       - sym.translation_refUC(refUC, shiftUC))
                 char_refUC[:,i] *= np.exp(-2j*np.pi*dt.dot(self.k_refUC))
diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 7cf96eb..e5ef723 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -519,6 +519,9 @@ class SpaceGroup():
         Attribute `symmetries` of class `IrrepTable`. Each component is an 
         instance of class `SymopTable` corresponding to a symmetry operation
         in the "point-group" of the space-group.
+    match_tables : bool
+        `True` if operations in `symmetries` correspond to those in 
+        `symmetries_tables` when expressed in the reference cell.
     name : str 
         Symbol of the space-group in Hermann-Mauguin notation. 
     number : int 
@@ -596,6 +599,7 @@ class SpaceGroup():
         # in the CLI and symmetries don't match, raise a warning.
         # Otherwise, transf. was calculated automatically and 
         # matching of symmetries was checked in determine_basis_transf
+        self.match_tables = True
         try:
             ind, dt, signs = self.match_symmetries(signs=self.spinor,
                                                    trans_thresh=trans_thresh
@@ -608,6 +612,7 @@ class SpaceGroup():
                 self.symmetries.append(self.symmetries[i_ind])
             self.symmetries = self.symmetries[i+1:]
         except RuntimeError:
+            self.match_tables = False
             if search_cell:  # symmetries must match to identify irreps
                 raise RuntimeError((
                     "refUC and shiftUC don't transform the cellto one where "
@@ -623,7 +628,6 @@ class SpaceGroup():
                        "tables. If you want to achieve the same cell as in "
                        "tables, try not specifying refUC and shiftUC.")
                 log_message(msg, v, 1)
-                pass
 
     def _findsym(self, cell, from_sym_file, alat):
         """
-- 
2.43.0


From c02378df0e0133f0053f0389d2bf1828922d8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:13 +0000
Subject: [PATCH 44/54] fix: irreps identified although symmetries don't match
 those in tables

---
 irrep/spacegroup.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index e5ef723..9ee20d0 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -997,6 +997,10 @@ class SpaceGroup():
             given in parameter `kpname`.
         """
 
+        if not self.match_tables:
+            raise RuntimeError("Irreps can't be identified because symmetries "
+                               "in the reference cell don't match those in "
+                               "the tables. Try with search_cell=True")
         table = IrrepTable(self.number, self.spinor, v=v)
         tab = {}
         for irr in table.irreps:
-- 
2.43.0


From 565a7202a89734bff2c08581279c77837fd5bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:11 +0000
Subject: [PATCH 45/54] fix: calculations of WCC and bands for plots skipped
 after Zak phases or WCC

---
 irrep/cli.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/irrep/cli.py b/irrep/cli.py
index 405a1ef..60f20ee 100644
--- a/irrep/cli.py
+++ b/irrep/cli.py
@@ -470,7 +470,6 @@ def cli(
                         n=n + 1, z=z / np.pi, gap=gw, cent=gc, lg=lgw
                     )
                 )
-        exit()
 
     if wcc:
         for k in subbands:
@@ -482,7 +481,6 @@ def cli(
                     k, wcc, np.sum(wcc) % 1
                 )
             )
-        exit()
 
     if plotbands:
         print("\nplotbands = True --> writing bands")
-- 
2.43.0


From fba54a9e4a10291fd71bee1e342ea670df73dc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 46/54] fix: separation by symmetries that don't exist

---
 irrep/bandstructure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/irrep/bandstructure.py b/irrep/bandstructure.py
index 6272554..474388c 100644
--- a/irrep/bandstructure.py
+++ b/irrep/bandstructure.py
@@ -659,6 +659,9 @@ class BandStructure:
             the subspace of that eigenvalue.
         """
 
+        if not 1 <= isymop <= len(self.spacegroup.symmetries):
+            raise ValueError("There is not any symmetry with index {}"
+                             .format(isymop))
         if isymop == 1:
             return {1: self}
 
-- 
2.43.0


From 0616267eccb45106d9f7978e6804cb6a7d23707e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 47/54] fix: wave functions passed to Kpoint were normalized in
 place

---
 irrep/kpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/irrep/kpoint.py b/irrep/kpoint.py
index a5e0891..3f4f64e 100644
--- a/irrep/kpoint.py
+++ b/irrep/kpoint.py
@@ -188,7 +188,7 @@ class Kpoint:
         self.upper = upper
 
         self.k_refUC = np.dot(refUC.T, self.k)
-        self.WF /= (
+        self.WF = self.WF / (
             np.sqrt(np.abs(np.einsum("ij,ij->i", self.WF.conj(), self.WF)))
         ).reshape(self.num_bands, 1)
 
-- 
2.43.0


From 8c3bbdab16b2d218106eade2ca6f6fe038104c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 48/54] fix: wave functions of a WAVECAR cut short were read as
 valid

---
 irrep/readfiles.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 05f284d..13b7497 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -511,7 +511,12 @@ class ParserVasp:
         Energy = np.array(r[4 : 4 + NBin * 3]).reshape(NBin, 3)[:, 0]
         WF = np.zeros((NBin, npw), dtype=np.complex64)
         for ib in range(NBin):
-            WF[ib] = self.fWAV.record(3 + ik * (NBin + 1) + ib, npw, np.complex64)
+            record = self.fWAV.record(3 + ik * (NBin + 1) + ib, npw, np.complex64)
+            if len(record) != npw:
+                raise RuntimeError("WAVECAR contains {0} coefs of band {1} at "
+                                   "k-point {2}, expected {3}"
+                                   .format(len(record), ib + 1, ik + 1, npw))
+            WF[ib] = record
         return WF, Energy, kpt, npw
 
 class ParserEspresso:
-- 
2.43.0


From 09ed4e6b406e8eb71dd663a72d8b77bbba02bbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:14 +0000
Subject: [PATCH 49/54] fix: records of Abinit files of wrong length were read
 as valid

---
 irrep/readfiles.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 13b7497..7d71c10 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -343,6 +343,8 @@ class ParserAbinit():
 
         # 3rd record: energies and occupations
         record = record_abinit(self.fWFK, "f8")
+        assert len(record) == 2 * nband, ("Wrong number of energies in "
+                                          "k-point's block.")
         eigen = record[:nband]
         eigen *= Hartree_eV
 
@@ -350,6 +352,8 @@ class ParserAbinit():
         CG = np.zeros((nband, npw * nspinor), dtype=complex)
         for iband in range(nband):
             record = record_abinit(self.fWFK, "f8")
+            assert len(record) == 2 * npw * nspinor, ("Wrong number of coefs "
+                                                      "in k-point's block.")
             CG[iband] = record[0::2] + 1.0j * record[1::2]
 
         return CG, eigen, kg
-- 
2.43.0


From 40d1bbc29c8824daea9ce2ed58981f6ced227def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:44 +0000
Subject: [PATCH 50/54] fix: Quantum Espresso files that contradict each other
 were read as valid

---
 irrep/readfiles.py | 62 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 61 insertions(+), 1 deletion(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index 7d71c10..c7b2c55 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -556,6 +556,12 @@ class ParserEspresso:
         outp = myroot.find("output")
         self.bandstr = outp.find("band_structure")
 
+        # Lattice parameter (bohr) to which coords of k-points are referred
+        struct = outp.find("atomic_structure")
+        self.alat = None
+        if struct is not None and "alat" in struct.attrib:
+            self.alat = float(struct.attrib["alat"])
+
         # todo: define spinor as property with getter
         self.spinor = str2bool(self.bandstr.find("noncolin").text)
 
@@ -607,6 +613,11 @@ class ParserEspresso:
             NBin_list = [NBin_up, NBin_dw]
         else:
             NBin_list = [NBin]
+        self.NBtot = sum(NBin_list)
+        nks = self.bandstr.find("nks")
+        if nks is not None and int(nks.text) != NK:
+            raise RuntimeError("data-file-schema.xml contains {} k-points, "
+                               "expected {}".format(NK, nks.text))
         return spinpol, Ecut0, EF, NK, NBin_list
 
     def parse_lattice(self):
@@ -696,6 +707,10 @@ class ParserEspresso:
         # Parse energy levels
         Energy = np.array(kptxml.find("eigenvalues").text.split(), dtype=float)
         Energy *= Hartree_eV
+        if len(Energy) != self.NBtot:
+            raise RuntimeError("data-file-schema.xml contains {} energies at "
+                               "k-point {}, expected {}"
+                               .format(len(Energy), ik + 1, self.NBtot))
         if spin_channel == "up":  # energies of both channels are written together
             Energy = Energy[:NBin]
         elif spin_channel == "dw":
@@ -712,11 +727,14 @@ class ParserEspresso:
         kpt = rec[1]  # cartesian coords of k-point
 
         rec = record_abinit(fWFC, "4i4")
-        igwx = rec[1]
+        igwx, npol, nbnd = rec[1:]
 
         # Determine direct coords of k-point
         rec = record_abinit(fWFC, "(3,3)f8")
         B = np.array(rec)
+        if not self.wfc_matches_xml(kptxml, kpt, B, igwx, npol, nbnd, NBin):
+            raise RuntimeError("file {} doesn't correspond to the calculation "
+                               "of data-file-schema.xml".format(wfcname))
         kpt = kpt.dot(np.linalg.inv(B))
 
         rec = record_abinit(fWFC, "({},3)i4".format(igwx))
@@ -734,6 +752,48 @@ class ParserEspresso:
 
         return WF, Energy, kg, kpt
 
+    def wfc_matches_xml(self, kptxml, kpt, B, igwx, npol, nbnd, NBin):
+        '''
+        Check if the header of a file of wave functions is consistent with 
+        the `data-file-schema.xml` file
+
+        Parameters
+        ----------
+        kptxml : class
+            Instance of `Element` corresponding to the k-point
+        kpt : array
+            Cartesian coords of the k-point (1/bohr) in the file of 
+            wave functions
+        B : array
+            Each row contains the cartesian coords (1/bohr) of a vector of 
+            the reciprocal lattice in the file of wave functions
+        igwx : int
+            Number of plane waves in the file of wave functions
+        npol : int
+            Number of spinor components in the file of wave functions
+        nbnd : int
+            Number of bands in the file of wave functions
+        NBin : int
+            Number of bands in `data-file-schema.xml`
+
+        Returns
+        -------
+        bool
+            `True` if both files are consistent.
+        '''
+
+        lattice = self.parse_lattice()[0] / BOHR
+        match = (igwx == int(kptxml.find("npw").text)
+                 and npol == (2 if self.spinor else 1)
+                 and nbnd == NBin
+                 and np.allclose(B.dot(lattice.T), 2 * np.pi * np.eye(3), atol=1e-3)
+                 )
+        if match and self.alat is not None:
+            kpt_xml = np.array(kptxml.find("k_point").text.split(), dtype=float)
+            kpt_xml *= 2 * np.pi / self.alat
+            match = np.allclose(kpt, kpt_xml, atol=1e-4)
+        return match
+
 
 class ParserW90:
     '''
-- 
2.43.0


From cecba821e32e4c2ce1b3e5f31b7129d9132eb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 51/54] fix: a .sym file with part of the operations was
 matched to the tables of the whole group

---
 irrep/spacegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/irrep/spacegroup.py b/irrep/spacegroup.py
index 9ee20d0..07abcf3 100644
--- a/irrep/spacegroup.py
+++ b/irrep/spacegroup.py
@@ -1296,7 +1296,8 @@ class SpaceGroup():
                      "rotational part. \nR(found) = \n{} \nt(found) = {}"
                      .format(R, t))
 
-        if (len(set(ind)) != len(self.symmetries)):
+        if (len(set(ind)) != len(self.symmetries)
+                or len(ind) != len(self.symmetries_tables)):
             raise RuntimeError(
                 "Error in matching symmetries detected by spglib with the \
                  symmetries in the tables. Try to modify the refUC and shiftUC \
-- 
2.43.0


From 149f8dcd1edd74b0f3ac5e09661e68807a6d39b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 52/54] fix: Quantum ESPRESSO files with half of the plane
 waves (gamma_only) were read as if they held all of them

---
 irrep/readfiles.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index c7b2c55..ec1b357 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -725,6 +725,11 @@ class ParserEspresso:
 
         rec = record_abinit(fWFC, "i4,3f8,i4,i4,f8")[0]
         kpt = rec[1]  # cartesian coords of k-point
+        if rec[3] != 0:
+            raise RuntimeError("file {} contains half of the plane waves "
+                               "(gamma_only), which is not supported. Use a "
+                               "list of k-points instead of K_POINTS gamma"
+                               .format(wfcname))
 
         rec = record_abinit(fWFC, "4i4")
         igwx, npol, nbnd = rec[1:]
-- 
2.43.0


From 034b9e01f6ea275b30e6676449ded756698e3e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 53/54] fix: after a relaxation with Quantum ESPRESSO, the
 initial structure was combined with the final wave functions

---
 irrep/readfiles.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/irrep/readfiles.py b/irrep/readfiles.py
index ec1b357..0d26c22 100644
--- a/irrep/readfiles.py
+++ b/irrep/readfiles.py
@@ -540,6 +540,9 @@ class ParserEspresso:
     input : class
         Instance of `Element` in the ElementTree XML API corresponding 
         to tag `input` in `data-file-schema.xml` file
+    struct_out : class
+        Instance of `Element` in the ElementTree XML API corresponding 
+        to tag `output/atomic_structure`, `None` if it is not written
     bandstructure : class
         Instance of `Element` in the ElementTree XML API corresponding 
         to tag `band_structure` in `data-file-schema.xml` file
@@ -557,10 +560,10 @@ class ParserEspresso:
         self.bandstr = outp.find("band_structure")
 
         # Lattice parameter (bohr) to which coords of k-points are referred
-        struct = outp.find("atomic_structure")
+        self.struct_out = outp.find("atomic_structure")
         self.alat = None
-        if struct is not None and "alat" in struct.attrib:
-            self.alat = float(struct.attrib["alat"])
+        if self.struct_out is not None and "alat" in self.struct_out.attrib:
+            self.alat = float(self.struct_out.attrib["alat"])
 
         # todo: define spinor as property with getter
         self.spinor = str2bool(self.bandstr.find("noncolin").text)
@@ -642,6 +645,10 @@ class ParserEspresso:
         struct = self.input.find("atomic_structure")
         nat = int(struct.attrib["nat"])
         alat = float(struct.attrib["alat"])
+        # Wave functions correspond to the final structure, which differs from
+        # that of the input after a relaxation
+        if self.struct_out is not None:
+            struct = self.struct_out
         del nat
 
         # Parse lattice vectors
-- 
2.43.0


From d3f8bc4f0d742976af580cf8714d4e79d58502a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 54/54] fix: plane waves at the cutoff were dropped from Abinit
 and Quantum ESPRESSO files although no reduced cutoff was asked for

---
 irrep/gvectors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/irrep/gvectors.py b/irrep/gvectors.py
index c709b6a..a93f088 100644
--- a/irrep/gvectors.py
+++ b/irrep/gvectors.py
@@ -227,7 +227,10 @@ def sortIG(ik, kg, kpt, CG, RecLattice, Ecut0, Ecut, spinor):
         )
     )
     assert Ecut0 * 1.000000001 > np.max(eKG)
-    sel = np.where(eKG < Ecut)[0]
+    if Ecut < Ecut0:
+        sel = np.where(eKG < Ecut)[0]
+    else:  # keep also those at the cutoff
+        sel = np.arange(npw)
 
     KG = KG[sel]
     kg = kg[sel]
-- 
2.43.0

