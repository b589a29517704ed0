From 0129d62b9a9c75b5653bc75bcbaa70bb3d127aa0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/29] fix: S+S- on a determinant keeps its holes ordered and
 complete

Holes went through an unordered set, so with 9 sites or more and several
holes the result was not a basis element (wrong index or IndexError in S^2),
and sites outside a sites restriction were lost.
---
 interactions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/interactions.py b/interactions.py
index c3e6038..5256975 100644
--- a/interactions.py
+++ b/interactions.py
@@ -617,8 +617,12 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
     Returns:
         det_return (list<int>): the resulting Slater determinant
     """
-    list_alpha = bC.get_indexes_of(configuration, det, 1)
-    list_beta = bC.get_indexes_of(configuration, det, -1)
+    nholes = configuration.nholes
+    nbeta = configuration.nbeta
+
+    list_holes = sorted(det[:nholes])
+    list_beta = det[nholes : nholes + nbeta]
+    list_alpha = det[nholes + nbeta :]
     
     if site_plus in list_beta:
         if site_minus in list_alpha:
@@ -631,7 +635,7 @@ def compute_S_plus_S_minus_det(configuration, det, site_plus, site_minus):
             list_alpha.sort()
             list_beta.sort()
             
-            det_return = bC.get_indexes_of(configuration, det, 0) + list_beta + list_alpha
+            det_return = list_holes + list_beta + list_alpha
             return det_return
     else:
         return
-- 
2.43.0


From f783e4c5669811763af056a980c8a7c6de3e4ba4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 02/29] fix: spin flip classifies neighbouring holes like the
 static exchange

It compared site indices, which tells colinear from orthogonal holes only in
row by row indexing: on clusters and peripheral lattices the diagonal and the
off-diagonal part of the same exchange used different couplings.
---
 interactions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interactions.py b/interactions.py
index 5256975..28f42b4 100644
--- a/interactions.py
+++ b/interactions.py
@@ -281,8 +281,7 @@ def compute_spin_flip(configuration, interactions, vect):
             ind_neigh_hole_0 = list(set(ind_neigh_0) & set(bC.get_indexes_of(configuration, vect, 0)))
             ind_neigh_hole_1 = list(set(ind_neigh_1) & set(bC.get_indexes_of(configuration, vect, 0)))
             if (ind_neigh_hole_0 or ind_neigh_hole_1) \
-                and (ind_1 - ind_0 in [abs(ind_0 - ind_hole) for ind_hole in ind_neigh_hole_0] + \
-                [abs(ind_1 - ind_hole) for ind_hole in ind_neigh_hole_1]): # Check if a neighboring hole is aligned with the pair
+                and True in [bC.is_bond_linear(configuration, ind_1, ind_0, ind_hole) for ind_hole in ind_neigh_hole_0 + ind_neigh_hole_1]: # Check if a neighboring hole is aligned with the pair
                 
                 images_par.append(bC.reorder_basis_element(configuration, temp))
 
-- 
2.43.0


From 34f2404b64227c5f7f823095fd0b83379d4554d4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 03/29] fix: dynamic couplings use J/2 for spin flips, as the
 Hamiltonian does

---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index 28f42b4..ad362ad 100644
--- a/interactions.py
+++ b/interactions.py
@@ -522,7 +522,7 @@ def compute_dynamic_interactions(configuration, interactions, bool_interactions,
         print("[itr] tN_ortho_coupled = ", tN_ortho_coupled)
     if bij:
         Jcol_coupled, Jortho_coupled, J_coupled = compute_spin_flip(configuration, interactions, det)
-        events += [(Jcol_coupled, Jhpar), (Jortho_coupled, Jhper), (J_coupled, J)]
+        events += [(Jcol_coupled, Jhpar/2), (Jortho_coupled, Jhper/2), (J_coupled, J/2)]
     if bSD:
         hpar_coupled, hper_coupled = compute_singlet_displacement(configuration, interactions, det)
         singlet_events = [(hpar_coupled, hSDpar), (hper_coupled, hSDper)]
-- 
2.43.0


From 531261c89f08861413d14e020facc42e05ec4b0a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 04/29] fix: colinearity in cluster indexing on any joined
 lattice

The permutation to row by row indexing was recovered from eigenvectors, which
fails on degenerate spectra (two 1x5 columns: IndexError) and enumerated 2^n
signs.
---
 baseConstruction.py | 55 ++++-----------------------------------------
 1 file changed, 4 insertions(+), 51 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..904187f 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -5,7 +5,7 @@ import scipy.special as spec
 
 import latticeFunctions as lF
 
-from itertools import combinations, permutations, product
+from itertools import combinations
 from tqdm import tqdm, trange # Install tqdm via pip    
 
 class Configuration :
@@ -353,56 +353,9 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
                     return False
 
             
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # Whatever the indexing, the ends of a corner share a second neighbor, those of a straight line do not
+        return not [site for site in range(configuration.nsites) if site != site_2 \
+            and bond_matrix[site, site_1] == 1 and bond_matrix[site, site_3] == 1]
 
 
 # Display functions
-- 
2.43.0


From e5e0a612a75aab69e57a58557292c2caeec90be5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:16 +0000
Subject: [PATCH 05/29] fix: colinearity around one site wide blocks in a
 peripheral lattice

The direction of a bond was read from an index difference of 1, which is a
vertical bond in a single column block, and a block site between two opposite
peripheral sites was called a corner.
---
 baseConstruction.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 904187f..92f65c8 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -336,23 +336,18 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
             return is_bond_linear(configuration_periodic, site_1, site_2, site_3)
         elif site_1 >= nsites and site_2 >= nsites and site_3 >= nsites: # If sites are all on the peripheral lattice, there are obviously colinear
             return True
-        elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
+        elif site_2 >= nsites: # The bond turns from the block onto the peripheral lattice
             return False 
-        else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
-                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
-                    and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
-                    return False
-                else: # Second bond horizontal
-                    return True
-            else: # First bond vertical
-                if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
-                    and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
-                    return True
-                else: # Second bond horizontal
-                    return False
+        else: # The middle site is in the block, the bonds are colinear if both are horizontal or both vertical
+            are_vertical = []
+            for site in (site_1, site_3):
+                if site < nsites:
+                    are_vertical.append(site // (nbh * nblocs_side) != site_2 // (nbh * nblocs_side))
+                else:
+                    are_vertical.append(site < nsites + nbh * nblocs_side \
+                        or nsites + (nbh + nbv) * nblocs_side <= site < nsites + (2 * nbh + nbv) * nblocs_side)
+            return are_vertical[0] == are_vertical[1]
 
-            
     else: # Whatever the indexing, the ends of a corner share a second neighbor, those of a straight line do not
         return not [site for site in range(configuration.nsites) if site != site_2 \
             and bond_matrix[site, site_1] == 1 and bond_matrix[site, site_3] == 1]
-- 
2.43.0


From 1443ed689c19fe789f4fddd182b8e7e35aed5b8f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 06/29] fix: displaying a basis or dominant determinants needs
 the configuration

Both passed the basis where a configuration is expected: AttributeError.
---
 baseConstruction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 92f65c8..8f82526 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -390,7 +390,7 @@ def get_displayable_basis(basis):
     
     print_basis = []
     for det in determinants :
-        print_basis.append(get_displayable_determinant(basis, det))
+        print_basis.append(get_displayable_determinant(basis.configuration, det))
     return print_basis
     
 def get_displayable_rectangular_lattice(configuration, vect):
@@ -729,7 +729,7 @@ def get_displayable_dominant_determinants(basis, vect, ndet):
         list_det (list<str>): the list of corresponding determinants in the basis, as a displayable string
     """
     list_coeffs, list_dets = get_dominant_determinants(basis, vect, ndet)
-    list_dets_displayable = [get_displayable_rectangular_lattice(basis, det) for det in list_dets]
+    list_dets_displayable = [get_displayable_rectangular_lattice(basis.configuration, det) for det in list_dets]
     return (list_coeffs, list_dets_displayable)
 
 ### Symmetry functions
-- 
2.43.0


From 3830af139e42d8bc377332601aad695a8bda80eb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 07/29] fix: presence probabilities on the lattice were divided
 twice by the norm

---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 8f82526..e24ed32 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -680,7 +680,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From eaf0f98469be47ede062767c3053245ad81f38c7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/29] fix: dominant determinants of equal weight are all
 listed

Determinants were looked up by the value of their coefficient, so the first of
those with equal weights was repeated in place of the others.
---
 baseConstruction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index e24ed32..bf2d6d3 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -707,13 +707,13 @@ def get_dominant_determinants(basis, vect, ndet):
     temp_vect = temp_vect.tolist()
     
     abs_temp_vect = [abs(elt) for elt in temp_vect]
-    sorted_abs_temp_vect = sorted(abs_temp_vect, reverse=True)[:min(ndet, len(temp_vect))]
+    sorted_indexes = sorted(range(len(temp_vect)), key=lambda ind: abs_temp_vect[ind], reverse=True)[:min(ndet, len(temp_vect))]
     
     # Determination of the most dominant determinants and their indexes
     list_dets, list_coeffs = [], []
-    for abs_elt in sorted_abs_temp_vect:
-        list_coeffs.append(temp_vect[abs_temp_vect.index(abs_elt)])
-        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, abs_temp_vect.index(abs_elt)))
+    for ind in sorted_indexes:
+        list_coeffs.append(temp_vect[ind])
+        list_dets.append(get_hash_basis(nholes, nalpha, nbeta, ind))
 
     return (list_coeffs, list_dets)
 
-- 
2.43.0


From 2fe2865aeec07e8fd59fa0587e7a3e4d9a291e41 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 09/29] fix: reversing spins or joining determinants keeps
 every site

Both went through the sites restriction of the configuration and dropped the
sites outside of it; joined determinants also came out unordered.
---
 baseConstruction.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index bf2d6d3..44675a6 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -232,9 +232,12 @@ def extend_determinant(configuration_1, configuration_2, det_1, det_2):
     """
     nsites_1 = configuration_1.nsites
 
-    det_1_hole, det_2_hole = get_indexes_of(configuration_1, det_1, 0), get_indexes_of(configuration_2, det_2, 0)
-    det_1_beta, det_2_beta = get_indexes_of(configuration_1, det_1, -1), get_indexes_of(configuration_2, det_2, -1)
-    det_1_alpha, det_2_alpha = get_indexes_of(configuration_1, det_1, 1), get_indexes_of(configuration_2, det_2, 1)
+    nholes_1, nholes_2 = configuration_1.nholes, configuration_2.nholes
+    nbeta_1, nbeta_2 = configuration_1.nbeta, configuration_2.nbeta
+
+    det_1_hole, det_2_hole = det_1[:nholes_1], det_2[:nholes_2]
+    det_1_beta, det_2_beta = det_1[nholes_1 : nholes_1 + nbeta_1], det_2[nholes_2 : nholes_2 + nbeta_2]
+    det_1_alpha, det_2_alpha = det_1[nholes_1 + nbeta_1 :], det_2[nholes_2 + nbeta_2 :]
 
     det_hole = det_1_hole + [site + nsites_1 for site in det_2_hole]
     det_beta = det_1_beta + [site + nsites_1 for site in det_2_beta]
@@ -262,7 +265,9 @@ def reverse_spins(configuration, det):
         configuration.nbv, 
         configuration.nblocs_side
     )
-    det_flip = get_indexes_of(configuration, det, 0) + get_indexes_of(configuration, det, 1) + get_indexes_of(configuration, det, -1)
+    nholes = configuration.nholes
+    nbeta = configuration.nbeta
+    det_flip = det[:nholes] + det[nholes + nbeta :] + det[nholes : nholes + nbeta]
     return configuration_flip, reorder_basis_element(configuration_flip, det_flip)
 
 
-- 
2.43.0


From 46bf87132234f759368a66b5a6080b3a85eba1fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 10/29] fix: loaded configurations keep their indexing and
 sites restriction

The lattice type was reset to 'periodic', and the sites restriction came back
as a list of lists, which neighbour queries cannot use (TypeError).
---
 initialComputations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..fbdd42a 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,9 +218,9 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
         nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+    for key in ["sites_restriction", "lattice_type", "nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
-            setattr(configuration_class, key, configuration[key])
+            setattr(configuration_class, key, tuple(configuration[key]) if key == "sites_restriction" else configuration[key])
     if "times" in kwargs.keys():
         return DataComputations(\
             Data(
-- 
2.43.0


From 7c9de9f6f65443c900aef498162420f0791fbe40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 11/29] fix: keep the bV_embedding selection

It was accepted and dropped, so plotting hole densities raised AttributeError.
---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index fbdd42a..9eef66f 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -38,6 +38,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From c03661ff4a4ad9a7c67acb5ee265865f1b55709c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 12/29] fix: embeddings use the file name of the selected
 interactions

With a partial selection every extension was appended, so the saved results of
the cluster could not be found.
---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index 50fec1e..dfdd195 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -290,7 +290,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -399,7 +399,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -804,7 +804,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From ace99a806d9116d6d28c491080c15817c426848e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:58 +0000
Subject: [PATCH 13/29] fix: computing every configuration of a lattice keeps
 its indexing type

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index 9eef66f..dfbbce0 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -284,6 +284,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From 3702ae6d713e8135bd568f708771a11e22d0f7d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 14/29] fix: results without computation times can be saved

Times are optional and load_data accepts files without them, but save_data
raised AttributeError after truncating the file.
---
 initialComputations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index dfbbce0..a68d5e2 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -194,7 +194,7 @@ def save_data(data_computations):
                 "spins" : data_computations.eigenstates.spins,
                 "eigvects" : data_computations.eigenstates.eigvects.tolist()
                 },
-            "times" : data_computations.times.__dict__
+            **({"times" : data_computations.times.__dict__} if data_computations.times is not None else {})
         }))
 
 def recover_results(configuration, interactions, diagonalization, bool_interactions, determinants, hamiltonian, eigenstates, **kwargs):
-- 
2.43.0


From 39389e118b5bb59ede38cd0719b26ea8e183db5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 15/29] fix: embedding results can be saved with an initial
 guess

As in save_data, the guess is discarded: an array is not JSON serializable, so
the run failed at its very end and left an empty file.
---
 embedding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/embedding.py b/embedding.py
index dfdd195..67ec4ba 100644
--- a/embedding.py
+++ b/embedding.py
@@ -274,6 +274,9 @@ def save_data_peripheral_embedding(data_computations):
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # BoolInteractions
     bool_interactions = data_computations.data.bool_interactions
     bt = bool_interactions.bt
@@ -781,6 +784,9 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
 
+    # Diagonalization
+    data_computations.data.diagonalization.initial_guess = None # Discarding initial guess
+
     # BoolInteractions
     bool_interactions = data_computations.data.bool_interactions
     bt = bool_interactions.bt
-- 
2.43.0


From 0a27bfbffc3b2a02fc531b0660c891aaa380f988 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 16/29] fix: build_hamiltonian applies its sites restriction

The argument was documented and ignored.
---
 hamiltonianConstruction.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hamiltonianConstruction.py b/hamiltonianConstruction.py
index 93627e2..aca557d 100644
--- a/hamiltonianConstruction.py
+++ b/hamiltonianConstruction.py
@@ -1,4 +1,7 @@
+import copy
+
 import latticeFunctions as lF
+import baseConstruction as bC
 import numpy as np
 import interactions as itr
 import scipy.sparse as sp
@@ -40,8 +43,10 @@ def build_hamiltonian(configuration, interactions, basis, bool_interactions, sit
     nalpha = configuration.nalpha
     nbeta = configuration.nbeta
     nsites = configuration.nsites
-    if not sites_restriction:
-        sites_restriction = list(range(nsites))
+    if sites_restriction:
+        configuration = copy.copy(configuration)
+        configuration.sites_restriction = sites_restriction if isinstance(sites_restriction, tuple) else (sites_restriction, sites_restriction)
+        basis = bC.Basis(configuration, basis.determinants)
 
     dim = lF.compute_dimension(nsites,nalpha,nbeta)
     # Interactions booleans
-- 
2.43.0


From 5e970b81b13603f861df7188fe227b21c05dc7fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 17/29] fix: block embedding keeps its results when iterations
 run out

Like the Neel embedding, and as documented: it returned None and saved nothing.
---
 embedding.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embedding.py b/embedding.py
index 67ec4ba..8be6b5f 100644
--- a/embedding.py
+++ b/embedding.py
@@ -767,6 +767,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     print("Maximum number of iterations exceeded")
     print("[emb] ground state energy = {} | embedded ground state energy = {}".format(\
                 eigenstates_block.eigvals[0], eigenstates_embedded.eigvals[0]))
+    data_computation = iC.DataComputations(data, determinants_block, ham_block_embedded, eigenstates_embedded)
+    save_data_embedding_blocks(data_computation, dynamic_embedding, neel_embedding, neighbor_embedding)
+    return data_computation
 
 def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedding, neighbor_embedding):
     """
-- 
2.43.0


From 7abc7cfa9817e54f15f92855ad9eafe53b7ee096 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 18/29] fix: Davidson procedure for any start vector

A single start vector was not normalised: a short one passed for converged, and
an eigenvector of eigenvalue 0 came back unnormalised. A Ritz value equal to a
diagonal element (determinants as guesses) divided by zero. A limit dim_max
beyond the dimension let nb_val exceed it (IndexError).
---
 davidson.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..2d909cc 100644
--- a/davidson.py
+++ b/davidson.py
@@ -244,16 +244,16 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     dim = A.shape[0]
     if dim_max == 0:
         dim_max = dim
-    nb_val = min(nb_val, dim_max)
+    nb_val = min(nb_val, dim_max, dim)
 
     if initial_guess is None:
         initial_guess = np.random.rand(dim, nb_val)
     
     # Krylov basis (basis of the search space)
-    if nb_val > 1 :
+    if initial_guess.shape[1] > 1 :
         krylov_basis = perform_modified_gram_schmidt(initial_guess)
     else:
-        krylov_basis = initial_guess
+        krylov_basis = initial_guess / lin.norm(initial_guess)
 
     for _ in trange_verbose(stp, verbose):
         # Krylov vectors
@@ -278,7 +278,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / (diag - eigvals_temp[ind]) if abs(diag - eigvals_temp[ind]) > 1e-12 else 1. for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From c5ab058de183232eaff2746abecb67d48eb67751 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:56 +0000
Subject: [PATCH 19/29] fix: gramSchmidt accepts fewer vectors than components

---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 2d909cc..cf1fbc0 100644
--- a/davidson.py
+++ b/davidson.py
@@ -312,7 +312,7 @@ def gramSchmidt(V):
     Returns:
         A (np.array): the orthonormalized set of vectors
     """
-    dim = V.shape[0]
+    dim = V.shape[1]
     A = np.zeros(V.shape) # Orthonormalized columns of V
     A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
     for col in range(1, dim):
-- 
2.43.0


From c49a2e9a7582d2f69d4ea54ffc04662318f1bd1f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 20/29] fix: a hole does not hop onto another hole outside the
 starting sites

Only holes among the starting sites were recognised, so with a two part sites
restriction two facing holes gave the determinant itself as an image.
---
 interactions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interactions.py b/interactions.py
index ad362ad..ffb3bea 100644
--- a/interactions.py
+++ b/interactions.py
@@ -66,7 +66,7 @@ def compute_hopping_integral(configuration, interactions, det):
         for site_hole in sites_holes:
             hole_neighbors = lF.get_neighbors(site_hole, bond_matrix, sites_restriction)
             for neighbor in hole_neighbors:
-                if not(neighbor in sites_holes):
+                if bC.get_spin_site(configuration, det, neighbor) != 0:
                     ind_hole = det.index(site_hole)
                     ind_neighbor = det.index(neighbor)
                     temp = copy.deepcopy(det)
-- 
2.43.0


From 1b1eac3bf8c72a63996f62186a9f9724513345ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:44 +0000
Subject: [PATCH 21/29] fix: let the Davidson search space grow up to its limit

The test compared the limit with the dimension of the matrix instead of
the number of vectors of the search space, so every step restarted and
the procedure stagnated for some starting vectors.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index cf1fbc0..b3409d8 100644
--- a/davidson.py
+++ b/davidson.py
@@ -282,7 +282,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-        if krylov_basis.shape[0] > dim_max - nb_val :
+        if krylov_basis.shape[1] > dim_max - nb_val :
             krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
         else : # expansion of the search subspace
             krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-- 
2.43.0


From c2443f86742f7561ec23587feb41f7f08e9efdc0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 22/29] fix: dynamic embedding next to a copy with reversed
 spins

---
 embedding.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/embedding.py b/embedding.py
index 8be6b5f..da2c075 100644
--- a/embedding.py
+++ b/embedding.py
@@ -478,6 +478,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
             ham_block_embedded = ham_block.tocoo(copy=True)
 
             probabilities_spins_B = bC.get_spins_probabilitites_lattice(basis_block, ground_state_temp, reverse_spins=reverse_spins)
+            ground_state_neighbor = bC.reverse_spins_vect(basis_block, ground_state_temp) if reverse_spins else ground_state_temp
 
             for ind_A, det_A in enumerate(determinants_block):
                 #print("[emb] ---------------------------------------------------------------------------------------------------------------------------------------")
@@ -542,8 +543,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                         )
                         configuration_temp_B = bC.Configuration(
                             bond_matrix_block,
-                            nholes_block - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
-                            nbeta_block - delta_nbeta,
+                            nholes_neighbor - (delta_nalpha + delta_nbeta == -1) + (delta_nalpha + delta_nbeta == 1),
+                            nbeta_neighbor - delta_nbeta,
                             configuration_block.sites_restriction,
                             "periodic",
                             nbh, nbv, nblocs_side
@@ -575,9 +576,9 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
 
                                 configuration_perturbed_B = copy.deepcopy(configuration_neighbor)
                                 setattr(configuration_perturbed_B, spins_attributes[spin], \
-                                    getattr(configuration_block, spins_attributes[spin]) + 1)
+                                    getattr(configuration_neighbor, spins_attributes[spin]) + 1)
                                 setattr(configuration_perturbed_B, spins_attributes[new_spin], \
-                                    getattr(configuration_block, spins_attributes[new_spin]) - 1)
+                                    getattr(configuration_neighbor, spins_attributes[new_spin]) - 1)
 
                                 configuration_perturbed_B = bC.Configuration(
                                     bond_matrix=configuration_perturbed_B.bond_matrix, nholes=configuration_perturbed_B.nholes, nbeta=configuration_perturbed_B.nbeta, 
@@ -679,12 +680,12 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                                                         coupling_2 = coupled_dets[new_det_2]
 
                                                         ind_new_det_B_1 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_1 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_1 if site >= nsites_block])
                                                         ind_new_det_B_2 = bC.get_index_in_basis(
-                                                            configuration_block, [site - nsites_block for site in new_det_2 if site >= nsites_block])
+                                                            configuration_neighbor, [site - nsites_block for site in new_det_2 if site >= nsites_block])
 
-                                                        coupling = (np.conj(ground_state_temp[ind_new_det_B_1, 0]) \
-                                                            * ground_state_temp[ind_new_det_B_2, 0] \
+                                                        coupling = (np.conj(ground_state_neighbor[ind_new_det_B_1, 0]) \
+                                                            * ground_state_neighbor[ind_new_det_B_2, 0] \
                                                             * coupling_1 * np.conj(coupling_2)) / (2 * ground_state_energy \
                                                                 - energy_perturbator)
                                                         #print("[emb] ({} - {}) : coupling = {} * {} * ({} * {}) / (2 * {} - {}) = ".format(ind, ind_temp + ind + 1, np.conj(ground_state_temp[ind_new_det_B_1, 0]), ground_state_temp[ind_new_det_B_2, 0], coupling_1, np.conj(coupling_2), ground_state_energy, energy_perturbator), coupling)
-- 
2.43.0


From 173297a8a31b61b4ef698abd92c1abccedcf4397 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 23/29] fix: draw a single picture of holes or amplitudes

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..22f1769 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -539,7 +539,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -756,7 +756,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0


From f91a709e73b628798d06c78c55dcd0d062682e1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 24/29] fix: draw densities with the first row of sites at the
 bottom

---
 postProcessing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 22f1769..440fd4f 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -565,7 +565,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
     # Interpolation of the probability density function
         x = list(range(nblocs_side * nbh))
         y = list(range(nblocs_side * nbv))
-        z = proba.tolist()
+        z = proba[::-1].tolist() # from the lowest row
 
         f = interp.interp2d(x, y, z)
 
@@ -661,8 +661,8 @@ def save_electron_probability_lattice(data_computation, nb_state):
         x = list(range(nblocs_side*nbh))
         y = list(range(nblocs_side*nbv))
         
-        z_alpha = proba_alpha.tolist()
-        z_beta = proba_beta.tolist()
+        z_alpha = proba_alpha[::-1].tolist() # from the lowest row
+        z_beta = proba_beta[::-1].tolist()
         z_charge = []
         for ind_row in range(len(z_alpha)):
             row = []
-- 
2.43.0


From 16e15db6845d29a5387d3de7afb1ef5ebd43b209 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:44 +0000
Subject: [PATCH 25/29] fix: draw the spectrum against t/J whatever the
 multiplicities and degeneracies

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 440fd4f..b080d4d 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -332,7 +332,7 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
     fig1 = plt.figure()
     ax1 = fig1.add_subplot(1, 1, 1)
     for ind in range(diagonalization.nb_val):
-        ax1.plot(tJ_range, np.array(spectrums_tJ[ind]), color=colors_multiplicities[spin_multiplicities_tJ[ind][0]], linestyle=linestyles_multiplicities[degeneracies_tJ[ind][0]])
+        ax1.plot(tJ_range, np.array(spectrums_tJ[ind]), color=colors_multiplicities.get(spin_multiplicities_tJ[ind][0], 'k'), linestyle=linestyles_multiplicities.get(degeneracies_tJ[ind][0], ':'))
     ax1.vlines(0.55/0.123, ymin=-2.6, ymax=1.3, color='k', linestyles='dashed')
     ax1.legend(handles=custom_lines)
     ax1.set_xscale('log')
@@ -351,7 +351,7 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
     fig2 = plt.figure()
     ax2 = fig2.add_subplot(1, 1, 1)
     for ind in range(diagonalization.nb_val):
-        ax2.plot(tJ_range, np.array(spectrums_tJ_extended[ind]), color=colors_multiplicities[spin_multiplicities_tJ_extended[ind][0]], linestyle=linestyles_multiplicities[degeneracies_tJ_extended[ind][0]])
+        ax2.plot(tJ_range, np.array(spectrums_tJ_extended[ind]), color=colors_multiplicities.get(spin_multiplicities_tJ_extended[ind][0], 'k'), linestyle=linestyles_multiplicities.get(degeneracies_tJ_extended[ind][0], ':'))
     ax2.vlines(0.55/0.123, ymin=-2.6, ymax=1.3, color='k', linestyles='dashed')
     ax2.legend(handles=custom_lines)
     ax2.set_xscale('log')
-- 
2.43.0


From be9f1c2047742110cad1668318469589099e377d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:15 +0000
Subject: [PATCH 26/29] fix: spins and multiplicities of several eigenvectors

---
 davidson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/davidson.py b/davidson.py
index b3409d8..96fc1a0 100644
--- a/davidson.py
+++ b/davidson.py
@@ -344,7 +344,7 @@ def perform_matrix_orthogonal_projection(A, vects): # Not complete
 
 def compute_spin_and_multiplicity(basis, eigvects): # Not complete
     """
-    Computes the expectation value of S^2 for each computed eigenvector
+    Computes the spin number and the name of the multiplicity of each computed eigenvector
     Args:
         basis (class baseConstruction.Basis): the basis of our configuration
         eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
@@ -357,7 +357,7 @@ def compute_spin_and_multiplicity(basis, eigvects): # Not complete
     multiplicity = []
 
     for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spin = itr.compute_spin_number(basis.configuration, eigvects[:,[ind]])
         spins.append(spin)
         multiplicity.append(itr.compute_spin_multiplicity(spin))
     return (spins,multiplicity)
-- 
2.43.0


From fe91c823b9af290d4cb2724d87f59e6597d95ab2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:34 +0000
Subject: [PATCH 27/29] fix: draw the phase diagram of every sector of spins at
 the values of its axes

---
 postProcessing.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index b080d4d..c4be99f 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -383,7 +383,7 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
     nholes = configuration.nholes
 
     # Interactions
-    interactions = data.interactions
+    interactions = copy.copy(data.interactions)
 
     J = interactions.J
 
@@ -400,8 +400,8 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
     for nalpha in range(nsites - nholes + 1):
         nbeta = nsites - nholes - nalpha
         
-        configuration.nalpha = nalpha
-        configuration.nbeta = nbeta
+        configuration = bC.Configuration(configuration.bond_matrix, nholes, nbeta, configuration.sites_restriction, \
+            configuration.lattice_type, configuration.nbh, configuration.nbv, configuration.nblocs_side)
 
         basis = bC.construct_basis(configuration)
         
@@ -415,34 +415,34 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
         
         # Computation of the plotted values
         
-        Zval = np.zeros((len(Y),len(X)))
-        Zspin = np.zeros((len(Y),len(X)))
+        Zval = np.zeros((len(y),len(x)))
+        Zspin = np.zeros((len(y),len(x)))
         
-        for iX in range(len(X)):
-            for iY in range((len(Y))):
+        for iX in range(len(x)):
+            for iY in range((len(y))):
                 # Hamiltonian construction
-                t = -iY*J
+                t = y[iY]*J
                 interactions.t = t
                 interactions.tNNN = -13 * t / 55
                 interactions.tnNNN = 36 * t / 55
-                VNN = iX*J
+                VNN = x[iX]*J
                 interactions.VNN = VNN
                 interactions.VNNNper = (0.79/1.77)*VNN
                 
                 verbose = False
-                ham = hC.build_hamiltonian(configuration, interactions, basis, bool_interactions, verbose)
+                ham = hC.build_hamiltonian(configuration, interactions, basis, bool_interactions, verbose=verbose)
                 
                 try :
-                    eigenstates = dav.modified_davidson_algorithm(ham, nb_state, stp, tol, dim_max)
+                    eigenstates = dav.modified_davidson_algorithm(ham, nb_state + 1, stp=stp, tol=tol, dim_max=dim_max)
                     eigval = eigenstates.eigvals[nb_state]
                     eigvect = eigenstates.eigvects[:,[nb_state]]
                     Zval[iY, iX] = eigval
-                    spin = itr.compute_spin_number(basis, eigvect)
+                    spin = itr.compute_spin_number(configuration, eigvect)
                     if spin != '-':
                         Zspin[iY, iX] = spin
                     else :
                         Zspin[iY, iX] = 0
-                except np.linalg.LinAlgError :
+                except (np.linalg.LinAlgError, IndexError) :
                     Zval[iY, iX] = 0
                     Zspin[iY, iX] = 0
         
-- 
2.43.0


From b38436f68bf863a3f58067204d287c4ce19bf519 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 28/29] fix: two runs saving their first embedding at once both
 create the folder

---
 embedding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/embedding.py b/embedding.py
index da2c075..3808d05 100644
--- a/embedding.py
+++ b/embedding.py
@@ -318,7 +318,7 @@ def save_data_peripheral_embedding(data_computations):
                     }
             })) 
     except OSError:
-        os.mkdir("./initialComputations/Peripheral_embedding")
+        os.makedirs("./initialComputations/Peripheral_embedding", exist_ok=True)
         with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
@@ -839,7 +839,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
                     }
             })) 
     except OSError:
-        os.mkdir("./initialComputations/Embedding_blocks")
+        os.makedirs("./initialComputations/Embedding_blocks", exist_ok=True)
         with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
             savefile.write(json.dumps({
                 "configuration" : configuration.__to_json__(), 
-- 
2.43.0


From 73bf9967d31ed48f5401adee4d7823783d0450e2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 29/29] fix: two runs drawing their first picture at once both
 create the folder

---
 postProcessing.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index c4be99f..10fe21e 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -343,7 +343,7 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
     except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites))
+        os.makedirs("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites), exist_ok=True)
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
 
@@ -362,7 +362,7 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
     except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites))
+        os.makedirs("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites), exist_ok=True)
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
         plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
 
@@ -617,7 +617,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
             transparent=False, bbox_inches=None, pad_inches=0.1,
             metadata=None)
     except FileNotFoundError :
-        os.mkdir("./tJ-HamCsr/tJ-H{}/HolePresenceProbability/".format(str(nsites)))
+        os.makedirs("./tJ-HamCsr/tJ-H{}/HolePresenceProbability/".format(str(nsites)), exist_ok=True)
         plt.savefig(file_name, 
             dpi=None, facecolor='w', edgecolor='w',
             orientation='portrait', format=None,
@@ -717,7 +717,7 @@ def save_electron_probability_lattice(data_computation, nb_state):
                     transparent=False, bbox_inches=None, pad_inches=0.1,
                     metadata=None)
             except FileNotFoundError :
-                os.mkdir(path = "./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState".format(nsites))
+                os.makedirs("./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState".format(nsites), exist_ok=True)
                 plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState/tJ-H{}{}{}.png".format(\
                     str(nsites), str(nsites), str(nalpha), str(nbeta)), 
                     dpi=None, facecolor='w', edgecolor='w',
@@ -734,7 +734,7 @@ def save_electron_probability_lattice(data_computation, nb_state):
                     transparent=False, bbox_inches=None, pad_inches=0.1,
                     metadata=None)
             except FileNotFoundError :
-                os.mkdir("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}".format(str(nsites), str(nb_state)))
+                os.makedirs("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}".format(str(nsites), str(nb_state)), exist_ok=True)
                 plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}/tJ-H{}{}{}.png".format(\
                     str(nsites), str(nb_state), str(nsites), str(nalpha), str(nbeta)), 
                     dpi=None, facecolor='w', edgecolor='w',
@@ -875,7 +875,7 @@ def plot_embedding_effect_on_determinants(data_computations_cluster, data_comput
         plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.pdf".format(\
             str(nsites), str(nsites), str(nalpha), str(nbeta)))
     except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/".format(nsites))
+        os.makedirs("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/".format(nsites), exist_ok=True)
         plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.png".format(\
             str(nsites), str(nsites), str(nalpha), str(nbeta)))
         plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.pdf".format(\
-- 
2.43.0

