From 331cb90ccee057f21bf05a772ca53fc13dc2fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 01/36] fix: keep Polya counts in exact integer arithmetic

nchoosek, normed_seq and the final division by the group order went through
floats, so counts above 2**53 were silently rounded.
---
 phenum/polyaburnside.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index f429848..896cd17 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -287,7 +287,7 @@ class Multinomial(object):
         Returns:
             norm_seq (list): The normalized lust of exponents.
         """
-        return [int(ai/self.power) for ai in seq]
+        return [int(ai//self.power) for ai in seq]
 
     def nchoosekm(self, sequence):
         """Returns the number of different ways to partition an n-element
@@ -339,10 +339,10 @@ class Multinomial(object):
         t = 1
         if k < n-k:
             for i in range(n, n-k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
         else:
             for i in range(n, k, -1):
-                t = t*i/(n-i+1)
+                t = t*i//(n-i+1)
 
         return t
 
@@ -544,4 +544,4 @@ def polya(concentrations, group, arrowings=None, debug=False):
         pp += p.coeff()
         
     rad = sum([p.coeff() for p in list(polyndict.values())])
-    return int(rad/float(len(group)))
+    return int(rad)//len(group)
-- 
2.43.0


From 18e90c920ad3f00a5600bc7703b93a04956ed891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 02/36] fix: stop multinomial and binomial_coefficient
 overflowing

numpy's fixed-width sum and product wrapped around (multinomial([30,30,30])
was wrong), as did binomials of the numpy integers read from enum.in.
---
 phenum/numerics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/phenum/numerics.py b/phenum/numerics.py
index 4a2575d..782866a 100755
--- a/phenum/numerics.py
+++ b/phenum/numerics.py
@@ -1,6 +1,5 @@
 """Numerical methods for mathematical functions neede for the program"""
 
-import numpy as np
 #This method finds the factorial of a given number(num).
 #The method calls for an integer input num
 #The method returns the factorial(represented as fact in the method)
@@ -38,6 +37,7 @@ def binomial_coefficient(n, k):
        t (int): The binomial coefficient, n choose k.
 
     """
+    n, k = int(n), int(k)
     if not (-1 < k < n+1):
         return 0
     if k==0 and n == 0:
@@ -59,7 +59,7 @@ def multinomial(n):
     Args:
         n (list): the interegs to be used.
     """
-    binomials = [[np.sum(n),n[0]]]
+    binomials = [[sum(n),n[0]]]
     for i in range(1,len(n)):
         new_sum = binomials[i-1][0]-binomials[i-1][1]
         binomials.append([new_sum,n[i]])
@@ -68,4 +68,7 @@ def multinomial(n):
     for b in binomials:
         bins.append(binomial_coefficient(b[0],b[1]))
     
-    return np.prod(bins)
+    product = 1
+    for b in bins:
+        product *= b
+    return product
-- 
2.43.0


From 8ab978fb4ea2d2347219745e1849f49738e9324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:57 +0000
Subject: [PATCH 03/36] fix: make the seeded distribution independent of
 directory order

The cell sizes were taken in os.listdir order, which changes between file
systems, so the same -seed could select different structures.
---
 phenum/structures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/structures.py b/phenum/structures.py
index 742e44a..51ef214 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -430,6 +430,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
             if form in f and f[0]==form[0]:
                 sizes.append(int(f.split(".")[-1]))
                 ready = True
+        sizes.sort()
 
     else:
         for i in sizes:
-- 
2.43.0


From 6c9f38ceb03667548a61db1b208d74e7f826e651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:04 +0000
Subject: [PATCH 04/36] fix: honour the default of -remove_zeros

A misspelt key left the (truthy) string 'f' in place, so zeros were removed
although the option was not given.
---
 phenum/phenumStr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 2ab1474..66b6cd7 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -195,10 +195,10 @@ def run(args):
     else:
         args["mapping"] = None
         
-    if args["remove_zeros"] == "t":
+    if args["remove_zeros"] in ("t", True):
         args["remove_zeros"] = True
     else:
-        args["remove_zeors"] = False
+        args["remove_zeros"] = False
 
     _make_structures(args)
         
-- 
2.43.0


From 7f7e00248487d531afbe11f8cb38760754b168e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 05/36] fix: make -mink f switch the Minkowski reduction off

The string 'f' is truthy, so the reduction was always performed.
---
 phenum/phenumStr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 66b6cd7..94cbd5c 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -200,6 +200,8 @@ def run(args):
     else:
         args["remove_zeros"] = False
 
+    args["mink"] = args["mink"] in ("t", True)
+
     _make_structures(args)
         
 if __name__ == '__main__':
-- 
2.43.0


From 4dc7948309c393a689a3f5fee5451b130a74a23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 06/36] fix: decode arrow codes with the table the symmetry
 group uses

write_config had no entry for 'no arrow' (undisplaced atoms moved, code 6
crashed) and write_POSCAR's order disagreed with the directions permuted in
grouptheory._get_rotation_perms_lists.
---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 0629068..cbf8dd9 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -351,7 +351,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
     g_indx = space_data["gIndx"]
     arrows = structure_data["directions"]
 
-    arrow_directions = [[0,0,0],[0,0,-1],[0,-1,0],[-1,0,0],[1,0,0],[0,1,0],[0,0,1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     concs = [0]*system_data["k"]
@@ -423,7 +423,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
     struct_n = structure_data["strN"]
 
     # The arrow basis.
-    arrow_directions = [[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
+    arrow_directions = [[0,0,0],[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]]
     directions = []
 
     # Construct the concentrations of the atoms from the labeling by
-- 
2.43.0


From ff7856759e72022bfdb214bc3941285a41b4d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 07/36] fix: displace each atom by the arrow of its own site

The atoms are listed in real-space order; labels were looked up through
gIndx but arrows were not, so displacements landed on the wrong atoms.
---
 phenum/io_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index cbf8dd9..71d0089 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -390,7 +390,7 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[iAt]*args["displace"]*lattice_parameter
+            displace = directions[g_indx[iAt]]*args["displace"]*lattice_parameter
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
@@ -484,7 +484,7 @@ def write_config(system_data,space_data,structure_data,args,mapping=None):
         for iAt in range(structure_data["n"]*system_data["nD"]):
             for ilab in range(system_data["k"]):
                 rattle = uniform(-args["rattle"],args["rattle"])
-                displace = directions[iAt]*args["displace"]*lattice_parameter
+                displace = directions[gIndx[iAt]]*args["displace"]*lattice_parameter
                 # If the displacement is non zero and we're `rattling`
                 # the system then we need to modify the displacement
                 # by the amount being rattled.
-- 
2.43.0


From 6353d89eabbaf51d2530b75af514af13a343a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 08/36] fix: write POSCAR displacements in direct coordinates

A cartesian displacement was added to direct coordinates.
---
 phenum/io_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/phenum/io_utils.py b/phenum/io_utils.py
index 71d0089..a76f77a 100644
--- a/phenum/io_utils.py
+++ b/phenum/io_utils.py
@@ -337,7 +337,8 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         args (dict): Dictionary of user supplied input.
     """
 
-    from numpy import array
+    from numpy import array, matmul
+    from numpy.linalg import inv
     from phenum.element_data import get_lattice_parameter
     from random import uniform
     from itertools import product
@@ -390,7 +391,9 @@ def write_POSCAR(system_data,space_data,structure_data,args):
         poscar.write("D\n")
         for ilab, iAt in product(range(system_data["k"]),range(structure_data["n"]*system_data["nD"])):
             rattle = uniform(-args["rattle"],args["rattle"])
-            displace = directions[g_indx[iAt]]*args["displace"]*lattice_parameter
+            # The positions are written in direct coordinates, so the
+            # (cartesian) displacement has to be as well.
+            displace = matmul(directions[g_indx[iAt]]*args["displace"],inv(slv))
             displace += displace*rattle
             if labeling[g_indx[iAt]] == str(ilab):
                 out_array = array(space_data["aBas"][iAt]) + displace
-- 
2.43.0


From 55ca93029b64471bcd6db6ae8bd82d9673a1e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 09/36] fix: compare sampled configurations by their full
 location

guess_and_check_brancher compared one integer hash with the list of locations
already visited, so symmetric copies of a structure were returned.
---
 phenum/tree.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index f393d1b..bf73b44 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -620,7 +620,13 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
-            new_location = _hash(new_config)
+            # the location has one hash per color, each taken over the
+            # sites the previous colors left free.
+            new_location = []
+            sites = new_config
+            for c in range(1,len(C)+1):
+                new_location.append(_hash([1 if s == c else 0 for s in sites]))
+                sites = [s for s in sites if s != c]
 
             if new_location in visited and new_location != candidate: #pragma: no cover
                 #This happens rarely and so it's really hard to access in tests.
-- 
2.43.0


From d292b83ae5cb755b0b43b72632d676795ca72ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:57 +0000
Subject: [PATCH 10/36] fix: drop superperiodic arrow arrangements when
 sampling

The sampling branch of add_arrows compared instead of assigned, and tested
the unpermuted arrows.
---
 phenum/phonons.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 028a557..db74baa 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -286,12 +286,14 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                         action = trans[0]
                         permutation = trans[1]
                         orig_sites = [i[1] for i in coloring_with_arrows]
+                        arrow_sites = [i[0] for i in coloring_with_arrows]
                         perm_sites = [orig_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in arrow_config
+                        rot_arrows = [arrow_sites[i] for i in action]
+                        perm_arrows = [permutation[site] for site in rot_arrows
                                          if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and action != list(range(len(action))) and permutation != list(range(len(permutation))): #pragma: no cover
+                        if orig_sites == perm_sites and perm_arrows == arrow_config and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
                             #This happens rarely and so it's really hard to access in tests.
-                            unique == False
+                            unique = False
 
                 if unique == True:
                     arsurvivors.append(coloring_with_arrows)
-- 
2.43.0


From cc46f95f9865a95cad48bec630978dd21fa3e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 11/36] fix: let add_arrows sample the last arrangement and
 stop when all are seen

randrange excluded the largest hash, and the loop never ended when fewer
unique arrangements existed than were wanted.
---
 phenum/phonons.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index db74baa..826010f 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -221,10 +221,10 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     else:
         from random import randrange
         visited = []
-        orighash = randrange(maxpossible)
-        while len(arsurvivors) < num_wanted:
+        orighash = randrange(maxpossible+1)
+        while len(arsurvivors) < num_wanted and len(visited) <= maxpossible:
             while orighash in visited:
-                orighash = randrange(maxpossible)
+                orighash = randrange(maxpossible+1)
 
             visited.append(orighash)
             
-- 
2.43.0


From 4c8368195b93027f6f1eacca8718f632528b77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 12/36] fix: stop guess_and_check_brancher once every
 configuration was visited

---
 phenum/tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index bf73b44..07a75de 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -596,7 +596,10 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     visited = []
 
     nfound = 0
-    while len(survivors) < num_wanted:
+    nposs = 1
+    for c_i in C:
+        nposs *= c_i
+    while len(survivors) < num_wanted and len(visited) < nposs:
         candidate = []
         # pick a random configuration to check against.
         for c_i in C:
-- 
2.43.0


From 26284e635d6994a89a6e55e7bba743712de778a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 13/36] fix: exit with a failure status when an internal
 consistency check fails

---
 phenum/grouptheory.py  | 20 ++++++++++----------
 phenum/symmetry.py     |  2 +-
 phenum/vector_utils.py | 10 +++++-----
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 0367b06..f5c18db 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -238,7 +238,7 @@ def _map_dvector_permutation(rd,d,eps):
               " from the struct_enum.out have a different origin or don't live in the same"
               " unit cell. This probably isn't your fault---the code should overcome this."
               ,RP)
-        exit()
+        exit(1)
     return(RP)
 
         
@@ -316,7 +316,7 @@ def SmithNormalForm(HNF):
             A[maxidx] = list(map(operator.sub,A[maxidx],[mult*i for i in A[minidx]]))
             if dot(dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
                 print("ROW: Transformation matrices didn't work")
-                exit()
+                exit(1)
         if M[j][j] == 0:
             maxidx = [abs(M[0][j]),abs(M[1][j]),abs(M[2][j])].index(max([abs(M[0][j]),abs(M[1][j]),abs(M[2][j])]))
             tmprow = list(A[j])
@@ -328,7 +328,7 @@ def SmithNormalForm(HNF):
             M[maxidx] = tmprow    
         if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
             print("ROWSWAP: Transformation matrices didn't work")
-            exit()
+            exit(1)
 
         while (3-M[j].count(0)) >1:
             (minidx,maxidx) = _find_minmax_indices(M[j])
@@ -341,7 +341,7 @@ def SmithNormalForm(HNF):
 
             if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
                 print("COLS: Transformation matrices didn't work")
-                exit()
+                exit(1)
 
         if M[j][j] < 0:
             for i in range(3):
@@ -361,7 +361,7 @@ def SmithNormalForm(HNF):
             continue
         if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
             print("COLSWAP: Transformation matrices didn't work")
-            exit()
+            exit(1)
 
         l_div = []
         for i in range(1,3):
@@ -397,14 +397,14 @@ def SmithNormalForm(HNF):
 
     if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
         print("END: Transformation matrices didn't work.")
-        exit()
+        exit(1)
     check = [M[0][1],M[0][2],M[1][0],M[1][2],M[2][0],M[2][1]]
     if any(check) != 0: #pragma: no cover
         print("Not diagonal")
-        exit()
+        exit(1)
     if M[1][1] % M[0][0] != 0 or M[2][2] % M[1][1] != 0: #pragma: no cover
         print("SNF conditions not met")
-        exit()
+        exit(1)
         
     return(M,A,B)
 
@@ -569,7 +569,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
                 temp_ag = np.round(rag).astype(int)
                 if not np.allclose(rgp,temp_gp,rtol=0,atol=eps): #pragma: no cover
                     print("Transform left big fractional parts")
-                    exit()
+                    exit(1)
 
                 gp = temp_gp
                 ag = temp_ag
@@ -614,7 +614,7 @@ def _get_rotation_perms_lists(A,HNF,L,SNF,Op,RPlist,dperms,eps, arrows=False):
 
                 if np.count_nonzero(dgp == 0) > 1 or np.count_nonzero(dap == 0) > 1: #pragma: no cover
                     print("(d,g)-->(d',g') mapping failed in get_rotation_perm_lists")
-                    exit()
+                    exit(1)
 
             # Now we have the (d',g') table for this rotation. Now
             # record the permutation
diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 3fa118e..904e2ac 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -188,7 +188,7 @@ def bring_into_cell(vec,cart_to_latt,latt_to_cart,eps):
                 vec[i] += 1
         if (c>maxc): #pragma: no cover
             print("ERROR: loop does not end in bring_into_cell. Probably compiler bug.")
-            exit()
+            exit(1)
 
     # Put the point back into cartesion coordinate representation
     vec = matmul(latt_to_cart,vec).tolist()
diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index fc7d88d..5d640bc 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -117,7 +117,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
                     if not allclose(greal,g,rtol=eps,atol=eps): #pragma: no cover
                         from .msg import err
                         err("map2G didn't work in map_enumStr_to_real_space")
-                        exit()
+                        exit(1)
                     # Bring the g-vector back into the first tile
                     g = [g[i]%S[i] for i in range(len(S))] 
                     # g_indx is the index in the configuration string that
@@ -128,7 +128,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
     if ic != n*n_d: #pragma: no cover
         from .msg import err
         err("ERROR: map_enumStr_to_real_space: Didn't find the correct # of basis atoms")
-        exit()
+        exit(1)
 
     k = system_data["k"]
     x = []
@@ -202,7 +202,7 @@ def _minkowski_reduce_basis(IN,eps):
         from .msg import err
         err("ERROR in minkowski_reduce_basis: Minkowski conditions not met."
             "Number of iterations: {}".format(str(limit)))
-        exit()
+        exit(1)
     
     # we want to make sure that the det is positive.
     # NOTE: This *destroys* the mathematical picture of a "greedy reduced basis" (Minkowski), but
@@ -370,7 +370,7 @@ def _reduce_C_in_ABC(A,B,C,eps):
             if abs(temp[i][j] - int(round(temp[i][j]))) > eps: #pragma: no cover
                 from .msg import err
                 err("Lattice was not preserved in reduce_C_in_ABC")
-                exit()
+                exit(1)
 
     return A, B, C
 
@@ -412,7 +412,7 @@ def _gaussian_reduce_two_vectors(U,V,eps):
         if it > 10: # pragma: no cover
             from .msg import err
             err("gaussian_reduce_two_vectors failed to converge in 10 iterations")
-            exit()
+            exit(1)
         R = [V[i]-int(round(dot(U,V)/float(dot(U,U))+1E-10))*U[i] for i in range(3)] #Shorten V as much as possible
         V = U # Swap U and V (so U remains the shortest)
         U = R
-- 
2.43.0


From 3c8a6dacdd63daff4c5ed2f54b9c1d1ef050592f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 14/36] fix: make SmithNormalForm's transformation checks
 compare the matrices

Comparing the two any() results only noticed an all-zero matrix.
---
 phenum/grouptheory.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index f5c18db..56a407e 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -314,7 +314,7 @@ def SmithNormalForm(HNF):
 
             M[maxidx] = list(map(operator.sub,M[maxidx],[mult*i for i in M[minidx]]))
             A[maxidx] = list(map(operator.sub,A[maxidx],[mult*i for i in A[minidx]]))
-            if dot(dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
+            if (dot(dot(A,HNF),B) != np.array(M)).any(): #pragma: no cover
                 print("ROW: Transformation matrices didn't work")
                 exit(1)
         if M[j][j] == 0:
@@ -326,7 +326,7 @@ def SmithNormalForm(HNF):
             tmprow = list(M[j])
             M[j] = list(M[maxidx])
             M[maxidx] = tmprow    
-        if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
+        if (np.dot(np.dot(A,HNF),B) != np.array(M)).any(): #pragma: no cover
             print("ROWSWAP: Transformation matrices didn't work")
             exit(1)
 
@@ -339,7 +339,7 @@ def SmithNormalForm(HNF):
                 M[i][maxidx] = M[i][maxidx]-mult * M[i][minidx]
                 B[i][maxidx] = B[i][maxidx]-mult * B[i][minidx]
 
-            if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
+            if (np.dot(np.dot(A,HNF),B) != np.array(M)).any(): #pragma: no cover
                 print("COLS: Transformation matrices didn't work")
                 exit(1)
 
@@ -359,7 +359,7 @@ def SmithNormalForm(HNF):
 
         if ((3-M[j].count(0)) >1) or ((3-[M[0][j],M[1][j],M[2][j]].count(0)) >1):
             continue
-        if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
+        if (np.dot(np.dot(A,HNF),B) != np.array(M)).any(): #pragma: no cover
             print("COLSWAP: Transformation matrices didn't work")
             exit(1)
 
@@ -395,7 +395,7 @@ def SmithNormalForm(HNF):
             M[i][2]=-M[i][2]
             B[i][2]=-B[i][2]
 
-    if np.dot(np.dot(A,HNF),B).any() != np.array(M).any(): #pragma: no cover
+    if (np.dot(np.dot(A,HNF),B) != np.array(M)).any(): #pragma: no cover
         print("END: Transformation matrices didn't work.")
         exit(1)
     check = [M[0][1],M[0][2],M[1][0],M[1][2],M[2][0],M[2][1]]
-- 
2.43.0


From 84b962a7a795f58b404325dd11bc971c0f207032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 15/36] fix: restore lead in the element table

Its volume was listed under a second Pd key, which also gave palladium the
wrong volume.
---
 phenum/element_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/element_data.py b/phenum/element_data.py
index 60bab56..93e280e 100644
--- a/phenum/element_data.py
+++ b/phenum/element_data.py
@@ -12,7 +12,7 @@ element_volume ={"H":37.2958,"He":32.1789,"Li":21.2543,"Be":8.49323,"B":7.24205,
                  "In":26.6861,"Sn":29.3238,"Sb":27.1733,"Te":62.3227,"I":24.3807,"Xe":59.582,
                  "Cs":110.723,"Ba":63.253,"Hf":23.1748,"Ta":18.1323,"W":15.7772,"Re":14.8694,
                  "Os":14.5485,"Ir":14.1558,"Pt":15.0591,"Au":16.9793,"Hg":27.6914,"Tl":29.2949,
-                 "Pd":30.3218,"Bi":31.2849}
+                 "Pb":30.3218,"Bi":31.2849}
 
 def get_lat_param_element(lat_vecs,n_basis_atoms,element):
     """Finds the lattice parameter of an element for the given set of lattice.
-- 
2.43.0


From 1be9a225db40ccb213cab7802cd674cc08cb343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 16/36] fix: define subset when the Polya count is skipped

Sampling a large all-displaced system raised UnboundLocalError.
---
 phenum/phonons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 826010f..27944e4 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -431,6 +431,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # then we don't need to run the polya algorithm.
     if (multinomial(concs) > 100000 and num_wanted <= 100) or (arrow_types !=0 and sum(concs) >= 12 and num_wanted <=100):
         total = 1e10
+        subset = num_wanted
     else:
         # now find the number of unique arrangements using
         # polya
-- 
2.43.0


From f29a0619ec35bc1d804d05692eb7d7330e9dd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 17/36] fix: hand the visualizer the lattice vectors as columns

map_enumStr_to_real_space expects what read_enum_out returns, so the plotted
cells were wrong for any lattice whose matrix is not symmetric.
---
 phenum/visualize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/phenum/visualize.py b/phenum/visualize.py
index d5b2f80..b2c33e6 100644
--- a/phenum/visualize.py
+++ b/phenum/visualize.py
@@ -201,17 +201,19 @@ def _convert_read_lat_to_system_dat(lattice):
         system_data (dict): A dictionary of the system data with keys:
           "title": The system title.
           "bulksulf": Is this a surface or bulk system.
-          "plattice": The parent lattice vectors as rows of a matrix.
+          "plattice": The parent lattice vectors as columns of a matrix.
           "nD": The number of atoms in the system.
           "dvecs": The atomic basis vectors.
           "k": The number of atomic species in the system.
           "eps": Finite precision tolerance.
     """
 
+    from numpy import transpose
+
     system_data = {
         "title": "HNF plotter",
         "bulksurf": lattice["bulk"],
-        "plattice": lattice["lat_vecs"],
+        "plattice": transpose(lattice["lat_vecs"]),
         "nD": 0,
         "dvecs": lattice["basis_vecs"],
         "k": lattice["nspecies"],
-- 
2.43.0


From 27fb6f66cc5a2b6c9fbc6408eee86efb9cd7bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 18/36] fix: leave the caller's group alone in polya

A one-based group was rewritten in place.
---
 phenum/polyaburnside.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/phenum/polyaburnside.py b/phenum/polyaburnside.py
index 896cd17..e34d4aa 100644
--- a/phenum/polyaburnside.py
+++ b/phenum/polyaburnside.py
@@ -517,6 +517,7 @@ def polya(concentrations, group, arrowings=None, debug=False):
         raise ValueError("The concentrations don't sum to the number of things the group is acting on!")
             
     len_g = len(group)
+    group = [list(g) for g in group]
     for k, g in itertools.product(range(2),range(len_g)):
         if 0 not in group[g][k]:
             group[g][k] = [j-1 for j in group[g][k]]
-- 
2.43.0


From fd0afc54c9d93c6e53b239dcd9d33246989da7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 19/36] fix: leave the caller's basis vectors alone in
 get_sym_group and get_HNFs

The vectors were moved into the cell in place.
---
 phenum/HNFs.py        | 1 +
 phenum/grouptheory.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/phenum/HNFs.py b/phenum/HNFs.py
index ffed7b9..4e0aca8 100644
--- a/phenum/HNFs.py
+++ b/phenum/HNFs.py
@@ -141,6 +141,7 @@ def get_HNFs(n,pLV,base_vecs,LatDim,eps_=None):
 
     hnfs = find_all_HNFs(n)
     temp_basis = deepcopy(base_vecs)
+    base_vecs = list(base_vecs)
     plv_inv = np.transpose(np.linalg.inv(pLV))
     for i, b_vecs in enumerate(base_vecs):
         base_vecs[i] = bring_into_cell(b_vecs,plv_inv,np.transpose(pLV),eps)
diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 56a407e..4343b6f 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -734,6 +734,7 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     # the cell
     par_lat_inv = np.transpose(linalg.inv(par_lat))
     temp_basis = deepcopy(bas_vecs)
+    bas_vecs = list(bas_vecs)
     for i, b_vecs in enumerate(bas_vecs):
         # par_lat_inv = linalg.inv(np.transpose(par_lat))
         bas_vecs[i] = bring_into_cell(b_vecs,par_lat_inv,np.transpose(par_lat),eps)
-- 
2.43.0


From c76fc6ce742d6624517d197d91379c650f2ee6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 20/36] fix: enumerate until the wanted number is reached with
 -acceptrate

The loop condition was true only when nothing was wanted, so large
enumerations with an acceptance rate returned no structures.
---
 phenum/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 07a75de..940ad79 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -384,7 +384,7 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
 
     while branch[0] < C[0] and ((subset is not None and isinstance(subset, list) and len(survivors) < len(subset))
                                 or use_subset == False
-                                or (accept is not None and isinstance(subset, int) and len(survivors) == subset)):
+                                or (accept is not None and isinstance(subset, int) and len(survivors) < subset)):
         # perm determines if the new array is unique, if yes unique =
         # 0, if no then unique = 1, perm also outputs the stabilizers
         # for each level, the order for the first level, and the
-- 
2.43.0


From e4bb68283eaefb29d66c140ffe90af5adfd02fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 21/36] fix: use each species' own denominator for its
 concentration range

---
 phenum/symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/symmetry.py b/phenum/symmetry.py
index 904e2ac..990bd51 100644
--- a/phenum/symmetry.py
+++ b/phenum/symmetry.py
@@ -33,11 +33,11 @@ def get_concs_for_size(size,nspecies,res_concs,nB,concs):
     
     from itertools import product
     if res_concs == True:
-        denom = concs[0][2]
         vol_table = []
         for atom in concs:
             minc = min(atom[0:2])
             maxc = max(atom[0:2])
+            denom = atom[2]
             vol_table.append([int(math.floor(float(minc)/denom*size*nB)),int(math.ceil(float(maxc)/denom*size*nB)),size*nB])
 
         n = vol_table[0][2]
-- 
2.43.0


From c9b7dad3422e7ccdcf3f382e03d235a1e16ae3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 22/36] fix: end normally after -examples

The option handler returns None once the examples are printed.
---
 phenum/enumeration.py | 6 ++++--
 phenum/phenumStr.py   | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 4b73320..28a7cc9 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -391,8 +391,10 @@ def _script_enum(args, testmode=False):
         
 if __name__ == '__main__':
     args = _parser_options()
-    
-    if args["profile"]:
+
+    if args is None:
+        pass
+    elif args["profile"]:
         from vprof import profiler
         profiler.run(_script_enum, args["profile"], args=(args,), host='localhost', port=8000)
     else:
diff --git a/phenum/phenumStr.py b/phenum/phenumStr.py
index 94cbd5c..08c99d6 100644
--- a/phenum/phenumStr.py
+++ b/phenum/phenumStr.py
@@ -205,4 +205,6 @@ def run(args):
     _make_structures(args)
         
 if __name__ == '__main__':
-    run(_parser_options())
+    args = _parser_options()
+    if args is not None:
+        run(args)
-- 
2.43.0


From 0f38e04a524e18789bba1ab8d7912f0aa3ba6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 23/36] fix: keep the columns of enum.out apart for wide
 entries

HNF, SNF and left transform entries of three or more digits ran into their
neighbours, so makeStr could not read such rows back.
---
 phenum/enumeration.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 28a7cc9..599d388 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -168,11 +168,11 @@ def _enum_out(args):
     count_t = 1
     count_s = 0
     from operator import itemgetter
-    sfmt = ("{0: >10d}{1: >10d}{2: >8d}{3: >9d}{4: >9d}{5: >12d}{6: >4d}{7: >6d}"
-            "{8: >10}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
+    sfmt = ("{0: >10d} {1: >9d} {2: >7d} {3: >8d} {4: >8d} {5: >11d} {6: >3d} {7: >5d}"
+            " {8: >9}  {9: >18}  {10: >44}    {11}    {12: >21}\n")
     def fmtn(l, n):
         l = [int(i) for i in l]
-        return (''.join(["{{{0:d}: >{1:d}d}}".format(i, n) for i in range(len(l))])).format(*l)
+        return (''.join([" {{{0:d}: >{1:d}d}}".format(i, n-1) for i in range(len(l))])).format(*l)
     
     with open(args["outfile"], 'a') as f:
         enumlist = []    
-- 
2.43.0


From 9811c38d5aa9eb7b68d6ef97f234a48a4c5088b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 24/36] fix: read every species of a concentration filter

Only the first two concentrations were kept, so -filter conc matched nothing
for ternary and higher systems.
---
 phenum/structures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 51ef214..1e3eb56 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -454,7 +454,7 @@ def make_enum_in(infile,distribution,outfile,number=None,sizes=None,save=True,se
                 elif restrict[0] == "shape":
                     res_values.append(tuple([int(i) for i in values.split()[0:6]]))
                 elif restrict[0] == "conc":
-                    res_values.append(tuple([int(i) for i in values.split()[1:3]]))
+                    res_values.append(tuple([int(i) for i in values.split()[1:-1]]))
 
         distr = _distribute(infile, sizes,distribution,n=number,seed=seed,res_type=restrict[0],res_values=res_values)        
     else:
-- 
2.43.0


From 94ae22d2ac7bb2fe6405e1c1f6193111f96abfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 25/36] fix: keep the columns of polya.out apart for very long
 counts

Counts of 50 digits, which phonon enumerations reach, ran into the next one.
---
 phenum/enumeration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index 599d388..c56d350 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -75,14 +75,14 @@ def _polya_out(args):
         # We need to write the concs in c_list to the output file.
         out.write('{0: <28}'.format("# HNF"))
         for conc in c_list:
-            out.write("{0: <50}".format(':'.join(map(str, conc))))
+            out.write("{0: <49} ".format(':'.join(map(str, conc))))
         out.write('{0: <50}\n'.format("Total"))
 
         a_concs = pb.get_arrow_concs(params)
         conc_totals = [0 for i in range(len(c_list))]
         for thnf in hnfs:
             hnf = [thnf[0][0],thnf[1][0],thnf[1][1],thnf[2][0],thnf[2][1],thnf[2][2]]
-            out.write("  {0: <26}".format(' '.join(map(str, hnf))))
+            out.write("  {0: <25} ".format(' '.join(map(str, hnf))))
             sym_g = get_sym_group(params["lat_vecs"],params["basis_vecs"],thnf,3)
             agroup = []
             len_sym_g = len(sym_g.perm.site_perm)
@@ -108,14 +108,14 @@ def _polya_out(args):
                     else:
                         total_num = polya(conc, agroup)
 
-                    out.write("{0: <50d}".format(total_num))
+                    out.write("{0: <49d} ".format(total_num))
                     total += total_num
                     conc_totals[iconc] += total_num
             out.write('{0: <10d}\n'.format(total))
         out.write("# " + ''.join(['-' for i in range(len(c_list)*10 + 10 + 30)]) + '\n')
         out.write("{0: <28}".format("  0 0 0 0 0 0"))
         for ctotal in conc_totals:
-            out.write("{0: <50d}".format(ctotal))
+            out.write("{0: <49d} ".format(ctotal))
         out.write("{0: <50d}\n".format(sum(conc_totals)))
         out.close()
         
-- 
2.43.0


From 3ae6796d54fff3831f2a713a99a7e420d9260cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 26/36] fix: map exactly n sites per supercell when the HNF row
 offset is negative

int() truncates towards zero, so a negative lower bound lost a point and
map_enumStr_to_real_space exited with 'Didn't find the correct # of basis atoms'
(e.g. HNF 2 1 2 0 1 2).
---
 phenum/vector_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phenum/vector_utils.py b/phenum/vector_utils.py
index 5d640bc..82dc303 100644
--- a/phenum/vector_utils.py
+++ b/phenum/vector_utils.py
@@ -67,6 +67,7 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
             "x": A list of the concentrations of each atom type.
     """
     from numpy import matmul, allclose, matrix
+    from math import floor
     
     n_d = system_data["nD"]
     n = structure_data["n"]
@@ -101,7 +102,8 @@ def map_enumStr_to_real_space(system_data,structure_data,minkowskiReduce):
         # For the limits on the loops, see the "interior_points.pdf" write-up
         for z1 in range(a):
             for z2 in range(int((b*z1)/a), int(c+(b*z1)/a)):
-                for z3 in range(int(z1*(d-(e*b)/c)/a+(e*z2)/c), int(f+z1*(d-(e*b)/c)/a+(e*z2)/c)):
+                z3min = int(floor(z1*(d-(e*b)/c)/a+(e*z2)/c))
+                for z3 in range(z3min, z3min+f):
                     ic +=1
                     # if ic > n: #pragma: no cover
                     #     from .msg import err
-- 
2.43.0


From 54d9b3e7ae56746fde8c243758ad06673ba8b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:39 +0000
Subject: [PATCH 27/36] fix: run with message output when tqdm is not installed

---
 phenum/enumeration.py |  4 ++--
 phenum/msg.py         | 16 ++++++++++++++++
 phenum/phonons.py     |  4 ++--
 phenum/tree.py        |  8 ++++----
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index c56d350..d82e810 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -178,8 +178,8 @@ def _enum_out(args):
         enumlist = []    
         for hnf, conc, num_wanted in systems:
             if verbosity is not None and verbosity >= 1: #pragma: no cover
-                from tqdm import tqdm 
-                pbar = tqdm(total=len(systems))
+                from phenum.msg import progress_bar
+                pbar = progress_bar(total=len(systems))
             (SNF,L,R) = SmithNormalForm(get_full_HNF(hnf))
             SNF = [SNF[0][0],SNF[1][1],SNF[2][2]]
             LT = [item for row in L for item in row]
diff --git a/phenum/msg.py b/phenum/msg.py
index 151210e..2fa432e 100644
--- a/phenum/msg.py
+++ b/phenum/msg.py
@@ -54,6 +54,22 @@ def example(script, explain, contents, requirements, output, outputfmt, details)
             std('\n' + post)
         blank()
 
+def progress_bar(total):
+    """Returns a progress bar for the given number of steps. The bar is
+    silent when the optional package tqdm isn't installed.
+    """
+    try:
+        from tqdm import tqdm
+    except ImportError:
+        class tqdm(object):
+            def __init__(self, total=None):
+                pass
+            def update(self, n=1):
+                pass
+            def close(self):
+                pass
+    return tqdm(total=total)
+
 def printer(text, color=None, **kwargs):
     """Prints using color or standard print() depending on the value
     of 'nocolor'.
diff --git a/phenum/phonons.py b/phenum/phonons.py
index 27944e4..4a4a2fc 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -128,13 +128,13 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
     maxpossible = _ahash(largest_arrow,dim)
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1 and not nested: #pragma: no cover
-        from tqdm import tqdm 
+        from phenum.msg import progress_bar
         #If accept is specified, then we should get on average that many out.
         if num_wanted is not None:
             ntotal = num_wanted
         else:
             ntotal = maxpossible
-        pbar = tqdm(total=ntotal)
+        pbar = progress_bar(total=ntotal)
 
     #this loop runs over every possible configuration of arrows
     #staring from the one with the smallest hash number and ending
diff --git a/phenum/tree.py b/phenum/tree.py
index 940ad79..0e06cf8 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -370,14 +370,14 @@ def brancher(concs,group,colors_w_arrows, dim, supers, cellsize, total=0, subset
     from random import random
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
+        from phenum.msg import progress_bar
         if isinstance(subset, list) and len(subset) > 0:
             ntotal = len(subset)
         elif isinstance(subset, int):
             ntotal = subset
         else:
             ntotal = total
-        pbar = tqdm(total=ntotal)
+        pbar = progress_bar(total=ntotal)
     # Now we loop through the different possible hash arrays until
     # they have all been considered
     ncurrent = 0
@@ -589,8 +589,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
     from random import random, randint
     from phenum.msg import verbosity
     if verbosity is not None and verbosity >= 1: #pragma: no cover
-        from tqdm import tqdm
-        pbar = tqdm(total=num_wanted)
+        from phenum.msg import progress_bar
+        pbar = progress_bar(total=num_wanted)
 
     survivors = []
     visited = []
-- 
2.43.0


From 816567279793451e614fe742e12732c0e9945ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 28/36] fix: use one and the same operation for the d-vectors
 and the cell

---
 phenum/grouptheory.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/phenum/grouptheory.py b/phenum/grouptheory.py
index 4343b6f..d78f8c0 100644
--- a/phenum/grouptheory.py
+++ b/phenum/grouptheory.py
@@ -453,13 +453,19 @@ def _get_dvector_permutations(par_lat,bas_vecs,LatDim,eps):
         else:
             temp_b = bas_vecs
         rd_rot = np.matmul(temp_b,rot[iOp]).tolist()
+        # The d-vectors are rows, so the product above applies the
+        # inverse of the rotation, and the shift has to be that of an
+        # operation with the inverse rotation.
+        same = [i for i in range(n_op) if np.allclose(rot[i],rot[iOp],rtol=0,atol=eps)]
+        inverse = [i for i in range(n_op) if np.allclose(rot[i],np.transpose(rot[iOp]),rtol=0,atol=eps)]
+        inv_shift = shift[inverse[same.index(iOp)]]
 
         if n_d > 1:
-            rd_shift = [shift[iOp]]*n_d
+            rd_shift = [inv_shift]*n_d
             rd =  [[rd_rot[i][j] + rd_shift[i][j] for j in range(len(rd_rot[i]))] for i in range(len(rd_rot))]
             
         else:
-            rd = [rd_rot[i] + shift[iOp][i] for i in range(len(rd_rot))]
+            rd = [rd_rot[i] + inv_shift[i] for i in range(len(rd_rot))]
             
         trd = list(rd)
         if n_d > 1:
@@ -750,6 +756,10 @@ def get_sym_group(par_lat,bas_vecs,HNF,LatDim,arrows=True):
     a_type = [1]*len(bas_vecs)
     
     (sgrots,sgshifts) = get_spaceGroup(par_lat,a_type,bas_vecs,eps)
+    # par_rp_list holds the permutations made by the inverse rotations
+    # (see _get_dvector_permutations), so the cell has to be rotated by
+    # those as well.
+    sgrots = [np.transpose(rot).tolist() for rot in sgrots]
     (fixing_ops,RPList,degeneracy) = _get_sLV_fixing_operations(HNF,par_lat,sgrots,sgshifts,
                                                                 par_rp_list,eps)
 
-- 
2.43.0


From a7108b217c091019e8b67e948d63c1e966b03ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 29/36] fix: default output file of each mode when several run
 at once

---
 phenum/enumeration.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/phenum/enumeration.py b/phenum/enumeration.py
index d82e810..4248504 100644
--- a/phenum/enumeration.py
+++ b/phenum/enumeration.py
@@ -349,18 +349,16 @@ def _script_enum(args, testmode=False):
     from os import path
     from phenum.base import set_testmode
     set_testmode(testmode)
+    # Each mode has its own default output file.
+    default_outfile = args["outfile"] == None
     if args["polya"]:
         #Perform validation for running polya.
-        if args["outfile"] == None:
-              args["outfile"] = "polya.out"
         if not path.isfile(args["lattice"]):
             raise IOError("The input file {} does not exist.".format(args["lattice"]))
             
     if args["enum"]:
         if args["input"] == None:
             args["input"] = "enum.in"
-        if args["outfile"] == None:
-              args["outfile"] = "enum.out"
         #Perform validation for running enum.
         if not path.isfile(args["input"]):
             from phenum.msg import warn
@@ -370,8 +368,6 @@ def _script_enum(args, testmode=False):
     if args["distribution"]:
         if args["input"] == None:
             args["input"] = "polya.out"
-        if args["outfile"] == None:
-              args["outfile"] = "enum.in"
         if len(args["distribution"]) != 2:
             raise ValueError("The distribution option takes two arguments. The parameters the "
                              "distribution is over ('shape', 'conc', 'size', 'all') and the "
@@ -381,10 +377,16 @@ def _script_enum(args, testmode=False):
         raise ValueError(u"'-acceptrate' is to be a float less than 1.")
 
     if args["polya"]:
+        if default_outfile:
+            args["outfile"] = "polya.out"
         _polya_out(args)
     if args["enum"] or (args["enum"] and args["distribution"]):
+        if default_outfile:
+            args["outfile"] = "enum.out"
         _enum_out(args)
     if args["distribution"] and not args["enum"]:
+        if default_outfile:
+            args["outfile"] = "enum.in"
         _enum_in(args)
     if args["visualize"]:
         _plot_HNFs(args,testmode=testmode)
-- 
2.43.0


From a63cc067338feff92f9615ca88fe1e453ab7fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 30/36] fix: total of a shape counts only the wanted
 concentrations

---
 phenum/structures.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 1e3eb56..46b66c2 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -322,9 +322,7 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
                         count += 1
 
                 distr[tuple(HNF)] = {tuple(c): v for c, v in zip(cs, vs)}
-            for m, v in zip(polya[0:-1,0:6], polya[:-1,-1]):
-                if tuple(m) in distr:
-                    stotals[tuple(m)] = v
+                stotals[tuple(HNF)] = sum(vs)
 
         dataset[s] = {
             "distr": distr,
-- 
2.43.0


From 2f60b2f76d389ce3068550c8cc0b9b6611f6e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:19 +0000
Subject: [PATCH 31/36] fix: distribution neither exceeds what is available nor
 what was asked for

---
 phenum/structures.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index 46b66c2..ed639a0 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -71,8 +71,10 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
 
     result = {}
     rtotal = [0]
-    def vinsert(key, value, rtotal, n, result):
+    def vinsert(key, value, limit, rtotal, n, result):
         if rtotal[0] < n: #Only update if we are deficient in structures.
+            #Neither exceed what is available nor what was asked for.
+            value = min(value, limit - result.get(key, 0), n - rtotal[0])
             if value > 0:
                 if key in result:
                     result[key] += value
@@ -90,7 +92,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
         """
         if n == gtotal:
             for key, value, limit in relvals:
-                vinsert(key, limit, rtotal, n, result)
+                vinsert(key, limit, limit, rtotal, n, result)
         else:
             from math import modf
             from random import random, seed
@@ -119,7 +121,7 @@ def _distribute(infile, cellsizes, ftype, n=None,seed=None, res_type=None, res_v
                     #by the time we have iterated through the whole list.
                     rf, qf = modf(value if recount == 0 else f(delta, *(ids[ftype](key)),dataset=dataset,ftotal=float(gtotal)))
                     retval = int(qf + (1 if random() < rf else 0))
-                    if not vinsert(key, retval, rtotal, n, result):
+                    if not vinsert(key, retval, limit, rtotal, n, result):
                         break
                 recount += 1
 
-- 
2.43.0


From d346d218d184db167c62f51f8939b71bec8eb258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:04 +0000
Subject: [PATCH 32/36] fix: read Polya counts beyond 64 bits back for the
 distribution

---
 phenum/structures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/phenum/structures.py b/phenum/structures.py
index ed639a0..2057acc 100644
--- a/phenum/structures.py
+++ b/phenum/structures.py
@@ -289,7 +289,8 @@ def _distribution_summary(infile, cellsizes, HNFs = None, wanted_concs = None):
         with open(source) as f:
             headings = f.readline().split()
             concs = [tuple(map(int, h.split(":"))) for h in headings[2:-1]]
-        polya = loadtxt(source, int)
+        # The counts can exceed the range of 64 bit integers.
+        polya = loadtxt(source, object, converters=int)
         distr = {}
 
         if HNFs is None and wanted_concs is None:
-- 
2.43.0


From 051f994d130cf8dd4961cb9db4f66e66dfaddd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:58 +0000
Subject: [PATCH 33/36] fix: a translation must carry arrows onto arrows to
 make an arrangement superperiodic

---
 phenum/phonons.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index 4a4a2fc..f9c0d9b 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -206,9 +206,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                             arrow_sites = [i[0] for i in coloring_with_arrows]
                             perm_sites = [orig_sites[i] for i in action]
                             rot_arrows = [arrow_sites[i] for i in action]
-                            perm_arrows = [permutation[site] for site in rot_arrows
-                                           if site >= 0]
-                            if orig_sites == perm_sites and perm_arrows == arrow_config:
+                            perm_arrows = [permutation[site] if site >= 0 else site
+                                           for site in rot_arrows]
+                            if orig_sites == perm_sites and perm_arrows == arrow_sites:
                                 unique = False
                                 break
                 if (accept is None or random() < accept) and unique == True:
@@ -289,9 +289,9 @@ def add_arrows(col,agroup,dim, translations, accept=None,nested=False,num_wanted
                         arrow_sites = [i[0] for i in coloring_with_arrows]
                         perm_sites = [orig_sites[i] for i in action]
                         rot_arrows = [arrow_sites[i] for i in action]
-                        perm_arrows = [permutation[site] for site in rot_arrows
-                                         if site >= 0]
-                        if orig_sites == perm_sites and perm_arrows == arrow_config and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
+                        perm_arrows = [permutation[site] if site >= 0 else site
+                                       for site in rot_arrows]
+                        if orig_sites == perm_sites and perm_arrows == arrow_sites and (action != list(range(len(action))) or permutation != list(range(len(permutation)))): #pragma: no cover
                             #This happens rarely and so it's really hard to access in tests.
                             unique = False
 
-- 
2.43.0


From ea320457dc2307ad2aa57cc780101d49c5d70965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 34/36] fix: only fully displaced single-species systems skip
 the search over colorings

---
 phenum/phonons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/phonons.py b/phenum/phonons.py
index f9c0d9b..d623201 100644
--- a/phenum/phonons.py
+++ b/phenum/phonons.py
@@ -463,7 +463,7 @@ def enum_sys(groupfile, concs, a_concs, num_wanted, HNF, params, supers, accept=
     # if we're doing a purely arrow enumeration then we don't need to
     # do the tree search but instead perform the final step of the
     # algorithm to find the possible unique displacements of the atoms
-    if len(concs) == 1 and all(decorations) >=0:
+    if len(concs) == 1 and all(site[0] >= 0 for site in decorations):
         configs = []
         if float(num_wanted)/total < 0.001 and accept is None:
             small = True
-- 
2.43.0


From eecfef23858df9dca96829103fbf753655a50f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:49 +0000
Subject: [PATCH 35/36] fix: sampling with arrows returns no more structures
 than were asked for

---
 phenum/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 0e06cf8..33a3d24 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -659,7 +659,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted, supers = supers, small = True)
+                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted - len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0


From b8e5544e6baa2a38f4db444a5735fba97d14d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:58 +0000
Subject: [PATCH 36/36] fix: sampled arrow arrangements are compared under the
 symmetries of the coloring

---
 phenum/tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/phenum/tree.py b/phenum/tree.py
index 33a3d24..69c8e15 100644
--- a/phenum/tree.py
+++ b/phenum/tree.py
@@ -615,6 +615,8 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
         unique = True
 
         config = list(_invhash(candidate,concs,sum(concs)))
+        # the operations that leave the colors alone, for the arrows
+        stabilizer = []
         for perms in group:
             perm = perms[0]
 
@@ -623,6 +625,9 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 new_config.append(config[j])
             new_config = list(new_config)
 
+            if new_config == config:
+                stabilizer.append(perms)
+
             # the location has one hash per color, each taken over the
             # sites the previous colors left free.
             new_location = []
@@ -659,7 +664,7 @@ def guess_and_check_brancher(concs, group, colors_w_arrows, dim, supers, cellsiz
                 for con, t_con in enumerate(t_config):
                     t_config[con] = deepcopy(colors[t_con -1])
 
-                arsurvivors = add_arrows(t_config, group, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted - len(survivors), supers = supers, small = True)
+                arsurvivors = add_arrows(t_config, stabilizer, dim, group[0:int(cellsize)], nested=True, num_wanted = num_wanted - len(survivors), supers = supers, small = True)
 
                 for survivor in arsurvivors:
                     survivors.append(survivor)
-- 
2.43.0

