From a8e70239f8bae7b366e2e61a68567be713372e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:07 +0000
Subject: [PATCH 01/41] fix: spring element returns its (4, 4) mass matrix, so
 springs can be assembled

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 173ef58..ea1ec58 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -442,7 +442,7 @@ def spring(coord, stiff):
         [1, -1],
         [-1, 1]])
     stiff_mat = Q.T @ stiff_mat @ Q
-    return stiff_mat, np.zeros(4)
+    return stiff_mat, np.zeros((4, 4))
 
 
 def truss2D(coord, params):
-- 
2.43.0


From 93517312e8340715796a9a65211fd7fa38a3d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:10 +0000
Subject: [PATCH 02/41] fix: spring stiffness is the first entry of its
 material profile, whatever the profile's length

---
 solidspy/uelutil.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index ea1ec58..249f486 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -438,6 +438,8 @@ def spring(coord, stiff):
     Q = np.array([
         [nx, ny, 0, 0],
         [0, 0, nx, ny]])
+    # The assembler passes the complete material profile
+    stiff = np.ravel(stiff)[0]
     stiff_mat = stiff * np.array([
         [1, -1],
         [-1, 1]])
-- 
2.43.0


From 7cf8f0f3d71f5ab00ad942d7ce80186b6b440306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:12 +0000
Subject: [PATCH 03/41] fix: beam2DU projects displacements on the normal (-ny,
 nx), so inclined beams are rotated correctly

---
 solidspy/uelutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 249f486..7f1781a 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -545,9 +545,9 @@ def beam2DU(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [ny, nx, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment = params[:2]
     bending_stiff = area_moment*young/L**3
-- 
2.43.0


From 2aa60da7dc8c0173584eeb1ef264aa076ace4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:14 +0000
Subject: [PATCH 04/41] fix: beam2D transforms global to local displacements
 with the rotation of the member, not its inverse

---
 solidspy/uelutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 7f1781a..834b8ef 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -603,11 +603,11 @@ def beam2D(coord, params):
     ny = vec[1]/np.linalg.norm(vec)
     L = np.linalg.norm(vec)
     Q = np.array([
-        [nx, -ny, 0, 0, 0, 0],
-        [ny, nx, 0, 0, 0, 0],
+        [nx, ny, 0, 0, 0, 0],
+        [-ny, nx, 0, 0, 0, 0],
         [0, 0, 1, 0, 0, 0],
-        [0, 0, 0, nx, -ny, 0],
-        [0, 0, 0, ny, nx, 0],
+        [0, 0, 0, nx, ny, 0],
+        [0, 0, 0, -ny, nx, 0],
         [0, 0, 0, 0, 0, 1]])
     young, area_moment, area = params[:3]
     bending_stiff = area_moment * young
-- 
2.43.0


From 44f87529712b5b5de2c06f5c425b78c0baa83462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:17 +0000
Subject: [PATCH 05/41] fix: beam2D takes its density as a number, so a tuple
 of parameters works

---
 solidspy/uelutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 834b8ef..41407cd 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -623,7 +623,7 @@ def beam2D(coord, params):
     if len(params) == 3:
         dens = 1.0
     else:
-        dens = params[3:]
+        dens = params[3]
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [140, 0, 0, 70, 0, 0],
-- 
2.43.0


From f3fd5ae24df88a966131388db03cd3df4c67a78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:19 +0000
Subject: [PATCH 06/41] fix: beam2DU accepts a density without the optional
 area

---
 solidspy/uelutil.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 41407cd..2cecd2c 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -556,11 +556,8 @@ def beam2DU(coord, params):
         [6*L, 4*L**2, -6*L, 2*L**2],
         [-12, -6*L, 12, -6*L],
         [6*L, 2*L**2, -6*L, 4*L**2]])
-    if len(params) == 2:
-        dens = 1.0
-        area = 1.0
-    else:
-        dens, area = params[2:]
+    dens = params[2] if len(params) > 2 else 1.0
+    area = params[3] if len(params) > 3 else 1.0
     mass = area * L * dens
     mass_mat = mass/420*np.array([
             [156, 22*L, 54, -13*L],
-- 
2.43.0


From 68c8a00f6ed25f1299f09d1f68edbeba5f29a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:21 +0000
Subject: [PATCH 07/41] fix: str_el3 evaluates the strain at three points
 instead of leaving two of them at zero

---
 solidspy/femutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index d13dd1b..bbb31dc 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -701,7 +701,7 @@ def str_el3(coord, ul):
     """
     epsG = np.zeros([3, 3])
     xl = np.zeros([3, 2])
-    gpts, _ = gau.gauss_tri(order=1)
+    gpts, _ = gau.gauss_tri(order=2)
     for i in range(gpts.shape[0]):
         ri, si =  gpts[i, :]
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
-- 
2.43.0


From 94f2ae948c38f00c3f1b4e704589a248c93ed804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:24 +0000
Subject: [PATCH 08/41] fix: str_el3, str_el4 and str_el6 report the vertical
 coordinate of the Gauss points

---
 solidspy/femutil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index bbb31dc..0eced87 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -707,7 +707,7 @@ def str_el3(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri3)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -739,7 +739,7 @@ def str_el6(coord, ul):
         H, B, _ = elast_diff_2d(ri, si, coord, shape_tri6)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
@@ -771,7 +771,7 @@ def str_el4(coord, ul):
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
         epsG[:, i] = B @ ul
         xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
-        xl[i, 1] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
     return epsG.T, xl
 
 
-- 
2.43.0


From e8fd2b06c762430f965504e105c67319e143d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:27 +0000
Subject: [PATCH 09/41] fix: str_el4 lists the Gauss points in the order of the
 nodes, as strain_nodes assumes

---
 solidspy/femutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 0eced87..9629f29 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -766,6 +766,7 @@ def str_el4(coord, ul):
     epsG = np.zeros([3, 4])
     xl = np.zeros([4, 2])
     gpts, _ = gau.gauss_nd(2)
+    gpts = gpts[[0, 2, 3, 1]]  # same order as the nodes
     for i in range(gpts.shape[0]):
         ri, si = gpts[i, :]
         H, B, _= elast_diff_2d(ri, si, coord, shape_quad4)
-- 
2.43.0


From cc680866ed2acf14f36d507da243a88c12d100e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:30 +0000
Subject: [PATCH 10/41] fix: strain_nodes accepts material profiles with a
 density

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 700a692..60e2759 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -369,7 +369,7 @@ def strain_nodes(nodes, elements, mats, sol_complete):
     IELCON = elements[:, 3:]
 
     for el in range(nelems):
-        young, poisson = mats[int(elements[el, 2]), :]
+        young, poisson = mats[int(elements[el, 2]), :2]
         shear = young/(2*(1 + poisson))
         fact1 = young/(1 - poisson**2)
         fact2 = poisson*young/(1 - poisson**2)
-- 
2.43.0


From e340c4e45af086bf1cef7a090e7cad59b567a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:32 +0000
Subject: [PATCH 11/41] fix: eigvals uses np.nan, np.NaN was removed in NumPy
 2.0

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 60e2759..289fac2 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -596,8 +596,8 @@ def eigvals(mat, tol=1e-6):
     if np.abs(mat).max() < tol:
         eig1 = 0.0
         eig2 = 0.0
-        vec1 = np.array([np.NaN, np.NaN])
-        vec2 = np.array([np.NaN, np.NaN])
+        vec1 = np.array([np.nan, np.nan])
+        vec2 = np.array([np.nan, np.nan])
     elif abs(mat[0, 1])/np.abs(mat).max() < tol:
         eig1 = mat[0, 0]
         eig2 = mat[1, 1]
-- 
2.43.0


From 13e46541ef7e6f4a3bec725610851ce48a9b165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:34 +0000
Subject: [PATCH 12/41] fix: eigvals does not report small nonzero tensors as
 zero

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 289fac2..9e1a7a9 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -593,7 +593,7 @@ def eigvals(mat, tol=1e-6):
     True
 
     """
-    if np.abs(mat).max() < tol:
+    if np.abs(mat).max() == 0:
         eig1 = 0.0
         eig2 = 0.0
         vec1 = np.array([np.nan, np.nan])
-- 
2.43.0


From 7885427c8140f981f9394208295f2eca0de423b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:36 +0000
Subject: [PATCH 13/41] fix: tri_plot passes each plotting function only the
 arguments it takes

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 9e1a7a9..2b01118 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -101,10 +101,9 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
         Filename to save the figures.
     """
     if plt_type == "pcolor":
-        disp_plot = plt.tripcolor
+        plt.tripcolor(tri, field, shading="gouraud")
     elif plt_type == "contourf":
-        disp_plot = plt.tricontourf
-    disp_plot(tri, field, levels, shading="gouraud")
+        plt.tricontourf(tri, field, levels)
     plt.title(title)
     plt.colorbar(orientation='vertical')
     plt.axis("image")
-- 
2.43.0


From 3563879f60da793dc054cc315532ae208fb9b371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:39 +0000
Subject: [PATCH 14/41] fix: plot_node_field plots a field stored as a single
 column

---
 solidspy/postprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2b01118..6810e79 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -159,7 +159,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-        if nfields == 1:
+        if len(field.shape) == 1:
             current_field = field
         else:
             current_field = field[:, cont]
-- 
2.43.0


From 6f7ebb5d0bc9131f2e75c7e18a81acf510736175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:41 +0000
Subject: [PATCH 15/41] fix: fields_plot treats beams with axial force as
 structural elements

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 6810e79..82e35f0 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -49,7 +49,8 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     # Check for structural elements in the mesh
     struct_pos = 5 in elements[:, 1] or \
              6 in elements[:, 1] or \
-             7 in elements[:, 1]
+             7 in elements[:, 1] or \
+             8 in elements[:, 1]
     if struct_pos:
         # Still not implemented visualization for structural elements
         print(disp)
-- 
2.43.0


From ae4927c2150885ecc191a92e7d2958d31a3a4c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:43 +0000
Subject: [PATCH 16/41] fix: constraint columns in the nodes array are not
 taken as coordinates by the built-in elements

---
 solidspy/assemutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 9249e74..16bdedb 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -142,6 +142,7 @@ def retriever(elements, mats, nodes, ele, uel=None):
     elcoor = nodes[elements[ele, 3:], 1:]
     if uel is None:
         uel = ele_fun(elem_type)
+        elcoor = elcoor[:, :2]  # built-in elements are two-dimensional
     kloc, mloc = uel(elcoor, params)
     return kloc, mloc
 
-- 
2.43.0


From 2e12845e59140b9ddb0cbef6ac8dfabbe4a3db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:46 +0000
Subject: [PATCH 17/41] fix: loadasem adds up the loads applied on the same
 node

---
 solidspy/assemutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 16bdedb..421fb1f 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -322,7 +322,7 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-                rhs_vec[dof_id] = loads[cont, dof + 1]
+                rhs_vec[dof_id] += loads[cont, dof + 1]
     return rhs_vec
 
 
-- 
2.43.0


From 8e95ef41d119cc275249ea55fae34216633e5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:24 +0000
Subject: [PATCH 18/41] fix: elast_mat_2d and elast_mat_axi couple the
 out-of-plane normal component with the in-plane ones

---
 solidspy/femutil.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 9629f29..c7634e4 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -608,10 +608,10 @@ def elast_mat_2d(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-    [2*mu + lamda, lamda, 0, 0],
-    [lamda, 2*mu + lamda, 0, 0],
+    [2*mu + lamda, lamda, 0, lamda],
+    [lamda, 2*mu + lamda, 0, lamda],
     [0, 0, mu, 0],
-    [0, 0, 0, 2*mu + lamda]])
+    [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
@@ -638,10 +638,10 @@ def elast_mat_axi(params):
     lamda = E*nu/(1 + nu)/(1 - 2*nu)
     mu = 0.5*E/(1 + nu)
     C = np.array([
-        [2*mu + lamda, lamda, 0, 0],
-        [lamda, 2*mu + lamda, 0, 0],
+        [2*mu + lamda, lamda, 0, lamda],
+        [lamda, 2*mu + lamda, 0, lamda],
         [0, 0, mu, 0],
-        [0, 0, 0, 2*mu + lamda]])
+        [lamda, lamda, 0, 2*mu + lamda]])
     return C
 
 
-- 
2.43.0


From ecdc0ee45b6ef19f2f59dc9ccc18494d48ec7cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:26 +0000
Subject: [PATCH 19/41] fix: elast_axi_quad9 integrates over the volume of
 revolution

---
 solidspy/uelutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/uelutil.py b/solidspy/uelutil.py
index 2cecd2c..1d749fa 100755
--- a/solidspy/uelutil.py
+++ b/solidspy/uelutil.py
@@ -322,7 +322,8 @@ def elast_axi_quad9(coord, params):
         r = gpts[cont, 0]
         s = gpts[cont, 1]
         H, B, det = fem.elast_diff_axi(r, s, coord, fem.shape_quad9)
-        factor = det * gwts[cont]
+        radius = H[0, 0::2] @ coord[:, 0]
+        factor = 2*np.pi*radius * det * gwts[cont]
         stiff_mat += factor * (B.T @ C @ B)
         mass_mat += rho*factor * (H.T @ H)
     return stiff_mat, mass_mat
-- 
2.43.0


From 2c0064af85533d0e0229af6e2e29e3ea34df0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 20/41] fix: jacoper judges a degenerate element relative to
 its size, so small meshes are accepted

---
 solidspy/femutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index c7634e4..4ef8ddf 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,8 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    if np.isclose(np.abs(det), 0.0):
+    scale = np.linalg.norm(jaco)**jaco.shape[0]
+    if np.isclose(np.abs(det), 0.0, atol=1e-8*scale):
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
     jaco_inv = np.linalg.inv(jaco)
-- 
2.43.0


From 48b276e87442b83b7f6a5e1cb3f86b07839a662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:31 +0000
Subject: [PATCH 21/41] fix: reassign_dof_bloch gives image dofs the new number
 of their reference dof

---
 solidspy/blochutil.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index a05f591..368b4a3 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -50,13 +50,11 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
     for cont_dof in range(ndofs):
         if cont_dof in dofs_ima:
             cont += 1
-            ref_dof = dofs_ref[dofs_ima.index(cont_dof)]
-            if ref_dof < cont_dof:
-                new_num.append(ref_dof)
-            else:
-                new_num.append(ref_dof - cont)
+            new_num.append(None)
         else:
             new_num.append(cont_dof - cont)
+    for dof_ima, dof_ref in zip(dofs_ima, dofs_ref):
+        new_num[dof_ima] = new_num[dof_ref]
     return new_num
 
 
-- 
2.43.0


From 81710bd15af2fad385473a7d2561cdca574c4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 22/41] fix: ele_writer accepts quad9 elements, as its
 documentation says

---
 solidspy/preprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index dd26468..b9fad83 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -97,7 +97,8 @@ def ele_writer(cells, cell_data, ele_tag, phy_sur,  ele_type, mat_tag, nini):
     eles = cells[ele_tag]
     dict_nnode = {'triangle': 3,
                   'triangle6': 6,
-                  'quad': 4}
+                  'quad': 4,
+                  'quad9': 9}
     nnode = dict_nnode[ele_tag]
     phy_surface = cell_data[ele_tag]['gmsh:physical']
     ele_id = [cont for cont, _ in enumerate(phy_surface[:])
-- 
2.43.0


From d61c4cdc8a940934f9c4fbe49423921d7150e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:37 +0000
Subject: [PATCH 23/41] fix: readin and echomod accept a folder without a
 trailing separator

---
 solidspy/preprocesor.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index b9fad83..27c01a3 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -7,26 +7,27 @@ This module contains functions to preprocess the input files to compute
 a Finite Element Analysis.
 
 """
+import os
 import sys
 import numpy as np
 
 
 def readin(folder=""):
     """Read the input files"""
-    nodes = np.loadtxt(folder + 'nodes.txt', ndmin=2)
-    mats = np.loadtxt(folder + 'mater.txt', ndmin=2)
-    elements = np.loadtxt(folder + 'eles.txt', ndmin=2, dtype=int)
-    loads = np.loadtxt(folder + 'loads.txt', ndmin=2)
+    nodes = np.loadtxt(os.path.join(folder, 'nodes.txt'), ndmin=2)
+    mats = np.loadtxt(os.path.join(folder, 'mater.txt'), ndmin=2)
+    elements = np.loadtxt(os.path.join(folder, 'eles.txt'), ndmin=2, dtype=int)
+    loads = np.loadtxt(os.path.join(folder, 'loads.txt'), ndmin=2)
 
     return nodes, mats, elements, loads
 
 
 def echomod(nodes, mats, elements, loads, folder=""):
     """Create echoes of the model input files"""
-    np.savetxt(folder + "KNODES.txt", nodes, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KMATES.txt", mats, fmt='%5.2f', delimiter=' ')
-    np.savetxt(folder + "KELEMS.txt", elements, fmt='%d', delimiter=' ')
-    np.savetxt(folder + "KLOADS.txt", loads, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KNODES.txt"), nodes, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KMATES.txt"), mats, fmt='%5.2f', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KELEMS.txt"), elements, fmt='%d', delimiter=' ')
+    np.savetxt(os.path.join(folder, "KLOADS.txt"), loads, fmt='%5.2f', delimiter=' ')
 
 
 def initial_params():
-- 
2.43.0


From 0df720c797693b6fac1489fea73d89d7e305e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:39 +0000
Subject: [PATCH 24/41] fix: the equilibrium check compares the residual with
 the loads, not with the stiffness

---
 solidspy/solids_GUI.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 22afda1..4be8d1f 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -67,8 +67,9 @@ def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
 
     # System solution
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    load_scale = np.abs(rhs_vec).max(initial=0.0)
+    if not np.allclose(stiff_mat.dot(disp), rhs_vec, rtol=0.0,
+                       atol=1e-5*load_scale):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
@@ -140,8 +141,9 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
     # System solution
     start_time = datetime.now()
     disp = sol.static_sol(stiff_mat, rhs_vec)
-    if not np.allclose(stiff_mat.dot(disp)/stiff_mat.max(),
-                       rhs_vec/stiff_mat.max()):
+    load_scale = np.abs(rhs_vec).max(initial=0.0)
+    if not np.allclose(stiff_mat.dot(disp), rhs_vec, rtol=0.0,
+                       atol=1e-5*load_scale):
         print("The system is not in equilibrium!")
     end_time = datetime.now()
     print('Duration for system solution: {}'.format(end_time - start_time))
-- 
2.43.0


From 4a00e3f4b38480938da9f8fcfe75115ace290cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:42 +0000
Subject: [PATCH 25/41] fix: solids_auto takes the degrees of freedom per node
 from the constraints, so beams can be solved

---
 solidspy/solids_GUI.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 4be8d1f..3aad4df 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -126,17 +126,18 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
     elements = data["elements"]
     mats = data["mats"]
     loads = data["loads"]
+    ndof_node = cons.shape[1]
 
 
     # Pre-processing
-    assem_op, bc_array, neq = ass.DME(cons, elements)
+    assem_op, bc_array, neq = ass.DME(cons, elements, ndof_node=ndof_node)
     print("Number of nodes: {}".format(nodes.shape[0]))
     print("Number of elements: {}".format(elements.shape[0]))
     print("Number of equations: {}".format(neq))
 
     # System assembly
     stiff_mat, _ = ass.assembler(elements, mats, nodes, neq, assem_op)
-    rhs_vec = ass.loadasem(loads, bc_array, neq)
+    rhs_vec = ass.loadasem(loads, bc_array, neq, ndof_node=ndof_node)
 
     # System solution
     start_time = datetime.now()
@@ -150,7 +151,8 @@ def solids_auto(data, plot_contours=True, compute_strains=False):
 
     # Post-processing
     start_time = datetime.now()
-    disp_complete = pos.complete_disp(bc_array, nodes, disp)
+    disp_complete = pos.complete_disp(bc_array, nodes, disp,
+                                      ndof_node=ndof_node)
     strain_nodes, stress_nodes = None, None
     if compute_strains:
         strain_nodes, stress_nodes = pos.strain_nodes(nodes, elements, mats,
-- 
2.43.0


From 5904ef33bf742c00b5c7dd0b97aad58b4616cecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:21 +0000
Subject: [PATCH 26/41] fix: strain_nodes recovers strains and stresses in
 9-node quadrilaterals instead of crashing

---
 solidspy/femutil.py      | 33 +++++++++++++++++++++++++++++++++
 solidspy/postprocesor.py |  2 ++
 2 files changed, 35 insertions(+)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 4ef8ddf..6a53c0a 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -777,6 +777,39 @@ def str_el4(coord, ul):
     return epsG.T, xl
 
 
+def str_el9(coord, ul):
+    """Compute the strains at each element integration point
+
+    This one is used for 9-noded quadrilateral elements.
+
+    Parameters
+    ----------
+    coord : ndarray
+      Coordinates of the nodes of the element (9, 2).
+    ul : ndarray
+      Array with displacements for the element.
+
+    Returns
+    -------
+    epsGT : ndarray
+      Strain components for the Gauss points.
+    xl : ndarray
+      Configuration of the Gauss points after deformation.
+
+    """
+    epsG = np.zeros([3, 9])
+    xl = np.zeros([9, 2])
+    gpts, _ = gau.gauss_nd(3)
+    gpts = gpts[[0, 6, 8, 2, 3, 7, 5, 1, 4]]  # same order as the nodes
+    for i in range(gpts.shape[0]):
+        ri, si = gpts[i, :]
+        H, B, _= elast_diff_2d(ri, si, coord, shape_quad9)
+        epsG[:, i] = B @ ul
+        xl[i, 0] = np.dot(H[0, ::2], coord[:, 0])
+        xl[i, 1] = np.dot(H[0, ::2], coord[:, 1])
+    return epsG.T, xl
+
+
 if __name__ == "__main__":
     import doctest
     doctest.testmod()
diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 82e35f0..a0ac761 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -383,6 +383,8 @@ def strain_nodes(nodes, elements, mats, sol_complete):
             epsG, _ = fe.str_el6(elcoor, ul)
         elif iet == 3:
             epsG, _ = fe.str_el3(elcoor, ul)
+        elif iet == 4:
+            epsG, _ = fe.str_el9(elcoor, ul)
         for cont, node in enumerate(IELCON[el, :]):
             E_nodes[node, 0] += epsG[cont, 0]
             E_nodes[node, 1] += epsG[cont, 1]
-- 
2.43.0


From 861f73c0af071e1af81b90226a5413366dcd2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 27/41] fix: jacoper refuses elements whose nodes coincide away
 from the origin

---
 solidspy/femutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 6a53c0a..6699055 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -526,7 +526,9 @@ def jacoper(dNdr, coord):
     """
     jaco = dNdr @ coord
     det = np.linalg.det(jaco)
-    scale = np.linalg.norm(jaco)**jaco.shape[0]
+    scale = max(np.linalg.norm(jaco),
+                1e-10*np.linalg.norm(dNdr)*np.linalg.norm(coord))
+    scale = scale**jaco.shape[0]
     if np.isclose(np.abs(det), 0.0, atol=1e-8*scale):
         msg = "Jacobian close to zero. Check the shape of your elements!"
         raise ValueError(msg)
-- 
2.43.0


From ae742f84a7769e0134a71dccd4ba47ec5ea43027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:34 +0000
Subject: [PATCH 28/41] fix: mesh2tri returned a triangulation sharing memory
 with the node table

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index a0ac761..7dab2da 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -261,8 +261,8 @@ def mesh2tri(nodes, elements):
         and ntri triangles.
 
     """
-    coord_x = nodes[:, 1]
-    coord_y = nodes[:, 2]
+    coord_x = nodes[:, 1].copy()
+    coord_y = nodes[:, 2].copy()
     triangs = []
     for elem in elements:
         if elem[1] == 1:
-- 
2.43.0


From 94ba1cfdbd7fb394e151e7cfc7928438fdf8dcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 29/41] fix: plot_truss drew the members of an unloaded truss
 invisible

---
 solidspy/postprocesor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 7dab2da..74516ae 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -215,6 +215,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
         scaled_stress = np.ones_like(elements[:, 0])
     else:
         max_stress = max(-stresses.min(), stresses.max())
+        if max_stress == 0:
+            # Nothing to scale in an unloaded truss
+            max_stress = 1.0
         scaled_stress = 0.5*(stresses + max_stress)/max_stress
     if max_area - min_area > 1e-6:
         widths = (max_val - min_val)*(areas - min_area)/(max_area - min_area)\
-- 
2.43.0


From c1bb420a8579748343956653b57e3617beda1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:00 +0000
Subject: [PATCH 30/41] fix: plot_truss colours each member by its row in the
 tables, not by its identifier

---
 solidspy/postprocesor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 74516ae..82ec915 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -225,9 +225,9 @@ def plot_truss(nodes, elements, mats, stresses=None, max_val=4,
     else:
         widths = 3*np.ones_like(areas)
     plt.figure(figtitle)
-    for elem in elements:
+    for cont, elem in enumerate(elements):
         ini, end = elem[3:]
-        color = plt.cm.seismic(scaled_stress[elem[0]])
+        color = plt.cm.seismic(scaled_stress[cont])
         plt.plot([nodes[ini, 1], nodes[end, 1]],
                  [nodes[ini, 2], nodes[end, 2]],
                  color=color, lw=widths[elem[2]])
-- 
2.43.0


From 3e4c95109f4362ac6c69ebd67b2aaf462c0291cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:28 +0000
Subject: [PATCH 31/41] fix: plot_node_field no longer draws over open figures
 when their numbers have gaps

---
 solidspy/postprocesor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 82ec915..f28f35d 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -154,9 +154,8 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
     if title is None:
         title = ["" for cont in range(nfields)]
     if figtitle is None:
-        figs = plt.get_fignums()
-        nfigs = len(figs)
-        figtitle = [cont + 1 for cont in range(nfigs, nfigs + nfields)]
+        last_fig = max(plt.get_fignums(), default=0)
+        figtitle = [last_fig + cont + 1 for cont in range(nfields)]
     if filename is None:
         filename = ["output{}.pdf".format(cont) for cont in range(nfields)]
     for cont in range(nfields):
-- 
2.43.0


From 63e56173348a5a8584c614d99eb51454fdfe79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 32/41] fix: fields_plot redraws its windows instead of piling
 new results over old ones

---
 solidspy/postprocesor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index f28f35d..2da7d72 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -57,7 +57,7 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
     else:
         plot_node_field(disp, nodes, elements, title=[r"$u_x$", r"$u_y$"],
                         figtitle=["Horizontal displacement",
-                                  "Vertical displacement"])
+                                  "Vertical displacement"], clear=True)
         if E_nodes is not None:
             plot_node_field(E_nodes, nodes, elements,
                             title=[r"$\epsilon_{xx}$",
@@ -65,7 +65,7 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
                                    r"$\gamma_{xy}$",],
                             figtitle=["Strain epsilon-xx",
                                       "Strain epsilon-yy",
-                                      "Strain gamma-xy"])
+                                      "Strain gamma-xy"], clear=True)
         if S_nodes is not None:
             plot_node_field(S_nodes, nodes, elements,
                             title=[r"$\sigma_{xx}$",
@@ -73,7 +73,7 @@ def fields_plot(elements, nodes, disp, E_nodes=None, S_nodes=None):
                                    r"$\tau_{xy}$",],
                             figtitle=["Stress sigma-xx",
                                       "Stress sigma-yy",
-                                      "Stress tau-xy"])
+                                      "Stress tau-xy"], clear=True)
 
 
 
@@ -114,7 +114,7 @@ def tri_plot(tri, field, title="", levels=12, savefigs=False,
 
 def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
                     savefigs=False, title=None, figtitle=None,
-                    filename=None):
+                    filename=None, clear=False):
     """Plot the nodal displacement using a triangulation
 
     Parameters
@@ -145,6 +145,8 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
         Filenames to save the figures. Only used when `savefigs=True`.
         If not provided the name of the figures would be "outputk.pdf",
         where `k` is the number of the column.
+    clear : bool (optional)
+        Clear the plotting windows that already exist.
     """
     tri = mesh2tri(nodes, elements)
     if len(field.shape) == 1:
@@ -163,7 +165,7 @@ def plot_node_field(field, nodes, elements, plt_type="contourf", levels=12,
             current_field = field
         else:
             current_field = field[:, cont]
-        plt.figure(figtitle[cont])
+        plt.figure(figtitle[cont], clear=clear)
         tri_plot(tri, current_field, title=title[cont], levels=levels,
                  plt_type=plt_type, savefigs=savefigs,
                  filename=filename[cont])
-- 
2.43.0


From e7ff790734c2a90465b24ab7310fb50260fde72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 33/41] fix: an interrupt while looking up an element type is
 no longer reported as an invalid type

---
 solidspy/assemutil.py | 2 +-
 solidspy/femutil.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 421fb1f..553b379 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -112,7 +112,7 @@ def ele_fun(eletype):
         8: ue.beam2D}
     try:
         return elem_id[eletype]
-    except:
+    except (KeyError, TypeError):
         raise ValueError("You entered an invalid type of element.")
 
 
diff --git a/solidspy/femutil.py b/solidspy/femutil.py
index 6699055..ce7dece 100755
--- a/solidspy/femutil.py
+++ b/solidspy/femutil.py
@@ -63,7 +63,7 @@ def eletype(eletype):
         8: (6, 2, 3)}
     try:
         return elem_id[eletype]
-    except:
+    except (KeyError, TypeError):
         raise ValueError("You entered an invalid type of element.")
 
 
-- 
2.43.0


From 8847e949c603da4191d569c338b00eef5f7ae44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 34/41] fix: an interrupt during the folder dialog stops the
 program instead of asking again

---
 solidspy/preprocesor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/solidspy/preprocesor.py b/solidspy/preprocesor.py
index 27c01a3..60e8783 100755
--- a/solidspy/preprocesor.py
+++ b/solidspy/preprocesor.py
@@ -53,7 +53,7 @@ def initial_params():
     try:
         import easygui
         folder = easygui.diropenbox(title="Folder for the job") + "/"
-    except:
+    except Exception:
         folder = raw_input('Enter folder (empty for the current one): ')
 
     return folder
-- 
2.43.0


From d59d00785d2814215b8371ed36fb2fa427135ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:02 +0000
Subject: [PATCH 35/41] fix: show the plots when run as python -m solidspy

The documented program closed its figures by exiting at once.
---
 solidspy/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/solidspy/__main__.py b/solidspy/__main__.py
index 85267a6..139e1a0 100755
--- a/solidspy/__main__.py
+++ b/solidspy/__main__.py
@@ -1,5 +1,7 @@
 # -*- coding: utf-8 -*-
 from __future__ import absolute_import
+import matplotlib.pyplot as plt
 from solidspy.solids_GUI import solids_GUI
 
-solids_GUI()
\ No newline at end of file
+solids_GUI()
+plt.show()
-- 
2.43.0


From e39893537e7b8fa4acc42b630b2690a5bd387dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 36/41] fix: Bloch numbering and transformation searched the
 list of images for every freedom, quadratic work

---
 solidspy/blochutil.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/solidspy/blochutil.py b/solidspy/blochutil.py
index 368b4a3..4c32d0b 100644
--- a/solidspy/blochutil.py
+++ b/solidspy/blochutil.py
@@ -46,9 +46,10 @@ def reassign_dof_bloch(ndofs, dofs_ima, dofs_ref):
 
     """
     new_num = []
+    images = set(dofs_ima)
     cont = 0
     for cont_dof in range(ndofs):
-        if cont_dof in dofs_ima:
+        if cont_dof in images:
             cont += 1
             new_num.append(None)
         else:
@@ -171,9 +172,10 @@ def bloch_transform_mat(wavevector, coords, ndofs, nodes_ref, nodes_ima,
     cols = []
     vals = []
         
+    images = set(dofs_ima)
     # Inner nodes
     for cont_dof in range(ndofs):
-        if cont_dof not in dofs_ima:
+        if cont_dof not in images:
             rows.append(cont_dof)
             cols.append(new_num[cont_dof])
             vals.append(1)
-- 
2.43.0


From 27bc453bb83bb208ce4809c681071827a6f09e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 37/41] fix: principal directions were lost for nearly
 isotropic tensors, and values for huge or tiny ones

---
 solidspy/postprocesor.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 2da7d72..14a41e3 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -611,11 +611,12 @@ def eigvals(mat, tol=1e-6):
         vec2 = np.array([0, 1])
     else:
         trace = mat[0, 0] + mat[1, 1]
-        det = mat[0, 0]*mat[1, 1] - mat[0, 1]**2
-        eig1 = 0.5*(trace - np.sqrt(trace**2 - 4*det))
-        eig2 = 0.5*(trace + np.sqrt(trace**2 - 4*det))
-        vec1 = np.array([mat[0, 0] - eig2, mat[0, 1]])
-        vec1 = vec1/np.sqrt(vec1[0]**2 + vec1[1]**2)
+        diff = mat[0, 0] - mat[1, 1]
+        radius = np.hypot(diff, 2*mat[0, 1])
+        angle = 0.5*np.arctan2(2*abs(mat[0, 1]), diff)
+        eig1 = 0.5*(trace - radius)
+        eig2 = 0.5*(trace + radius)
+        vec1 = np.array([-np.sin(angle), np.copysign(np.cos(angle), mat[0, 1])])
         vec2 = np.array([-vec1[1], vec1[0]])
     if abs(eig2) > abs(eig1):
         eig2, eig1 = eig1, eig2
-- 
2.43.0


From ceea8a537d38c2e97631ecdcb0ce0ad3631f3337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 38/41] fix: dense assembly dropped the imaginary part of
 complex user elements

---
 solidspy/assemutil.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 553b379..8b3df6f 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -220,6 +220,10 @@ def dense_assem(elements, mats, nodes, neq, assem_op, uel=None):
     nels = elements.shape[0]
     for ele in range(nels):
         kloc, mloc = retriever(elements, mats, nodes, ele, uel=uel)
+        if np.iscomplexobj(kloc):
+            kglob = kglob.astype(complex, copy=False)
+        if np.iscomplexobj(mloc):
+            mglob = mglob.astype(complex, copy=False)
         ndof = kloc.shape[0]
         dme = assem_op[ele, :ndof]
         for row in range(ndof):
-- 
2.43.0


From 33104c1a7d278dbf1ffb0ce1f19a75a4ddfed52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 39/41] fix: the imaginary part of complex loads was dropped

---
 solidspy/assemutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/solidspy/assemutil.py b/solidspy/assemutil.py
index 8b3df6f..4c377ed 100755
--- a/solidspy/assemutil.py
+++ b/solidspy/assemutil.py
@@ -320,9 +320,9 @@ def loadasem(loads, bc_array, neq, ndof_node=2):
 
     """
     nloads = loads.shape[0]
-    rhs_vec = np.zeros([neq])
+    rhs_vec = np.zeros([neq], dtype=complex if np.iscomplexobj(loads) else float)
     for cont in range(nloads):
-        node = int(loads[cont, 0])
+        node = int(loads[cont, 0].real)
         for dof in range(ndof_node):
             dof_id = bc_array[node, dof]
             if dof_id != -1:
-- 
2.43.0


From ef87529caa90190920a53607f009bc2ac8658487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:32 +0000
Subject: [PATCH 40/41] fix: the imaginary part of complex solutions was
 dropped when completing the displacements

---
 solidspy/postprocesor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/solidspy/postprocesor.py b/solidspy/postprocesor.py
index 14a41e3..ecc1bb7 100755
--- a/solidspy/postprocesor.py
+++ b/solidspy/postprocesor.py
@@ -315,7 +315,8 @@ def complete_disp(bc_array, nodes, sol, ndof_node=2):
 
     """
     nnodes = nodes.shape[0]
-    sol_complete = np.zeros([nnodes, ndof_node], dtype=float)
+    sol_complete = np.zeros([nnodes, ndof_node],
+                            dtype=complex if np.iscomplexobj(sol) else float)
     for row in range(nnodes):
         for col in range(ndof_node):
             cons = bc_array[row, col]
-- 
2.43.0


From 42354a73fe4e50fd416432c7edd47e507a1f16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:33 +0000
Subject: [PATCH 41/41] fix: nodes files without the second constraint were
 solved with a coordinate in its place

---
 solidspy/solids_GUI.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/solidspy/solids_GUI.py b/solidspy/solids_GUI.py
index 3aad4df..f1bba4a 100755
--- a/solidspy/solids_GUI.py
+++ b/solidspy/solids_GUI.py
@@ -54,6 +54,9 @@ def solids_GUI(plot_contours=True, compute_strains=False, folder=None):
 
     # Pre-processing
     nodes, mats, elements, loads = pre.readin(folder=folder)
+    if nodes.shape[1] < 5:
+        raise ValueError("Each row of nodes.txt needs an identifier, "
+                         "two coordinates and two constraints.")
     if echo:
         pre.echomod(nodes, mats, elements, loads, folder=folder)
     assem_op, bc_array, neq = ass.DME(nodes[:, -2:], elements)
-- 
2.43.0

