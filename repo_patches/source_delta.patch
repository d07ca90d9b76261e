From a8092784320f3bbcfdc3c1911351e1f97e78a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 01/41] fix: calc_kC with ABDnxny and no Ritz constants used a
 NaN vector

With ABDnxny given and c=None, np.ascontiguousarray(None) created a
one-element NaN array that was handed to the numerical integration: with
NLgeom=True it was read out of bounds and gave NaN matrices.
---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 59ef4dd..1b499a8 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -440,7 +440,7 @@ class Shell(object):
         ny = self.ny if ny is None else ny
         self.r = self.r if self.r is not None else 0.
 
-        if c is None and ABDnxny is None:
+        if c is None:
             # Empty c if the interest is only on the heterogeneous
             # laminate properties
             c = np.zeros(size, dtype=DOUBLE)
-- 
2.43.0


From e6e2305bf6fb31ad2d316937d379290f935163c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 02/41] fix: constant stress state with NLgeom=True and no
 c_cte read a None buffer

calc_kC(NLgeom=True) with Nxx_cte, Nyy_cte or Nxy_cte and c_cte=None gave
None to fkG_num, which dereferenced it.
---
 panels/shell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 1b499a8..8ac6673 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -474,6 +474,8 @@ class Shell(object):
             if analytical_kG:
                 kC += matrices.fkG0(self.Nxx_cte, self.Nyy_cte, self.Nxy_cte, self, size, row0, col0)
             else:
+                if c_cte is None:
+                    c_cte = np.zeros(size, dtype=DOUBLE)
                 kC += matrices_num.fkG_num(c_cte, ABDnxny, self,
                         size, row0, col0, nx, ny, NLgeom,
                         self.Nxx_cte, self.Nyy_cte, self.Nxy_cte)
-- 
2.43.0


From 35c785a9580ef77645dc16dd640732b761d1a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 03/41] fix: Shell.calc_cA looked up fcA in the wrong module
 and returned None

fcA only exists in the analytical matrices modules, so calc_cA always raised
AttributeError; the other calc_* methods return their matrix.
---
 panels/shell.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 8ac6673..9336dd2 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -690,8 +690,8 @@ class Shell(object):
 
         if size is None:
             size = self.get_size()
-        matrices_num = modelDB.db[self.model]['matrices_num']
-        cA = matrices_num.fcA(aeromu, self, size, 0, 0)
+        matrices = modelDB.db[self.model]['matrices']
+        cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
 
         if finalize:
@@ -703,6 +703,8 @@ class Shell(object):
 
         msg('finished!', level=2, silent=silent)
 
+        return cA
+
 
     def uvw(self, c, xs=None, ys=None, gridx=300, gridy=300):
         r"""Calculate the displacement field
-- 
2.43.0


From 573d43a227f8d6af960959935748de0db156062a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 04/41] fix: sign of the rotary-translational coupling of kM
 for an offset laminate

The laminate occupies z in [offset - h/2, offset + h/2] and u(z) = u - z*w,x,
as calc_kC and the strains assume, so the inertia coupling of u and w,x is
-rho*h*offset. calc_kM used the opposite sign, and the natural frequencies of
a free plate changed with the choice of the reference surface.
---
 panels/shell.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 9336dd2..c92eef2 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -610,10 +610,10 @@ class Shell(object):
             analytical_kM = False
 
         if analytical_kM:
-            kM = matrices.fkM(self, self.offset, size, row0, col0)
+            kM = matrices.fkM(self, -self.offset, size, row0, col0)
         else:
             hrho_input = np.concatenate((h_nxny[..., None], rho_nxny[..., None]), axis=2)
-            kM = matrices_num.fkM_num(self, self.offset, hrho_input, size, row0, col0, nx, ny)
+            kM = matrices_num.fkM_num(self, -self.offset, hrho_input, size, row0, col0, nx, ny)
 
         if finalize:
             kM = finalize_symmetric_matrix(kM)
-- 
2.43.0


From ab3f1ba94d1e1a9c479b724a8eae4e86941062db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 05/41] fix: Shell.calc_kM required a previous calc_kC, calc_kG
 or calc_fext

Unlike the other methods it did not rebuild the laminate, so that it raised
AttributeError on a new Shell, and for a BladeStiff1D with a base, which
recreates the base before each evaluation.
---
 panels/shell.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/panels/shell.py b/panels/shell.py
index c92eef2..ee81701 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -579,6 +579,7 @@ class Shell(object):
 
         """
         msg('Calculating kM... ', level=2, silent=silent)
+        self._rebuild()
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
-- 
2.43.0


From 6ce4b0e4470404a5ca0b3b88811c4b39869c99a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 06/41] fix: analytical mass matrix ignored the density of each
 ply

fkM used Shell.rho even when Shell.rhos was given, differently from the
numerical fkM_num, which uses the laminate integral.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index c800f12..451092b 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -359,7 +359,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
+    rho = shell.lam.intrho/shell.lam.h
     h = sum(shell.plyts)
     m = shell.m
     n = shell.n
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 71b0f50..4ca5284 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -357,7 +357,7 @@ def fkM(object shell, double d, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    rho = shell.rho
+    rho = shell.lam.intrho/shell.lam.h
     h = sum(shell.plyts)
     m = shell.m
     n = shell.n
-- 
2.43.0


From c2cdfd80faf65edf0ed76cdb58867f511a27413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 07/41] fix: kC, kG and kM of a partial domain covered the
 whole panel

x1, x2, y1 and y2 restrict the integration domain, but the analytical
integration used by default ignored them: each panel and stiffener base of a
StiffPanelBay was integrated over the full bay. The numerical integration,
which honours the limits, is now used for partial domains.
---
 panels/shell.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index ee81701..eeaebcd 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -279,6 +279,12 @@ class Shell(object):
         self.size = self.get_size()
 
 
+    def _is_partial_domain(self):
+        # same rule used by the functions for numerical integration
+        return ((self.x1 != -1 and self.x2 != -1)
+                or (self.y1 != -1 and self.y2 != -1))
+
+
     def get_size(self):
         r"""Calculate the size of the stiffness matrices
 
@@ -435,6 +441,11 @@ class Shell(object):
             # self.model = model of the current shell obj
         matrices_num = modelDB.db[self.model]['matrices_num']
 
+        # The analytical integration always covers the whole domain
+        if self._is_partial_domain():
+            analytical_kC = False
+            analytical_kG = False
+
         # Num integration points
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
@@ -519,7 +530,7 @@ class Shell(object):
             c = np.zeros(size, dtype=DOUBLE)
             if any((self.Nxx, self.Nyy, self.Nxy)):
                 msg('NOTE: stress state taken into account using ONLY (Nxx, Nyy, Nxy)', level=3, silent=silent)
-        if NLgeom:
+        if NLgeom or self._is_partial_domain():
             analytical_kG = False
 
         matrices = modelDB.db[self.model]['matrices']
@@ -610,6 +621,9 @@ class Shell(object):
         else:
             analytical_kM = False
 
+        if self._is_partial_domain():
+            analytical_kM = False
+
         if analytical_kM:
             kM = matrices.fkM(self, -self.offset, size, row0, col0)
         else:
-- 
2.43.0


From 1655711bab81e5af6f64d8915281c60520d9a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 08/41] fix: calc_kA, calc_cA and calc_fint required a previous
 calc_kC

As with calc_kM, they did not rebuild the laminate and the model of a new or
modified Shell.
---
 panels/shell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index eeaebcd..12f0534 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -646,7 +646,7 @@ class Shell(object):
         r"""Calculate the aerodynamic matrix using the linear piston theory
         """
         msg('Calculating kA... ', level=2, silent=silent)
-
+        self._rebuild()
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -702,7 +702,7 @@ class Shell(object):
         r"""Calculate the aerodynamic damping matrix using the piston theory
         """
         msg('Calculating cA... ', level=2, silent=silent)
-
+        self._rebuild()
         if size is None:
             size = self.get_size()
         matrices = modelDB.db[self.model]['matrices']
@@ -1186,6 +1186,7 @@ class Shell(object):
 
         """
         msg('Calculating internal forces...', level=2, silent=silent)
+        self._rebuild()
         model = self.model
         if not model in modelDB.db.keys():
             raise ValueError(
-- 
2.43.0


From 3359e31ced79fbeffe0c4537254eb4bc39148bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:13 +0000
Subject: [PATCH 09/41] fix: calc_kA ignored flow conditions changed after the
 first evaluation

beta and gamma derived from Mach, V, rho_air were stored in the Shell, where
they prevail over the flow conditions in the next calls; Mach = 1 was also
overwritten.
---
 panels/shell.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/panels/shell.py b/panels/shell.py
index 12f0534..6649b49 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -662,9 +662,7 @@ class Shell(object):
                 raise ValueError('Mach number cannot be a NoneValue')
             elif self.Mach < 1:
                 raise ValueError('Mach number must be >= 1')
-            elif self.Mach == 1:
-                self.Mach = 1.0001
-            Mach = self.Mach
+            Mach = self.Mach if self.Mach != 1 else 1.0001
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
             if self.r != 0.:
                 gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
@@ -674,15 +672,20 @@ class Shell(object):
             beta = self.beta
             gamma = self.gamma if self.gamma is not None else 0.
 
+        # beta and gamma calculated from the flow conditions must not be kept,
+        # otherwise they would prevail over new flow conditions
+        given = self.beta, self.gamma
         self.beta = beta
         self.gamma = gamma
-
-        if self.flow.lower() == 'x':
-            kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
-        elif self.flow.lower() == 'y':
-            kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
-        else:
-            raise ValueError('Invalid flow value, must be x or y')
+        try:
+            if self.flow.lower() == 'x':
+                kA = matrices_num.fkAx_num(self, size, row0, col0, self.nx, self.ny)
+            elif self.flow.lower() == 'y':
+                kA = matrices_num.fkAy_num(self, size, row0, col0, self.nx, self.ny)
+            else:
+                raise ValueError('Invalid flow value, must be x or y')
+        finally:
+            self.beta, self.gamma = given
 
         if finalize:
             assert np.any(np.isnan(kA.data)) == False
-- 
2.43.0


From 94a17a1fdf24194d161b6282f48e6d9df92d52c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 10/41] fix: MultiDomain.calc_kT gave calc_kC an argument it
 does not have

Shell.calc_kC has no inc argument, so calc_kT always raised TypeError.
---
 panels/multidomain/multidomain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a53fe8b..4a455a1 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -1014,7 +1014,7 @@ class MultiDomain(object):
             if p.row_start is None or p.col_start is None:
                 raise ValueError('Shell attributes "row_start" and "col_start" must be defined!')
             kT += p.calc_kC(c=c, size=size, row0=p.row_start, col0=p.col_start,
-                    silent=silent, finalize=False, inc=inc, NLgeom=True)
+                    silent=silent, finalize=False, NLgeom=True)
             kT += p.calc_kG(c=c, size=size, row0=p.row_start,
                     col0=p.col_start, silent=silent, finalize=False, NLgeom=True)
         if finalize:
-- 
2.43.0


From 95f4aa2e4ad2ac708c3eae6f1faf44d517d09bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:26 +0000
Subject: [PATCH 11/41] fix: get_kC_conn swapped the positions in the
 connectivity of the user

For a connection given with the panels in reversed order the positions were
swapped in the given dict itself, such that the next use of the same
connectivity, in another MultiDomain or after a change of the panels, had
them in the wrong panels.
---
 panels/multidomain/multidomain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4a455a1..4526858 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -776,7 +776,9 @@ class MultiDomain(object):
         
         # Looping through each connection pair 
         for connecti in conn:
-            # connecti = ith connection pair
+            # connecti = ith connection pair, copied because its positions may
+            # be swapped below
+            connecti = dict(connecti)
             p1_temp = connecti['p1']
             p2_temp = connecti['p2']
             if p1_temp.col_start < p2_temp.col_start:
-- 
2.43.0


From 8e4d77539c281f89e96011985f8f5093301592b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 12/41] fix: calc_kC(conn=...) returned the connections of a
 previous connectivity

get_kC_conn gave back the matrix of the first call even for a different conn.
---
 panels/multidomain/multidomain.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4526858..4964e29 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -762,12 +762,14 @@ class MultiDomain(object):
                 Each elem of the list = dict for a single connection pair 
                 Each dict contains info of that specific with connection pair
         '''
+        # only the connectivity of the assembly is kept for the next calls
+        keep = conn is None or conn is self.conn
         if conn is None:
             if self.conn is None:
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
 
-        if self.kC_conn is not None:
+        if keep and self.kC_conn is not None:
             return self.kC_conn
 
         size = self.get_size()
@@ -902,7 +904,8 @@ class MultiDomain(object):
 
         if finalize:
             kC_conn = finalize_symmetric_matrix(kC_conn)
-        self.kC_conn = kC_conn
+        if keep:
+            self.kC_conn = kC_conn
         #NOTE memory cleanup
         gc.collect()
         return kC_conn
@@ -950,7 +953,7 @@ class MultiDomain(object):
         # NOTE move this to another class method? it's a bid hidden
         # Adding kC_conn to KC panel
         kC_conn = self.get_kC_conn(conn=conn)
-        kC += self.kC_conn
+        kC += kC_conn
 
         self.kC = kC
         msg('finished!', level=2, silent=silent)
-- 
2.43.0


From 7707e7dc03abf019e27ca53de13bb0078866772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 13/41] fix: cylinder analyses applied the load of the last
 panel to all panels

The load functions were evaluated after the loop, when the loop variables
had the values of the last panel; cylinder_spla ignored its Nxx argument.
---
 panels/multidomain/cylinder.py                 | 4 ++--
 panels/multidomain/cylinder_blade_stiffened.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 816182d..2f8a4df 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -168,7 +168,7 @@ def cylinder_compression_lb_Nxx_from_static(height, r, stack, plyt, laminaprop,
         raise ValueError('The length of "Nxxs" must be the same as "npanels"')
 
     for i, p in enumerate(assy.panels):
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxxs[i], None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxxs[i]: Nxx, None, None)
         p.x2u = 1
 
     fext = assy.calc_fext(silent=True)
@@ -220,7 +220,7 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
         p.x2u = 1
 
     for p in assy.panels:
-        p.add_distr_load_fixed_x(p.a, lambda y: p.Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
 
     p_spla = assy.panels[0]
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
diff --git a/panels/multidomain/cylinder_blade_stiffened.py b/panels/multidomain/cylinder_blade_stiffened.py
index b8e25fe..4a098a8 100644
--- a/panels/multidomain/cylinder_blade_stiffened.py
+++ b/panels/multidomain/cylinder_blade_stiffened.py
@@ -229,7 +229,7 @@ def cylinder_blade_stiffened_compression_lb_Nxx_from_static(height, r, stack,
         elif 'blade' in p.group:
             i_blade += 1
             Nxx = Nxxs_blade[i_blade]
-        p.add_distr_load_fixed_x(p.a, lambda y: Nxx, None, None)
+        p.add_distr_load_fixed_x(p.a, lambda y, Nxx=Nxx: Nxx, None, None)
 
     fext = assy.calc_fext(silent=True)
 
-- 
2.43.0


From 90b46b30d1636f8925302cedbedcbd1c7fb8ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 14/41] fix: *_gauss_points used the dimensions of the first
 panel for all panels

The default points of the first panel of the group were kept for the others.
---
 panels/multidomain/multidomain.py | 36 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 4964e29..afbdad4 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -573,14 +573,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # default points depend on the dimensions of each panel
+            x_points, y_points = x_gauss, y_gauss
+            if x_points is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_points = linspace(0, panel.a, no_grid_x)
+            if y_points is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_points = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_points, y_points, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -644,14 +646,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # default points depend on the dimensions of each panel
+            x_points, y_points = x_gauss, y_gauss
+            if x_points is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_points = linspace(0, panel.a, no_grid_x)
+            if y_points is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_points = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_points, y_points, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
@@ -712,14 +716,16 @@ class MultiDomain(object):
             
             if x_gauss is None and y_gauss is None:
                 raise ValueError('Sampling points in atleast x or y should be specified')
-            if x_gauss is None:
+            # default points depend on the dimensions of each panel
+            x_points, y_points = x_gauss, y_gauss
+            if x_points is None:
                 no_grid_x = 50
-                x_gauss = linspace(0, panel.a, no_grid_x)
-            if y_gauss is None:
+                x_points = linspace(0, panel.a, no_grid_x)
+            if y_points is None:
                 no_grid_y = 50
-                y_gauss = linspace(0, panel.b, no_grid_y)
+                y_points = linspace(0, panel.b, no_grid_y)
             
-            xs, ys = np.meshgrid(x_gauss, y_gauss, copy=False)
+            xs, ys = np.meshgrid(x_points, y_points, copy=False)
             # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
             xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
             ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
-- 
2.43.0


From 80d36c5deb368c0c0af8c2a031eefa642d072397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 15/41] fix: line penalties of u and v were added to the w
 degrees of freedom

fkCld_xcte and fkCld_ycte, differently from fkCpd, put the ku and kv terms in
the rows and columns of w.
---
 panels/multidomain/connections/kCpd.pyx | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/panels/multidomain/connections/kCpd.pyx b/panels/multidomain/connections/kCpd.pyx
index c4563fa..ee1d323 100644
--- a/panels/multidomain/connections/kCpd.pyx
+++ b/panels/multidomain/connections/kCpd.pyx
@@ -256,12 +256,12 @@ def fkCld_xcte(double ku, double kv, double kw, object p, double xp,
                         fBw = f(k, xip, x1w, x1wr, x2w, x2wr)
             
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+0
+                        kCld_xctec[c] = col+0
                         kCld_xctev[c] += ku*b*fAu*fBu*gAugBu/2.
                         c += 1
-                        kCld_xcter[c] = row+2
-                        kCld_xctec[c] = col+2
+                        kCld_xcter[c] = row+1
+                        kCld_xctec[c] = col+1
                         kCld_xctev[c] += kv*b*fAv*fBv*gAvgBv/2.
                         c += 1
                         kCld_xcter[c] = row+2
@@ -380,12 +380,12 @@ def fkCld_ycte(double ku, double kv, double kw, object p, double yp,
                         gBw = f(l, etap, y1w, y1wr, y2w, y2wr)
             
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+0
+                        kCld_yctec[c] = col+0
                         kCld_yctev[c] += ku*a*fAufBu*gAu*gBu/2.
                         c += 1
-                        kCld_ycter[c] = row+2
-                        kCld_yctec[c] = col+2
+                        kCld_ycter[c] = row+1
+                        kCld_yctec[c] = col+1
                         kCld_yctev[c] += kv*a*fAvfBv*gAv*gBv/2.
                         c += 1
                         kCld_ycter[c] = row+2
-- 
2.43.0


From 4250818ba6abd5a4990fa8cd2a0b82d80782e753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 16/41] fix: coupling terms of the BladeStiff1D mass matrix
 were doubled

The kinetic energy of the flange is rho*hf/2*int((u' + z*w,x')^2 + ...) such
that the cross terms of the (symmetric) mass matrix are rho*hf*bf*df, without
the factor 2. With the factor 2 the mass matrix was indefinite.
---
 .../stiffener/models/bladestiff1d_clt_donnell_bardell.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
index 9b56860..15197b4 100644
--- a/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
+++ b/panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx
@@ -233,7 +233,7 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+0
                         kMfc[c] = col+2
-                        kMfv[c] += 2*bf*df*fAufBwxi*gAu*gBw*hf*rho
+                        kMfv[c] += bf*df*fAufBwxi*gAu*gBw*hf*rho
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+1
@@ -241,15 +241,15 @@ def fkMf(double ys, double rho, double h, double hb, double hf, double a,
                         c += 1
                         kMfr[c] = row+1
                         kMfc[c] = col+2
-                        kMfv[c] += 2*a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
+                        kMfv[c] += a*bf*df*fAvfBw*gAv*gBweta*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+0
-                        kMfv[c] += 2*bf*df*fAwxifBu*gAw*gBu*hf*rho
+                        kMfv[c] += bf*df*fAwxifBu*gAw*gBu*hf*rho
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+1
-                        kMfv[c] += 2*a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
+                        kMfv[c] += a*bf*df*fAwfBv*gAweta*gBv*hf*rho/b
                         c += 1
                         kMfr[c] = row+2
                         kMfc[c] = col+2
-- 
2.43.0


From fa7947794fe5ecdd03d7eb70e1f603f12593aedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:15 +0000
Subject: [PATCH 17/41] fix: BladeStiff1D mass matrix ignored the thickness of
 the base

---
 panels/stiffener/bladestiff1d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 015c9ec..f0c3fcb 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -91,6 +91,8 @@ class BladeStiff1D(object):
                     y1=y1, y2=y2)
             self.Asb = self.bb*hb
 
+        self.hb = hb
+
         #TODO check offset effect on curved panels
         self.dbf = self.bf/2. + hb + h/2.
         self.Iyy = self.hf*self.bf**3/12.
-- 
2.43.0


From 6ad72d86408b6a01f8c9facd3885192f882c2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 18/41] fix: BladeStiff1D without a flange raised TypeError

---
 panels/stiffener/bladestiff1d.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index f0c3fcb..67d6ba5 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -94,9 +94,10 @@ class BladeStiff1D(object):
         self.hb = hb
 
         #TODO check offset effect on curved panels
-        self.dbf = self.bf/2. + hb + h/2.
-        self.Iyy = self.hf*self.bf**3/12.
-        self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
+        if self.fstack is not None:
+            self.dbf = self.bf/2. + hb + h/2.
+            self.Iyy = self.hf*self.bf**3/12.
+            self.Jxx = self.hf*self.bf**3/12. + self.bf*self.hf**3/12.
 
         Asb = self.Asb if self.Asb is not None else 0.
         Asf = self.Asf if self.Asf is not None else 0.
-- 
2.43.0


From ab43019066968686aebfded5259a05a6b77b020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 19/41] fix: StiffPanelBay.save set attributes that Shell does
 not have

---
 panels/stiffpanelbay/stiffpanelbay.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 0d44397..53bbda3 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -132,9 +132,7 @@ class StiffPanelBay(object):
         self.Ys = None
 
         for panel in self.panels:
-            panel.kC = None
-            panel.kM = None
-            panel.kG = None
+            panel._clear_matrices()
 
         for s in self.bladestiff1ds:
             s.kC = None
-- 
2.43.0


From 80ed98f07a6ae11621620877019f98849d8c8055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 20/41] fix: StiffPanelBay with a BladeStiff2D without flange
 raised AttributeError

---
 panels/stiffpanelbay/stiffpanelbay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 53bbda3..63e0d15 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -216,7 +216,8 @@ class StiffPanelBay(object):
         self.size = dofs*self.m*self.n
 
         for s in self.bladestiff2ds:
-            self.size += s.flange.get_size()
+            if s.flange is not None:
+                self.size += s.flange.get_size()
 
         for s in self.tstiff2ds:
             self.size += s.base.get_size() + s.flange.get_size()
-- 
2.43.0


From b5ab1afc4a629dee2339ef75084ed649ee7d73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 21/41] fix: StiffPanelBay.calc_fext wrote past the end of its
 buffer

The function fg fills 5 rows and only accepts Shell objects. The forces of the
flanges are stored in BladeStiff2D.forces_flange.
---
 panels/stiffpanelbay/stiffpanelbay.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 63e0d15..3e3e8ec 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1441,32 +1441,36 @@ class StiffPanelBay(object):
 
         """
         msg('Calculating external forces...', level=2, silent=silent)
+        self._rebuild()
         dofs = panelmDB.db[self.model]['dofs']
         fg = panelmDB.db[self.model]['field'].fg
 
         # punctual forces on skin
         size = dofs*self.m*self.n
-        g = np.zeros((3, size), dtype=DOUBLE)
+        g = np.zeros((5, size), dtype=DOUBLE)
         fext_skin = np.zeros(size, dtype=DOUBLE)
         for i, force in enumerate(self.forces_skin):
             x, y, fx, fy, fz = force
-            fg(g, x, y, self)
+            # all panels share the size and the boundary conditions of the bay
+            fg(g, x, y, self.panels[0])
 
-            fpt = np.array([[fx, fy, fz]])
+            fpt = np.array([[fx, fy, fz, 0, 0]])
             fext_skin += fpt.dot(g).ravel()
 
         fext = fext_skin
         # punctual forces on bladestiff2ds
         # flange
         for s in self.bladestiff2ds:
+            if s.flange is None:
+                continue
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_stiffener = np.zeros(size, dtype=DOUBLE)
-            for i, force in enumerate(s.flange.forces):
+            for i, force in enumerate(s.forces_flange):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_stiffener += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_stiffener))
@@ -1475,24 +1479,24 @@ class StiffPanelBay(object):
         for s in self.tstiff2ds:
             # base
             size = s.base.get_size()
-            g_base = np.zeros((3, size), dtype=DOUBLE)
+            g_base = np.zeros((5, size), dtype=DOUBLE)
             fext_base = np.zeros(size, dtype=DOUBLE)
             fg_base = panelmDB.db[s.base.model]['field'].fg
             for i, force in enumerate(s.base.forces):
                 xb, yb, fx, fy, fz = force
                 fg_base(g_base, xb, yb, s.base)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_base += fpt.dot(g_base).ravel()
 
             # flange
             size = s.flange.get_size()
-            g_flange = np.zeros((3, size), dtype=DOUBLE)
+            g_flange = np.zeros((5, size), dtype=DOUBLE)
             fext_flange = np.zeros(size, dtype=DOUBLE)
             fg_flange = panelmDB.db[s.flange.model]['field'].fg
             for i, force in enumerate(s.flange.forces):
                 xf, yf, fx, fy, fz = force
                 fg_flange(g_flange, xf, yf, s.flange)
-                fpt = np.array([[fx, fy, fz]])
+                fpt = np.array([[fx, fy, fz, 0, 0]])
                 fext_flange += fpt.dot(g_flange).ravel()
 
             fext = np.concatenate((fext, fext_base, fext_flange))
-- 
2.43.0


From d9dea01d7d8a5c2d157445529415fe70db6d950a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 22/41] fix: StiffPanelBay.uvw_* did not accept 2-D grids nor
 updated Xs and Ys

---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 3e3e8ec..9a0d5e1 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -842,10 +842,7 @@ class StiffPanelBay(object):
         a = self.a
         b = self.b
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, a, ys, b, gridx, gridy)
 
         if c.shape[0] == self.get_size():
             dofs = panelmDB.db[self.model]['dofs']
@@ -943,10 +940,7 @@ class StiffPanelBay(object):
         else:
             raise ValueError('c must be the full vector of Ritz constants')
 
-        if xs is None or ys is None:
-            xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
-        else:
-            xshape = xs.shape
+        xs, ys, xshape, yshape = self._default_field(xs, self.a, ys, bstiff, gridx, gridy)
 
         if region.lower() == 'flange':
             fuvw = panelmDB.db[s.flange.model]['field'].fuvw
-- 
2.43.0


From 680e0467513e499bd20637e391edc8e6df3407a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:10 +0000
Subject: [PATCH 23/41] fix: StiffPanelBay.uvw_stiffener failed with more than
 one stiffener

---
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 9a0d5e1..08f5c8b 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -918,13 +918,11 @@ class StiffPanelBay(object):
         row_init = dofs*self.m*self.n
 
         # getting array position
-        for i, s in enumerate(self.stiffeners):
-            if i > 0:
-                s_1 = self.stiffeners[i-1]
-                if isinstance(s, BladeStiff2D):
-                    row_init += s_1.get_size()
-            if i == si:
+        for s in self.bladestiff2ds:
+            if s is stiff:
                 break
+            if s.flange is not None:
+                row_init += s.flange.get_size()
 
         if region.lower() == 'flange':
             bstiff = stiff.flange.b
-- 
2.43.0


From 69a1f85869e72f262bb5bc3ca86a4ebb9b20f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 24/41] fix: StiffPanelBay.calc_kA covered only the first panel

It also ignored the beta and gamma of the bay and the degrees of freedom of
the flanges, giving a matrix with the size of the skin.
---
 panels/stiffpanelbay/stiffpanelbay.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 08f5c8b..e1fb182 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -719,25 +719,16 @@ class StiffPanelBay(object):
             gamma = self.gamma if self.gamma is not None else 0.
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
-        # contributions from panels
+        # contributions from panels, each integrated over its own region
         #TODO summing up coo_matrix objects may be slow!
-        #FIXME this only works if the first panel represent the full
-        #      stiffpanelbay domain (mainly integration interval, boundary
-        #      conditions)
-        p = self.panels[0]
-        #FIXME the initialization below looks terrible
-        #      we should move as quick as possible to the strategy of using
-        #      classes more to carry data, avoiding these intrincated methods
-        #      shared among classes... (calc_kC, calc_kG etc)
-        p.flow = self.flow
-        p.Mach = self.Mach
-        p.rho_air = self.rho_air
-        p.speed_sound = self.speed_sound
-        p.size = self.size
-        p.V = self.V
-        p.r = self.r
-        p.calc_kA(silent=True, finalize=False)
-        kA = p.matrices['kA']
+        size = self.get_size()
+        kA = 0.
+        for p in self.panels:
+            p.flow = self.flow
+            p.beta = beta
+            p.gamma = gamma
+            kA += p.calc_kA(size=size, row0=0, col0=0, silent=True,
+                            finalize=False)
 
         assert np.any(np.isnan(kA.data)) == False
         assert np.any(np.isinf(kA.data)) == False
-- 
2.43.0


From b22fe5a32cccd3302152af54d5dc7602b629b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 25/41] fix: StiffPanelBay.calc_cA called Shell.calc_cA with
 invalid arguments

---
 panels/stiffpanelbay/stiffpanelbay.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index e1fb182..01ad37f 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -762,18 +762,15 @@ class StiffPanelBay(object):
                 self.Mach = 1.0001
             Mach = self.Mach
             beta = self.rho_air * self.V**2 / (Mach**2 - 1)**0.5
-            gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)
             ainf = self.speed_sound
             aeromu = beta/(Mach*ainf)*(Mach**2 - 2)/(Mach**2 - 1)
         else:
-            beta = self.beta
-            gamma = self.gamma if self.gamma is not None else 0.
             aeromu = self.aeromu if self.aeromu is not None else 0.
 
         # contributions from panels
+        # the analytical integration of one panel covers the whole domain
         p = self.panels[0]
-        p.calc_cA(size=size, row0=0, col0=0, silent=silent)
-        cA = p.matrices['cA']
+        cA = p.calc_cA(aeromu, size=size, silent=silent, finalize=False)
 
         cA = finalize_symmetric_matrix(cA)
         self.cA = cA
-- 
2.43.0


From 379dd6fd2a4e3f124f3e1246c865605c03cb8d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:08 +0000
Subject: [PATCH 26/41] fix: quadrature rules with 1 or more than 64 points
 were silently zero

A rule with 1 point, used by line loads when m or n is 1, is now available;
an unsupported number of points raises ValueError instead of giving matrices
and force vectors full of zeros.
---
 panels/core/src/legendre_gauss_quadrature.cpp |  4 ++++
 panels/legendre_gauss_quadrature.pyx          |  4 ++++
 panels/shell.py                               | 10 ++++++++++
 3 files changed, 18 insertions(+)

diff --git a/panels/core/src/legendre_gauss_quadrature.cpp b/panels/core/src/legendre_gauss_quadrature.cpp
index 2fc26e2..d381895 100644
--- a/panels/core/src/legendre_gauss_quadrature.cpp
+++ b/panels/core/src/legendre_gauss_quadrature.cpp
@@ -8,6 +8,10 @@
 
 EXPORTIT void leggauss_quad(int n, double *points, double *weights) {
     switch(n) {
+    case 1:
+        points[0] = 0;
+        weights[0] = 2.;
+        return;
     case 2:
         points[0] = -0.577350269189625764509148780501957455647601751270126876;
         points[1] = 0.577350269189625764509148780501957455647601751270126876;
diff --git a/panels/legendre_gauss_quadrature.pyx b/panels/legendre_gauss_quadrature.pyx
index e46337f..c65f375 100644
--- a/panels/legendre_gauss_quadrature.pyx
+++ b/panels/legendre_gauss_quadrature.pyx
@@ -11,5 +11,9 @@ cdef extern from 'legendre_gauss_quadrature.hpp':
 def get_points_weights(int n,
                        double [::1] points,
                        double [::1] weights):
+    if n < 1 or n > 64:
+        raise ValueError('the quadrature rule must have from 1 to 64 points')
+    if points.shape[0] < n or weights.shape[0] < n:
+        raise ValueError('points and weights must have at least n values')
     leggauss_quad(n, &points[0], &weights[0])
 
diff --git a/panels/shell.py b/panels/shell.py
index 6649b49..1d894f2 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -279,6 +279,11 @@ class Shell(object):
         self.size = self.get_size()
 
 
+    def _check_integration_points(self, nx, ny):
+        if not (1 <= nx <= 64 and 1 <= ny <= 64):
+            raise ValueError('nx and ny must be from 1 to 64')
+
+
     def _is_partial_domain(self):
         # same rule used by the functions for numerical integration
         return ((self.x1 != -1 and self.x2 != -1)
@@ -449,6 +454,7 @@ class Shell(object):
         # Num integration points
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        self._check_integration_points(nx, ny)
         self.r = self.r if self.r is not None else 0.
 
         if c is None:
@@ -540,6 +546,7 @@ class Shell(object):
 
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        self._check_integration_points(nx, ny)
 
         if analytical_kG:
             kG = matrices.fkG0(self.Nxx, self.Nyy, self.Nxy, self, size, row0, col0)
@@ -594,6 +601,7 @@ class Shell(object):
         analytical_kM = True
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        self._check_integration_points(nx, ny)
 
         matrices = modelDB.db[self.model]['matrices']
         matrices_num = modelDB.db[self.model]['matrices_num']
@@ -647,6 +655,7 @@ class Shell(object):
         """
         msg('Calculating kA... ', level=2, silent=silent)
         self._rebuild()
+        self._check_integration_points(self.nx, self.ny)
 
         matrices_num = modelDB.db[self.model]['matrices_num']
 
@@ -1211,6 +1220,7 @@ class Shell(object):
         self.r = self.r if self.r is not None else 0.
         nx = self.nx if nx is None else nx
         ny = self.ny if ny is None else ny
+        self._check_integration_points(nx, ny)
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
         c = np.ascontiguousarray(c, dtype=DOUBLE)
-- 
2.43.0


From cc94fc412bfeadfdd25a3030ebbd505301006627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 27/41] fix: unchecked sizes led to out-of-bounds memory access

More terms than the 30 available in the Bardell's functions, a Ritz constants
vector shorter than needed and positions outside of the global system were
read or written outside of the allocated buffers.
---
 panels/models/clpt_bardell_field.pyx | 22 ++++++++++++++++++++++
 panels/shell.py                      | 13 +++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index b310687..0055e6a 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -47,6 +47,15 @@ def fuvw(double [::1] c, object s, double [::1] xs, double [::1] ys,
     y1v = s.y1v; y1vr = s.y1vr; y2v = s.y2v; y2vr = s.y2vr
     y1w = s.y1w; y1wr = s.y1wr; y2w = s.y2w ; y2wr = s.y2wr
 
+    if m < 1 or m > NMAX or n < 1 or n > NMAX:
+        raise ValueError('m and n must be from 1 to 30')
+    if c.shape[0] < DOF*m*n:
+        raise ValueError('c must have at least 3*m*n values')
+    if num_cores < 1:
+        raise ValueError('num_cores must be at least 1')
+    if xs.shape[0] != ys.shape[0]:
+        raise ValueError('xs and ys must have the same size')
+
     cdef int size_core, pti, i, j
     cdef double [:, ::1] us, vs, ws, phixs, phiys
     cdef double [:, ::1] xs_core, ys_core
@@ -135,6 +144,15 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     y1v = s.y1v; y1vr = s.y1vr; y2v = s.y2v; y2vr = s.y2vr
     y1w = s.y1w; y1wr = s.y1wr; y2w = s.y2w; y2wr = s.y2wr
 
+    if m < 1 or m > NMAX or n < 1 or n > NMAX:
+        raise ValueError('m and n must be from 1 to 30')
+    if c.shape[0] < DOF*m*n:
+        raise ValueError('c must have at least 3*m*n values')
+    if num_cores < 1:
+        raise ValueError('num_cores must be at least 1')
+    if xs.shape[0] != ys.shape[0]:
+        raise ValueError('xs and ys must have the same size')
+
     cdef int size_core, pti
     cdef double [:, ::1] exxs, eyys, gxys, kxxs, kyys, kxys
     cdef double [:, ::1] xs_core, ys_core
@@ -320,6 +338,10 @@ def fg(double[:, ::1] g, double x, double y, object s):
     b = s.b
     m = s.m
     n = s.n
+    if m < 1 or m > NMAX or n < 1 or n > NMAX:
+        raise ValueError('m and n must be from 1 to 30')
+    if g.shape[0] < 5 or g.shape[1] < DOF*m*n:
+        raise ValueError('g must have a shape of at least (5, 3*m*n)')
     cfg(g, m, n, x, y, a, b,
         s.x1u, s.x1ur, s.x2u, s.x2ur,
         s.x1v, s.x1vr, s.x2v, s.x2vr,
diff --git a/panels/shell.py b/panels/shell.py
index 1d894f2..0eff7c9 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -239,6 +239,9 @@ class Shell(object):
 
 
     def _rebuild(self):
+        if not (1 <= self.m <= 30 and 1 <= self.n <= 30):
+            # number of terms available in the Bardell's functions
+            raise ValueError('m and n must be from 1 to 30')
         self.nx = max(self.nx, self.m)
         self.ny = max(self.ny, self.n)
         if self.model is None:
@@ -284,6 +287,12 @@ class Shell(object):
             raise ValueError('nx and ny must be from 1 to 64')
 
 
+    def _check_position(self, size, *pos):
+        # the matrices and vectors of this shell must fit in the assembly
+        if min(pos) < 0 or max(pos) + self.get_size() > size:
+            raise ValueError('row0 or col0 not compatible with size')
+
+
     def _is_partial_domain(self):
         # same rule used by the functions for numerical integration
         return ((self.x1 != -1 and self.x2 != -1)
@@ -425,6 +434,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        self._check_position(size, row0, col0)
         msg('Calculating kC... ', level=2, silent=silent)
 
         analytical_kC = True
@@ -525,6 +535,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        self._check_position(size, row0, col0)
         analytical_kG = True
         if c is not None:
             check_c(c, size)
@@ -1223,7 +1234,9 @@ class Shell(object):
         self._check_integration_points(nx, ny)
         ABDnxny = self.ABD if ABDnxny is None else ABDnxny
 
+        self._check_position(size, col0)
         c = np.ascontiguousarray(c, dtype=DOUBLE)
+        check_c(c, size)
         fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
 
         gc.collect()
-- 
2.43.0


From 8c0bd2db353ab82f1d9bfd63d4ba857e3038681e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 28/41] fix: closed-form kC ignored force_orthotropic_laminate

fk0 of both models used lam.ABD, which the laminate computes again every time,
and not the matrix of the shell where the anisotropic terms are removed.
---
 panels/models/cylshell_clpt_donnell_bardell.pyx | 2 +-
 panels/models/plate_clpt_donnell_bardell.pyx    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/panels/models/cylshell_clpt_donnell_bardell.pyx b/panels/models/cylshell_clpt_donnell_bardell.pyx
index 451092b..0e1e51f 100644
--- a/panels/models/cylshell_clpt_donnell_bardell.pyx
+++ b/panels/models/cylshell_clpt_donnell_bardell.pyx
@@ -75,7 +75,7 @@ def fk0(object shell, int size, int row0, int col0):
     a = shell.a
     b = shell.b
     r = shell.r
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
diff --git a/panels/models/plate_clpt_donnell_bardell.pyx b/panels/models/plate_clpt_donnell_bardell.pyx
index 4ca5284..1916b09 100644
--- a/panels/models/plate_clpt_donnell_bardell.pyx
+++ b/panels/models/plate_clpt_donnell_bardell.pyx
@@ -73,7 +73,7 @@ def fk0(object shell, int size, int row0, int col0):
         raise ValueError('a Shell object must be given as input')
     a = shell.a
     b = shell.b
-    F = shell.lam.ABD
+    F = shell.ABD
     m = shell.m
     n = shell.n
     x1u = shell.x1u; x1ur = shell.x1ur; x2u = shell.x2u; x2ur = shell.x2ur
-- 
2.43.0


From 654e11389c3d4a3e586ba951e32c2c1c6cc88bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 29/41] fix: MultiDomain.calc_fint failed adding up memoryviews

---
 panels/shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/shell.py b/panels/shell.py
index 0eff7c9..5b4b598 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -1237,7 +1237,7 @@ class Shell(object):
         self._check_position(size, col0)
         c = np.ascontiguousarray(c, dtype=DOUBLE)
         check_c(c, size)
-        fint = calc_fint(c, ABDnxny, self, size, col0, nx, ny)
+        fint = np.asarray(calc_fint(c, ABDnxny, self, size, col0, nx, ny))
 
         gc.collect()
 
-- 
2.43.0


From 486a9d6f2e3ea47eb496fdd6da950d0428a6bc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 30/41] fix: non-linear shear strain w,x w,y counted twice in
 the strain field

---
 panels/models/clpt_bardell_field.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 0055e6a..769a47e 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -524,7 +524,7 @@ cdef void cfstrain(double *c, int m, int n, double a, double b,
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + 1/r*c[col+2]*fw[i]*gw[j] + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
                 else:
                     eyy += c[col+1]*fv[i]*gveta[j]*(2/b) + NLgeom*2/(b*b)*c[col+2]*fw[i]*gweta[j]*weta
-                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*4/(a*b)*(
+                gxy += c[col+0]*fu[i]*gueta[j]*(2/b) + c[col+1]*fvxi[i]*gv[j]*(2/a) + NLgeom*2/(a*b)*(
                                         c[col+2]*fwxi[i]*gw[j]*weta +
                                         wxi*c[col+2]*fw[i]*gweta[j] )
                 kxx += -c[col+2]*fwxixi[i]*gw[j]*4/(a*a)
-- 
2.43.0


From bea6341b7ed27a63f35c5105813b34f521113901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 31/41] fix: strain field of a flat shell failed before any
 matrix was calculated

---
 panels/models/clpt_bardell_field.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/models/clpt_bardell_field.pyx b/panels/models/clpt_bardell_field.pyx
index 769a47e..78a1931 100644
--- a/panels/models/clpt_bardell_field.pyx
+++ b/panels/models/clpt_bardell_field.pyx
@@ -134,7 +134,7 @@ def fstrain(double [::1] c, object s, double [::1] xs, double [::1] ys, int
     cdef double y1w, y1wr, y2w, y2wr
     a = s.a
     b = s.b
-    r = s.r
+    r = s.r if s.r is not None else 0.
     m = s.m
     n = s.n
     x1u = s.x1u; x1ur = s.x1ur; x2u = s.x2u; x2ur = s.x2ur
-- 
2.43.0


From fac9d9d072f41cb30f0d53ee677ae7d321ca77c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 32/41] fix: SB_TSL connection failed before any panel matrix
 was calculated

---
 panels/multidomain/multidomain.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index afbdad4..a036b16 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -895,7 +895,9 @@ class MultiDomain(object):
                 tsl_type = connecti['tsl_type']
                 kt = connections.calc_kw_tsl(pA, pB, tsl_type)
                 print(kt)
-                
+                # ply thicknesses may not have been defined yet
+                pA._rebuild()
+                pB._rebuild()
                 dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.
                 kC_conn += connections.kCSB.fkCSB11(kt, dsb, pA,
                         size, row0=pA.row_start, col0=pA.col_start)
-- 
2.43.0


From 14ab56234b4179ce9968dadaf13a078d1815d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 33/41] fix: BladeStiff2D.calc_kG ignored the Ritz constants
 given for the flange

---
 panels/stiffener/bladestiff2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index f4d0c50..e3d2677 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -182,7 +182,7 @@ class BladeStiff2D(object):
             pass
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
-                    silent=True, finalize=False, NLgeom=NLgeom)
+                    silent=True, finalize=False, c=c, NLgeom=NLgeom)
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0


From 03930f62f646cc1b003d1ef65fdf8631081ee440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 34/41] fix: offset of the base of BladeStiff2D ignored the
 panels given by plyt

---
 panels/stiffener/bladestiff2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index e3d2677..195ab77 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -92,6 +92,8 @@ class BladeStiff2D(object):
             h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
             hb = sum(self.bplyts)
             self.dpb = h/2. + hb/2.
+            # the thickness of the panels can be unknown when creating the base
+            self.base.offset = -h/2.-hb/2.
             self.base.lam = laminated_plate(self.bstack, plyts=self.bplyts,
                                             laminaprops=self.blaminaprops,
                                             offset=(-h/2.-hb/2.))
-- 
2.43.0


From 3836514558df1ab9da39f5dfdd0c39a09e0543ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 35/41] fix: connectivity matrix kept although panels or
 connectivity had changed

---
 panels/multidomain/multidomain.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index a036b16..1c29b04 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -79,6 +79,7 @@ class MultiDomain(object):
         # Initialize the assmbly obj with these values
         self.conn = conn
         self.kC_conn = None
+        self._kC_conn_state = None
         self.panels = panels
         self.size = None
         self.out_num_cores = 4
@@ -760,6 +761,20 @@ class MultiDomain(object):
             res['Mxy'].append(Ns[..., 5])
         return res
 
+    def _get_conn_state(self, conn, finalize):
+        '''
+            Text with all the values that define the connectivity matrix,
+            used to know whether the matrix kept from a previous call is valid
+        '''
+        attrs = ['a', 'b', 'm', 'n', 'row_start', 'col_start', 'stack',
+                 'plyts', 'laminaprops', 'offset']
+        attrs += [edge + dof for edge in ('x1', 'x2', 'y1', 'y2')
+                  for dof in ('u', 'ur', 'v', 'vr', 'w', 'wr')]
+        panels = [[getattr(p, attr) for attr in attrs] for p in self.panels]
+        conns = [sorted(connecti.items()) for connecti in conn]
+        return repr((finalize, panels, conns))
+
+
     def get_kC_conn(self, conn=None, finalize=True):
         '''
             Calc the stiffness matrix due to the connectivities
@@ -775,7 +790,8 @@ class MultiDomain(object):
                 raise RuntimeError('No connectivity dictionary defined!')
             conn = self.conn
 
-        if keep and self.kC_conn is not None:
+        state = self._get_conn_state(conn, finalize)
+        if keep and self.kC_conn is not None and self._kC_conn_state == state:
             return self.kC_conn
 
         size = self.get_size()
@@ -914,6 +930,7 @@ class MultiDomain(object):
             kC_conn = finalize_symmetric_matrix(kC_conn)
         if keep:
             self.kC_conn = kC_conn
+            self._kC_conn_state = self._get_conn_state(conn, finalize)
         #NOTE memory cleanup
         gc.collect()
         return kC_conn
-- 
2.43.0


From 48390f4db9436537fa039b2e2aeb07b2984d40bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:28 +0000
Subject: [PATCH 36/41] fix: position of kM, kA and size of cA were not checked

---
 panels/shell.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/panels/shell.py b/panels/shell.py
index 5b4b598..c1754b5 100644
--- a/panels/shell.py
+++ b/panels/shell.py
@@ -623,6 +623,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        self._check_position(size, row0, col0)
 
         # calculate one h and rho for each integration point OR one for the
         # whole domain
@@ -674,6 +675,7 @@ class Shell(object):
             size = self.get_size()
         elif isinstance(size, str):
             size = int(size) + self.get_size()
+        self._check_position(size, row0, col0)
 
         self.r = self.r if self.r is not None else 0.
 
@@ -728,6 +730,7 @@ class Shell(object):
         self._rebuild()
         if size is None:
             size = self.get_size()
+        self._check_position(size, 0)
         matrices = modelDB.db[self.model]['matrices']
         cA = matrices.fcA(aeromu, self, size, 0, 0)
         cA = cA*(0+1j)
-- 
2.43.0


From e57d3b1e03c2c719d06d08badc4b4f841a006fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:31 +0000
Subject: [PATCH 37/41] fix: cylinder_spla passed the assembly functions in the
 wrong places of Analysis

---
 panels/multidomain/cylinder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/panels/multidomain/cylinder.py b/panels/multidomain/cylinder.py
index 2f8a4df..569dc72 100644
--- a/panels/multidomain/cylinder.py
+++ b/panels/multidomain/cylinder.py
@@ -226,8 +226,16 @@ def cylinder_spla(height, r, stack, plyt, laminaprop,
     p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)
 
     assy.conn = conns
-    analysis = Analysis(assy.calc_fext, assy.calc_kC, assy.calc_fint,
-            assy.calc_kT)
+    # NOTE calc_kT gives kC + kG for the current state
+    size = assy.get_size()
+    def calc_kC(c=None, NLgeom=False, silent=False):
+        if NLgeom:
+            return assy.calc_kT(c=c, silent=silent)
+        return assy.calc_kC(silent=silent)
+    def calc_kG(c=None, NLgeom=False, silent=False):
+        return csr_matrix((size, size))
+    analysis = Analysis(calc_fext=assy.calc_fext, calc_fint=assy.calc_fint,
+            calc_kC=calc_kC, calc_kG=calc_kG)
     analysis.NL_method = 'NR'
     analysis.modified_NR = False
     analysis.line_search = False
-- 
2.43.0


From 7e309184eac84aa714cbe12e1a236b1fc5d4b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 38/41] fix: plot_shell ignored NLgeom for strains

---
 panels/plot_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index a164724..3c0bc10 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -107,7 +107,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     if vec in displs:
         shell.uvw(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
     elif vec in strains:
-        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy)
+        shell.strain(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     elif vec in stresses:
         shell.stress(c, xs=xs, ys=ys, gridx=gridx, gridy=gridy, NLgeom=NLgeom)
     else:
-- 
2.43.0


From 41dcd5dac17ea856172d23c729f40917dd2f7ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 39/41] fix: plotting replaced the positions of the fields
 evaluated before

---
 panels/plot_shell.py                  |  4 ++++
 panels/stiffpanelbay/stiffpanelbay.py | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/panels/plot_shell.py b/panels/plot_shell.py
index 3c0bc10..264a8aa 100644
--- a/panels/plot_shell.py
+++ b/panels/plot_shell.py
@@ -99,6 +99,7 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     msg('Plotting contour...')
 
     fields_bkp = deepcopy(shell.fields)
+    plot_mesh_bkp = dict(shell.plot_mesh)
 
     msg('Computing field variables...', level=1)
     displs = ['u', 'v', 'w', 'phix', 'phiy']
@@ -210,6 +211,9 @@ def plot_shell(shell, c, invert_y=False, vec='w', deform_u=False,
     for k, v in fields_bkp.items():
         if v is not None:
             shell.fields[k] = v
+    for k, v in plot_mesh_bkp.items():
+        if v is not None:
+            shell.plot_mesh[k] = v
 
     msg('finished!')
 
diff --git a/panels/stiffpanelbay/stiffpanelbay.py b/panels/stiffpanelbay/stiffpanelbay.py
index 01ad37f..b8779de 100644
--- a/panels/stiffpanelbay/stiffpanelbay.py
+++ b/panels/stiffpanelbay/stiffpanelbay.py
@@ -1047,6 +1047,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib
         import matplotlib.pyplot as plt
@@ -1157,6 +1158,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
@@ -1269,6 +1274,7 @@ class StiffPanelBay(object):
 
         ubkp, vbkp, wbkp, phixbkp, phiybkp = (self.u, self.v, self.w,
                                               self.phix, self.phiy)
+        Xsbkp, Ysbkp = self.Xs, self.Ys
 
         import matplotlib.pyplot as plt
         import matplotlib
@@ -1381,6 +1387,10 @@ class StiffPanelBay(object):
             self.phix = phixbkp
         if phiybkp is not None:
             self.phiy = phiybkp
+        if Xsbkp is not None:
+            self.Xs = Xsbkp
+        if Ysbkp is not None:
+            self.Ys = Ysbkp
 
         msg('finished!', silent=silent)
 
-- 
2.43.0


From ed49bc591f08e46e8fd4922db324906c33394c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 40/41] fix: MultiDomain.plot ignored xs and ys

---
 panels/multidomain/multidomain.py | 38 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/panels/multidomain/multidomain.py b/panels/multidomain/multidomain.py
index 1c29b04..9a74a7f 100644
--- a/panels/multidomain/multidomain.py
+++ b/panels/multidomain/multidomain.py
@@ -15,15 +15,18 @@ import panels.modelDB as modelDB
 from . import connections
 
 
-def default_field(panel, gridx, gridy):
-    xs = linspace(0, panel.a, gridx)
-    ys = linspace(0, panel.b, gridy)
-    xs, ys = np.meshgrid(xs, ys, copy=False)
+def default_field(panel, gridx, gridy, xs=None, ys=None):
+    if xs is None or ys is None:
+        xs = linspace(0, panel.a, gridx)
+        ys = linspace(0, panel.b, gridy)
+        xs, ys = np.meshgrid(xs, ys, copy=False)
         # Now xs and ys have the x and y coord of all the grid points i.e. size = no_grid_x * no_grid_y
     # Scalar inputs are converted to 1D arrays, whilst higher-dimensional inputs are preserved
     xs = np.atleast_1d(np.array(xs, dtype=DOUBLE))
     ys = np.atleast_1d(np.array(ys, dtype=DOUBLE))
     shape = xs.shape
+    if shape != ys.shape:
+        raise ValueError('Arrays xs and ys must have the same shape')
     xs = xs.ravel()
     ys = ys.ravel()
     return xs, ys, shape
@@ -225,11 +228,11 @@ class MultiDomain(object):
         # Using fixed grid to post process the results
         if use_gauss_points == False:
             if vec in displs:
-                res = self.uvw(c, group, gridx=gridx, gridy=gridy)
+                res = self.uvw(c, group, gridx=gridx, gridy=gridy, xs=xs, ys=ys)
             elif vec in strains:
-                res = self.strain(c, group, gridx=gridx, gridy=gridy)
+                res = self.strain(c, group, gridx=gridx, gridy=gridy, xs=xs, ys=ys)
             elif vec in stresses:
-                res = self.stress(c, group, gridx=gridx, gridy=gridy)
+                res = self.stress(c, group, gridx=gridx, gridy=gridy, xs=xs, ys=ys)
             else:
                 raise ValueError(
                         '{0} is not a valid vec parameter value!'.format(vec))
@@ -349,7 +352,7 @@ class MultiDomain(object):
         return ax, data
 
 
-    def uvw(self, c, group, gridx=50, gridy=50):
+    def uvw(self, c, group, gridx=50, gridy=50, xs=None, ys=None):
         r"""Calculate the displacement field
 
         For a given full set of Ritz constants ``c``, the displacement
@@ -370,6 +373,9 @@ class MultiDomain(object):
         gridy : int, optional
             Number of points along the `y` where to calculate the
             displacement field.
+        xs, ys : np.ndarray, optional
+            The positions where to calculate the displacement field, for each
+            panel. By default the grid given by ``gridx`` and ``gridy`` is used.
 
         Returns
         -------
@@ -391,7 +397,7 @@ class MultiDomain(object):
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
             fuvw = modelDB.db[model]['field'].fuvw
-            x, y, shape = default_field(panel, gridx, gridy)
+            x, y, shape = default_field(panel, gridx, gridy, xs=xs, ys=ys)
             x = np.ascontiguousarray(x)
             y = np.ascontiguousarray(y)
             u, v, w, phix, phiy = fuvw(c_panel, panel, x, y, self.out_num_cores)
@@ -406,7 +412,7 @@ class MultiDomain(object):
         return res
 
 
-    def strain(self, c, group, gridx=50, gridy=50, NLterms=True):
+    def strain(self, c, group, gridx=50, gridy=50, NLterms=True, xs=None, ys=None):
         r"""Calculate the strain field
         Strains and curvatures at each point ???? all x and y or just diagonal terms ????
 
@@ -424,6 +430,9 @@ class MultiDomain(object):
         gridy : int, optional
             Number of points along the `y` where to calculate the
             displacement field.
+        xs, ys : np.ndarray, optional
+            The positions where to calculate the displacement field, for each
+            panel. By default the grid given by ``gridx`` and ``gridy`` is used.
         NLterms : bool
             Flag to indicate whether non-linear strain components should be considered.
 
@@ -450,7 +459,7 @@ class MultiDomain(object):
             # Here x and y are the complete unravelled grid in the x and y coord resp
             # So both have the size = gridx*gridy
             # x and y now have the x and y coord of all the grid points i.e. size = no_grid_x * no_grid_y
-            x, y, shape = default_field(panel, gridx, gridy)
+            x, y, shape = default_field(panel, gridx, gridy, xs=xs, ys=ys)
             x = np.ascontiguousarray(x)
             y = np.ascontiguousarray(y)
             
@@ -468,7 +477,7 @@ class MultiDomain(object):
         return res
 
 
-    def stress(self, c, group, gridx=50, gridy=50, NLterms=True):
+    def stress(self, c, group, gridx=50, gridy=50, NLterms=True, xs=None, ys=None):
         r"""Calculate the stress field
 
         Parameters
@@ -485,6 +494,9 @@ class MultiDomain(object):
         gridy : int, optional
             Number of points along the `y` where to calculate the
             displacement field.
+        xs, ys : np.ndarray, optional
+            The positions where to calculate the displacement field, for each
+            panel. By default the grid given by ``gridx`` and ``gridy`` is used.
         NLterms : bool
             Flag to indicate whether non-linear strain components should be considered.
 
@@ -503,7 +515,7 @@ class MultiDomain(object):
             c_panel = np.ascontiguousarray(c_panel, dtype=DOUBLE)
             model = panel.model
             fstrain = modelDB.db[model]['field'].fstrain
-            x, y, shape = default_field(panel, gridx, gridy)
+            x, y, shape = default_field(panel, gridx, gridy, xs=xs, ys=ys)
             x = np.ascontiguousarray(x)
             y = np.ascontiguousarray(y)
             exx, eyy, gxy, kxx, kyy, kxy = fstrain(c_panel, panel, x, y,
-- 
2.43.0


From 4876acace3dabc612c181736f69354978568e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:59 +0000
Subject: [PATCH 41/41] fix: calc_kG of a blade stiffener without a flange
 failed when it was called on its own

---
 panels/stiffener/bladestiff1d.py | 4 ++++
 panels/stiffener/bladestiff2d.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/panels/stiffener/bladestiff1d.py b/panels/stiffener/bladestiff1d.py
index 67d6ba5..9564a60 100644
--- a/panels/stiffener/bladestiff1d.py
+++ b/panels/stiffener/bladestiff1d.py
@@ -1,6 +1,7 @@
 import gc
 
 from composites import laminated_plate
+from scipy.sparse import csr_matrix
 from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels import Shell
@@ -174,6 +175,9 @@ class BladeStiff1D(object):
                              bay.x1w, bay.x1wr, bay.x2w, bay.x2wr,
                              bay.y1w, bay.y1wr, bay.y2w, bay.y2wr,
                              size, row0, col0)
+        else:
+            size = size if size is not None else self.base.get_size()
+            kG = csr_matrix((size, size))
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
diff --git a/panels/stiffener/bladestiff2d.py b/panels/stiffener/bladestiff2d.py
index 195ab77..909c1b2 100644
--- a/panels/stiffener/bladestiff2d.py
+++ b/panels/stiffener/bladestiff2d.py
@@ -1,6 +1,7 @@
 import gc
 
 from composites import laminated_plate
+from scipy.sparse import csr_matrix
 from structsolve.sparseutils import finalize_symmetric_matrix
 
 from panels import Shell
@@ -185,6 +186,9 @@ class BladeStiff2D(object):
         if self.flange is not None:
             kG += self.flange.calc_kG(size=size, row0=row0, col0=col0,
                     silent=True, finalize=False, c=c, NLgeom=NLgeom)
+        else:
+            size = size if size is not None else self.base.get_size()
+            kG = csr_matrix((size, size))
 
         if finalize:
             kG = finalize_symmetric_matrix(kG)
-- 
2.43.0

