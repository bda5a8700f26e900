From deddc5ad8fd85607c8fad50df1aeb0339250d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 01/37] fix: rotate_polar returns the rotated input angles

---
 magpie/coords/polar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index 49a0222..e23bffc 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -18,11 +18,11 @@ def rotate_polar(phi, rotate):
     """
     assert rotate > 0. and rotate < 2.*np.pi, \
         "Rotation angles must have lie between [0, 2pi]."
-    rot_phi = rotate
-    cond = np.where(rot_phi >= 2.*np.pi)[0]
-    rot_phi[cond] -= 2.*np.pi
-    cond = np.where(rot_phi < 0.)[0]
-    rot_phi[cond] += 2.*np.pi
+    rot_phi = phi + rotate
+    rot_phi = np.where(rot_phi >= 2.*np.pi, rot_phi - 2.*np.pi, rot_phi)
+    rot_phi = np.where(rot_phi < 0., rot_phi + 2.*np.pi, rot_phi)
+    if np.isscalar(phi) is True:
+        rot_phi = float(rot_phi)
     return rot_phi
 
 
-- 
2.43.0


From 440809b91534c83998ef3fc9d058193d0e87317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 02/37] fix: rotate_polar_grid interpolates between the right
 cells without changing its input

---
 magpie/coords/__init__.py |  1 +
 magpie/coords/polar.py    | 10 +++++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/__init__.py b/magpie/coords/__init__.py
index f2365eb..93fc355 100644
--- a/magpie/coords/__init__.py
+++ b/magpie/coords/__init__.py
@@ -13,6 +13,7 @@ from .usphere_util import sphere2lonlat
 from .usphere_util import lonlat2sphere
 
 from .polar import rotate_polar
+from .polar import rotate_polar_grid
 
 from .usphere import usphere_rotate
 from .usphere import usphere_phi_shift
diff --git a/magpie/coords/polar.py b/magpie/coords/polar.py
index e23bffc..b6990a5 100644
--- a/magpie/coords/polar.py
+++ b/magpie/coords/polar.py
@@ -54,11 +54,11 @@ def rotate_polar_grid(pedges, f_polar, phi_shift):
         f_polar_rot[-ind_shift:] = f_polar[:ind_shift]
         f_polar_rot[:-ind_shift] = f_polar[ind_shift:]
     else:
-        f_polar_rot = f_polar
-    f_polar_rot[:-1] = w_shift*f_polar_rot[:-1] + (1.-w_shift)*f_polar_rot[1:]
+        f_polar_rot[:] = f_polar
+    f_polar_next = np.zeros(np.shape(f_polar))
+    f_polar_next[:-1] = f_polar_rot[1:]
     # check if polar grid has the range 0 to 2pi, if it does wrap the rotation
     if pedges[-1] - pedges[0] == 2.*np.pi:
-        f_polar_rot[-1] = w_shift*f_polar_rot[-1] + (1.-w_shift)*f_polar_rot[0]
-    else:
-        f_polar_rot[-1] *= w_shift
+        f_polar_next[-1] = f_polar_rot[0]
+    f_polar_rot = (1.-w_shift)*f_polar_rot + w_shift*f_polar_next
     return f_polar_rot
-- 
2.43.0


From a434629c672315f64e5509abc1c51d82fdaa8cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 03/37] fix: usphere_phi_shift no longer shifts the caller's
 array in place

---
 magpie/coords/usphere.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 290f7d9..31c9b02 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,13 +100,11 @@ def usphere_phi_shift(phi, dphi):
     assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    # phi_new = np.copy(phi)
-    phi_new = phi
-    phi_new += dphi
+    phi_new = phi + dphi
     if np.isscalar(phi_new) is False:
-        condition = np.where(phi_new > 2.*np.pi)[0]
+        condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-        condition = np.where(phi_new < 0.)[0]
+        condition = np.where(phi_new < 0.)
         phi_new[condition] += 2.*np.pi
     # scalar case
     else:
-- 
2.43.0


From 047ee09b2313ee5b44f78284580fd54504d18e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:10 +0000
Subject: [PATCH 04/37] fix: cart2sphere accepts arrays of any dimension

---
 magpie/coords/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/coords/conversions.py b/magpie/coords/conversions.py
index 3401676..15ad38d 100644
--- a/magpie/coords/conversions.py
+++ b/magpie/coords/conversions.py
@@ -88,8 +88,8 @@ def cart2sphere(x, y, z, center=[0., 0., 0.]):
     else:
         condition = np.where(phi < 0.)
         phi[condition] += 2.*np.pi
-        theta = np.zeros(len(phi))
-        condition = np.where(r != 0.)[0]
+        theta = np.zeros(np.shape(phi))
+        condition = np.where(r != 0.)
         theta[condition] = np.arccos((z[condition]-center[2])/r[condition])
     return r, phi, theta
 
-- 
2.43.0


From 1b6af4ef687303ab71501f4594dcb9d237f3a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 05/37] fix: rebin_1d_single_bin_weights assigns the weights to
 the bins they belong to

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 414f87d..ea6166a 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -27,13 +27,13 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
     elif len(condition) == 1:
         # To ensure we are not looking at the edges
         if condition[0] > 0 and condition[0] < len(bin_edges)-1:
-            weights[condition[0]] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
-            weights[condition[0]+1] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
+            weights[condition[0]-1] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            weights[condition[0]] = (bin_max - bin_edges[condition[0]])/(bin_edges[condition[0]+1] - bin_edges[condition[0]])
         # To deal with edges
         elif condition[0] == 0:
             weights[condition[0]] = 1.
         elif condition[0] == len(bin_edges)-1:
-            weights[condition[0]] = 1.
+            weights[condition[0]-1] = 1.
     else:
         # General case
         # Create weights equal to one
-- 
2.43.0


From ae86fa2bc7c12365aec051a4c42932677706b559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 06/37] fix: rebinning to a bin that covers every old bin
 counts each of them once

---
 magpie/one_d/one_d.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index ea6166a..c42cd03 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -42,7 +42,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -96,7 +96,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         if condition[0] != 0:
@@ -172,7 +172,7 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
         if condition[-1] == len(bin_edges)-1:
             w = w[:-1]
             index = index[:-1]
-        elif condition[0] == 0:
+        if condition[0] == 0:
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-- 
2.43.0


From 3efdbc78a485fdccf9580c313cfec0a8177ec3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 07/37] fix: the last bin's rebinning weight is the fraction of
 that bin, not of the one before

---
 magpie/one_d/one_d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index c42cd03..98f084d 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -50,7 +50,7 @@ def rebin_1d_single_bin_weights(bin_edges, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         weights[index] = w
     return weights
 
@@ -104,7 +104,7 @@ def _rebin_1d_single_bin(bin_edges, data, bin_min, bin_max):
             w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
         if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]] - bin_edges[condition[-1]-1])
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
         return np.sum(w*data[index])/np.sum(w)
 
 
-- 
2.43.0


From bc7f241e2661fdadc6ff0ac16d81b09c3c512253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 08/37] fix: rebinned errors use the covered part of the bins
 the new bin intersects

---
 magpie/one_d/one_d.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index 98f084d..f8a7415 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -176,14 +176,14 @@ def _rebin_1d_single_bin_sigma(bin_edges, sigma, bin_min, bin_max):
             w = w[1:]
             index = index[1:]
         length = lengths[index]
-        if index[0] != 0:
+        if condition[0] != 0:
             # Alter first weight to account for the fact that the new bin intersects the first bin.
-            w[0] = (bin_edges[index[0]] - bin_min)/(bin_edges[index[0]] - bin_edges[index[0]-1])
-            length[0] = bin_edges[index[0]] - bin_min
-        if index[-1] != len(bin_edges)-1:
+            w[0] = (bin_edges[condition[0]] - bin_min)/(bin_edges[condition[0]] - bin_edges[condition[0]-1])
+            length[0] = bin_edges[condition[0]] - bin_min
+        if condition[-1] != len(bin_edges)-1:
             # Alter last weight to account for the fact that the new bin intesrsects the last bin.
-            w[-1] = (bin_max - bin_edges[index[-1]])/(bin_edges[index[-1]] - bin_edges[index[-1]-1])
-            length[-1] = bin_max - bin_edges[index[-1]]
+            w[-1] = (bin_max - bin_edges[condition[-1]])/(bin_edges[condition[-1]+1] - bin_edges[condition[-1]])
+            length[-1] = bin_max - bin_edges[condition[-1]]
         condition2 = np.where(length > 0.)[0]
         index = index[condition2]
         w = w[condition2]
-- 
2.43.0


From 1455b346ea5787b979813718eba5e6ea181efc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 09/37] fix: weighted rebinned errors are divided by the
 weights, so equal weights change nothing

---
 magpie/one_d/one_d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/one_d/one_d.py b/magpie/one_d/one_d.py
index f8a7415..e6c7c78 100644
--- a/magpie/one_d/one_d.py
+++ b/magpie/one_d/one_d.py
@@ -230,7 +230,7 @@ def rebin_1d(bin_edges, data, new_bin_edges, w=None, sigma=None):
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
         else:
             sigma_new = np.array([_rebin_1d_single_bin_sigma(bin_edges, sigma*w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
-            sigma_new /= np.array([_rebin_1d_single_bin_sigma(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
+            sigma_new /= np.array([_rebin_1d_single_bin(bin_edges, w, new_bin_edges[i], new_bin_edges[i+1]) for i in range(0, len(new_bin_edges)-1)])
     # Return rebinned data
     if sigma is None:
         return data_new
-- 
2.43.0


From 744bdd377b30270d1ba7ae13faf656787ee63944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 10/37] fix: randoms_1d returns the randoms it drew

---
 magpie/randoms/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 93ccb5c..58a025a 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -19,7 +19,7 @@ def randoms_1d(size, xmin=0., xmax=1.):
         Uniform randoms in 1D.
     """
     xrands = (xmax - xmin)*np.random.random_sample(size) + xmin
-    return xrand
+    return xrands
 
 
 def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
-- 
2.43.0


From 7b8bdee538e31482f542ac5fa435af6338ed2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 11/37] fix: randoms_2d and randoms_3d use the upper limit of
 the x axis

---
 magpie/randoms/cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/randoms/cart.py b/magpie/randoms/cart.py
index 58a025a..386b28c 100644
--- a/magpie/randoms/cart.py
+++ b/magpie/randoms/cart.py
@@ -39,7 +39,7 @@ def randoms_2d(size, mins=[0., 0.], maxs=[1., 1.]):
     xrands, yrands : array
         Uniform randoms in 2D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     return xrands, yrands
 
@@ -61,7 +61,7 @@ def randoms_3d(size, mins=[0., 0., 0], maxs=[1., 1., 1.]):
     xrands, yrands, zrands : array
         Uniform randoms in 3D.
     """
-    xrands = randoms_1d(size, xmin=mins[0], xmax=mins[0])
+    xrands = randoms_1d(size, xmin=mins[0], xmax=maxs[0])
     yrands = randoms_1d(size, xmin=mins[1], xmax=maxs[1])
     zrands = randoms_1d(size, xmin=mins[2], xmax=maxs[2])
     return xrands, yrands, zrands
-- 
2.43.0


From bc14a9f9ac0e5e91be2e8d02bea0ff59b88b3391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:35 +0000
Subject: [PATCH 12/37] fix: remap weights are set when the new cell lies in
 the cell just before the grid

---
 magpie/src/remap_utils.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/src/remap_utils.f90 b/magpie/src/remap_utils.f90
index 69e6be8..809627a 100644
--- a/magpie/src/remap_utils.f90
+++ b/magpie/src/remap_utils.f90
@@ -263,7 +263,7 @@ subroutine remap_1d_grid2grid_pixel(x1min, x1max, grid1, x2min, x2max, grid2, wh
       end if
 
     end do
-  else if (pix1 .NE. -1) then
+  else
     do i = 1, pixlen
       pix(i) = pix1 + i-1
       if ((pix(i) .GE. 0) .AND. (pix(i) .LT. grid1)) then
-- 
2.43.0


From 1317a8b8e22efe87ac448efba68c9fc9a0c45bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 13/37] fix: grid2grid1D defaults to the size of the input box

---
 magpie/remap/grid2grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 4a92cb9..1d2b8a2 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -28,6 +28,8 @@ def grid2grid1D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     x1min = origin
     x1max = origin + boxsize
     x2min = originout
+    if boxsizeout is None:
+        boxsizeout = boxsize
     x2max = originout + boxsizeout
     f1shape = np.shape(f1)
     grid1 = f1shape[0]
-- 
2.43.0


From a20f7b4df818116caf92137d1a02ea55451f01fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:38 +0000
Subject: [PATCH 14/37] fix: grid2grid3D accepts one output division per axis

---
 magpie/remap/grid2grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/remap/grid2grid.py b/magpie/remap/grid2grid.py
index 1d2b8a2..c03d0b2 100644
--- a/magpie/remap/grid2grid.py
+++ b/magpie/remap/grid2grid.py
@@ -173,7 +173,7 @@ def grid2grid3D(f1, boxsize, ngridout, origin=0., originout=0., boxsizeout=None)
     if np.isscalar(ngridout) is True:
         x2grid, y2grid, z2grid = ngridout, ngridout, ngridout
     else:
-        x2grid, y2grid = ngridout[0], ngridout[1], ngridout[2]
+        x2grid, y2grid, z2grid = ngridout[0], ngridout[1], ngridout[2]
     xpixlen = src.get_remap_pix_len(x1min=x1min, x1max=x1max, grid1=x1grid, x2min=x2min, x2max=x2max, grid2=x2grid)
     ypixlen = src.get_remap_pix_len(x1min=y1min, x1max=y1max, grid1=y1grid, x2min=y2min, x2max=y2max, grid2=y2grid)
     zpixlen = src.get_remap_pix_len(x1min=z1min, x1max=z1max, grid1=z1grid, x2min=z2min, x2max=z2max, grid2=z2grid)
-- 
2.43.0


From fd16edb5e5fb90e2c48d9bcee0dd3baec81b6cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 15/37] fix: cell areas on the sphere come from
 coords.usphere_area

---
 magpie/densegrid/heal2polar.py | 2 +-
 magpie/densegrid/heal2ring.py  | 4 ++--
 magpie/montecarlo/heal2ring.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index d0ba898..524e313 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -136,7 +136,7 @@ class Heal2Polar:
         f_box_highres = np.zeros(np.shape(self.rebin_x2d))
         f_box_highres[self.rebin_xind, self.rebin_yind] = f[self.rebin_pix]
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
-        area = np.array([coords.sky_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
+        area = np.array([coords.usphere_area(0., dx, self.rebin_yedges[i]+np.pi/2., self.rebin_yedges[i+1]+np.pi/2.) for i in range(0, len(self.rebin_yedges)-1)])
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 93b94aa..e9d674f 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -135,7 +135,7 @@ class Heal2Ring:
         f_polar_highres = np.zeros(np.shape(self.rebin_alpha2d))
         f_polar_highres[self.rebin_alpha_ind, self.rebin_beta_ind] = f[self.rebin_pix]
         dbeta = self.rebin_beta_edges[1] - self.rebin_beta_edges[0]
-        area = np.array([coords.sky_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
+        area = np.array([coords.usphere_area(0., dbeta, self.rebin_alpha_edges[i], self.rebin_alpha_edges[i+1]) for i in range(0, len(self.rebin_alpha_edges)-1)])
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
@@ -216,7 +216,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 3d9414f..f933d9c 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -210,7 +210,7 @@ class Heal2Ring:
         """
         if self.area2d is None:
             dbeta = self.beta_edges[1] - self.beta_edges[0]
-            area = np.array([coords.sky_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
+            area = np.array([coords.usphere_area(0., dbeta, self.alpha_edges[i], self.alpha_edges[i+1]) for i in range(0, len(self.alpha_edges)-1)])
             self.area2d = np.array([area for i in range(0, len(self.beta_edges)-1)])
         if self.pixarea is None:
             self.pixarea = hp.nside2pixarea(self.nside)
-- 
2.43.0


From 2552ed9e6e7978055ee1b3c9926d4b657ed78c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 16/37] fix: Monte Carlo sphere points come from
 randoms.randoms_usphere

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 65d118d..8759a75 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -111,7 +111,7 @@ class Heal2Polar:
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
                 y_min = np.pi/2. - y_min
                 y_max = np.pi/2. - y_max
-                x_rand, y_rand = randoms.randoms_sky(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
+                x_rand, y_rand = randoms.randoms_usphere(mc_size, phi_min=x_min, phi_max=x_max, theta_min=y_min, theta_max=y_max)
                 if self.alpha != 0.:
                     x_rand, y_rand = coords.usphere_spin(x_rand, y_rand, 0., np.pi/2., self.alpha)
                 x_rand, y_rand = coords.usphere_shift(x_rand, y_rand, 0., np.pi/2., self.center[0], self.center[1])
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index f933d9c..9b53eaa 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -107,7 +107,7 @@ class Heal2Ring:
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
-                beta_rand, alpha_rand = randoms.randoms_sky(mc_size, phi_min=beta_min, phi_max=beta_max,
+                beta_rand, alpha_rand = randoms.randoms_usphere(mc_size, phi_min=beta_min, phi_max=beta_max,
                                                             theta_min=alpha_min, theta_max=alpha_max)
                 if self.beta_shift != 0.:
                     beta_rand, alpha_rand = coords.usphere_spin(beta_rand, alpha_rand, 0., 0., self.beta_shift)
-- 
2.43.0


From 099ac1e4248c1976d03f059a269ac96015c36e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:53 +0000
Subject: [PATCH 17/37] fix: the rotate_polar methods rotate the grid with
 coords.rotate_polar_grid

---
 magpie/densegrid/box2ring.py   | 2 +-
 magpie/densegrid/heal2ring.py  | 2 +-
 magpie/montecarlo/box2ring.py  | 2 +-
 magpie/montecarlo/heal2ring.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2c7c427..2b94cf7 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -229,7 +229,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index e9d674f..37ed844 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -188,7 +188,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index aceb8ab..6461550 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -321,7 +321,7 @@ class Box2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.pedges, f_polar, phi_shift)
+        return coords.rotate_polar_grid(self.pedges, f_polar, phi_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 9b53eaa..5edc1da 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -182,7 +182,7 @@ class Heal2Ring:
             Rotated polar coordinate data.
         """
         assert np.shape(f_polar) == np.shape(self.beta2d), "Shape of f_polar does not match stored polar coordinate grid."
-        return coords.rotate_polar(self.beta_edges, f_polar, beta_shift)
+        return coords.rotate_polar_grid(self.beta_edges, f_polar, beta_shift)
 
 
     def polar2radial(self, f_polar, sigma=None, w=None, verbose=False):
-- 
2.43.0


From 6d94839cc2071fb3938ca49cf2bf3835e4ca8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 18/37] fix: PointOfView.reverse undoes the spin instead of
 failing on a negative angle

---
 magpie/densegrid/pointofview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/pointofview.py b/magpie/densegrid/pointofview.py
index e43db72..e2ebb78 100644
--- a/magpie/densegrid/pointofview.py
+++ b/magpie/densegrid/pointofview.py
@@ -103,7 +103,7 @@ class PointOfView:
         dz = by / f
         r, phi, theta = coords.cart2sphere(dx, dy, dz)
         if self.spin != 0.:
-            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., -self.spin)
+            phi, theta = coords.usphere_spin(phi, theta, 0., np.pi/2., 2.*np.pi - self.spin)
         phi = coords.usphere_phi_shift(phi, self.phi_point_towards)
         if self.theta_point_towards != np.pi/2.:
             phi, theta = coords.usphere_rotate(phi, theta, self.phi_point_towards, self.theta_point_towards, phi_start=self.phi_point_towards, theta_start=np.pi/2.)
-- 
2.43.0


From 1f10316c2570ed94d2d5a7b0992eeb8ea945f6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 19/37] fix: sub-cells are averaged along the axis they divide
 when the two rebin factors differ

---
 magpie/densegrid/box2ring.py   | 8 ++++----
 magpie/densegrid/heal2ortho.py | 8 ++++----
 magpie/densegrid/heal2polar.py | 8 ++++----
 magpie/densegrid/heal2ring.py  | 8 ++++----
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 2b94cf7..64ab32b 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -160,10 +160,10 @@ class Box2Ring:
         rbin_weights = self.rebin_redges[1:]**2 - self.rebin_redges[:-1]**2
         rbin_weights_2d, _ = np.meshgrid(rbin_weights, self.rebin_pmid)
         f_polar_highres *= rbin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
-        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_r, len(self.rebin_p2d[0])), axis=1)
-        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_p), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
+        rbin_weights_2d = np.sum(rbin_weights_2d.reshape(len(self.r2d), self.rebin_p, len(self.rebin_p2d[0])), axis=1)
+        rbin_weights_2d = np.mean(rbin_weights_2d.reshape(len(self.r2d), len(self.r2d[0]), self.rebin_r), axis=2)
         f_polar /= rbin_weights_2d
         return f_polar
 
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index f8b2785..711d7f8 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -144,10 +144,10 @@ class Heal2Ortho:
         dx = self.rebin_xedges[1] - self.rebin_xedges[0]
         weights = self.rebin_onsphere
         f_box_highres *= weights
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
         f_box[condition] /= weights_2d[condition]
         f_box *= self.onsphere
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index 524e313..b8c4bd6 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -140,10 +140,10 @@ class Heal2Polar:
         y_bin_weights = area
         _, y_bin_weights_2d = np.meshgrid(self.rebin_xmid, y_bin_weights)
         f_box_highres *= y_bin_weights_2d
-        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_x, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
-        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_x, len(self.rebin_y2d[0])), axis=1)
-        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_y), axis=2)
+        f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        y_bin_weights_2d = np.sum(y_bin_weights_2d.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
+        y_bin_weights_2d = np.mean(y_bin_weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         f_box /= y_bin_weights_2d
         return f_box
 
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index 37ed844..ab415f7 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -139,10 +139,10 @@ class Heal2Ring:
         alpha_bin_weights = area
         alpha_bin_weights_2d, _ = np.meshgrid(alpha_bin_weights, self.rebin_beta_mid)
         f_polar_highres *= alpha_bin_weights_2d
-        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
-        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_alpha, len(self.rebin_beta2d[0])), axis=1)
-        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_beta), axis=2)
+        f_polar = np.sum(f_polar_highres.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        f_polar = np.mean(f_polar.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
+        alpha_bin_weights_2d = np.sum(alpha_bin_weights_2d.reshape(len(self.alpha2d), self.rebin_beta, len(self.rebin_beta2d[0])), axis=1)
+        alpha_bin_weights_2d = np.mean(alpha_bin_weights_2d.reshape(len(self.alpha2d), len(self.alpha2d[0]), self.rebin_alpha), axis=2)
         f_polar /= alpha_bin_weights_2d
         return f_polar
 
-- 
2.43.0


From 6075b248ffa1e7331a1ddcdb554c9573384f0c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 20/37] fix: Heal2Ortho averages the values and their weights
 alike

---
 magpie/densegrid/heal2ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 711d7f8..31c8de0 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -145,7 +145,7 @@ class Heal2Ortho:
         weights = self.rebin_onsphere
         f_box_highres *= weights
         f_box = np.sum(f_box_highres.reshape(len(self.x2d), self.rebin_y, len(self.rebin_x2d[0])), axis=1)
-        f_box = np.sum(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
+        f_box = np.mean(f_box.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         weights_2d = np.sum(weights.reshape(len(self.x2d), self.rebin_y, len(self.rebin_y2d[0])), axis=1)
         weights_2d = np.mean(weights_2d.reshape(len(self.x2d), len(self.x2d[0]), self.rebin_x), axis=2)
         condition = np.where(weights_2d != 0.)
-- 
2.43.0


From 2e7410f1a56b05e03422e8d11b982ac21e7b2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:10 +0000
Subject: [PATCH 21/37] fix: Cube2Shell reads the cube in the axis order of its
 x3d, y3d and z3d grids

---
 magpie/densegrid/cube2shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 3401320..e3c7918 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -151,7 +151,7 @@ class Cube2Shell:
                 yind = np.floor(yind).astype(int)
                 zind = np.floor(zind).astype(int)
                 condition = np.where((xind >= 0) & (xind < len(self.xmid)) & (yind >= 0) & (yind < len(self.ymid)) & (zind >= 0) & (zind < len(self.zmid)))[0]
-                f_shell_highres[pix[condition]] = f[xind[condition], yind[condition], zind[condition]]
+                f_shell_highres[pix[condition]] = f[yind[condition], xind[condition], zind[condition]]
             f_sphere[i] = hp.ud_grade(f_shell_highres, self.nside)
             if verbose == True:
                 utils.progress_bar(i, len(self.rebin_rmid), explanation='Remapping')
-- 
2.43.0


From 19fcf9c657991b1b644f211fe34ec4a10c65fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:29 +0000
Subject: [PATCH 22/37] fix: grids with a single bin are accepted

---
 magpie/densegrid/box2ring.py    | 4 ++--
 magpie/densegrid/cube2shell.py  | 2 +-
 magpie/densegrid/heal2ortho.py  | 4 ++--
 magpie/densegrid/heal2polar.py  | 4 ++--
 magpie/densegrid/heal2ring.py   | 4 ++--
 magpie/montecarlo/box2ring.py   | 6 +++---
 magpie/montecarlo/cube2shell.py | 2 +-
 magpie/montecarlo/heal2polar.py | 4 ++--
 magpie/montecarlo/heal2ring.py  | 4 ++--
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 64ab32b..6a4133c 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -113,8 +113,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index e3c7918..9a003b9 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -101,7 +101,7 @@ class Cube2Shell:
         assert rebin_r >= 1, "rebin_r must be greater or equal to 1."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
         self.rebin_shell = rebin_shell
diff --git a/magpie/densegrid/heal2ortho.py b/magpie/densegrid/heal2ortho.py
index 31c8de0..5a9a77e 100644
--- a/magpie/densegrid/heal2ortho.py
+++ b/magpie/densegrid/heal2ortho.py
@@ -89,8 +89,8 @@ class Heal2Ortho:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.radius = radius
         self.z2d = coords.ortho2cart(self.x2d, self.y2d, r=self.radius, fill_value=np.nan)
diff --git a/magpie/densegrid/heal2polar.py b/magpie/densegrid/heal2polar.py
index b8c4bd6..2a5ff2b 100644
--- a/magpie/densegrid/heal2polar.py
+++ b/magpie/densegrid/heal2polar.py
@@ -94,8 +94,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index ab415f7..d2c8161 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -94,8 +94,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index 6461550..ce84e03 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -137,8 +137,8 @@ class Box2Ring:
         self.pedges = np.linspace(pmin, pmax, nump+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dr = self.redges[1] - self.redges[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
@@ -189,7 +189,7 @@ class Box2Ring:
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
         self.pmid = 0.5*(self.pedges[1:] + self.pedges[:-1])
         self.dr = self.redges[1:] - self.redges[:-1]
-        self.dp = self.pmid[1] - self.pmid[0]
+        self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
         self.center = center
         self.phi_shift = phi_shift
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 8ce32f4..2e523b0 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -90,7 +90,7 @@ class Cube2Shell:
         assert len(center) == 3, "center list must have length 3."
         self.redges = np.linspace(rmin, rmax, numr+1)
         self.rmid = 0.5*(self.redges[1:] + self.redges[:-1])
-        self.dr = self.rmid[1] - self.rmid[0]
+        self.dr = self.redges[1] - self.redges[0]
         self.nside = nside
         self.center = center
 
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 8759a75..7071e14 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -81,8 +81,8 @@ class Heal2Polar:
         self.yedges = np.linspace(-y_length/2., y_length/2., y_grid+1)
         self.xmid = 0.5*(self.xedges[1:] + self.xedges[:-1])
         self.ymid = 0.5*(self.yedges[1:] + self.yedges[:-1])
-        self.dx = self.xmid[1] - self.xmid[0]
-        self.dy = self.ymid[1] - self.ymid[0]
+        self.dx = self.xedges[1] - self.xedges[0]
+        self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
         self.center = center
         self.alpha = alpha
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 5edc1da..65e90fa 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -79,8 +79,8 @@ class Heal2Ring:
         self.beta_edges = np.linspace(beta_min, beta_max, num_beta+1)
         self.alpha_mid = 0.5*(self.alpha_edges[1:] + self.alpha_edges[:-1])
         self.beta_mid = 0.5*(self.beta_edges[1:] + self.beta_edges[:-1])
-        self.dalpha = self.alpha_mid[1] - self.alpha_mid[0]
-        self.dbeta = self.beta_mid[1] - self.beta_mid[0]
+        self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
+        self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
         self.center = center
         self.beta_shift = beta_shift
-- 
2.43.0


From a91d7d42a5e7afd4348ab791a54f294cf955df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:38 +0000
Subject: [PATCH 23/37] fix: polar2radial gives cells outside the box no weight
 and leaves the caller's weights alone

---
 magpie/densegrid/box2ring.py  | 7 ++++---
 magpie/montecarlo/box2ring.py | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 6a4133c..09961ea 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -262,7 +262,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -270,9 +270,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.array(w, dtype=float)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(self.p2d))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ce84e03..ebaaf62 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -354,7 +354,7 @@ class Box2Ring:
         assert np.shape(f_polar) == np.shape(self.p2d), "Shape of f_polar does not match stored polar coordinate grid."
         if self.mask_in_bound is None:
             self.get_mask_in_bound(verbose=verbose)
-        if self.mask_in_bound.all() != 1.:
+        if np.any(self.mask_in_bound != 1.):
             condition = np.where(self.mask_in_bound != 1.)
             f_polar = np.copy(f_polar)
             f_polar[condition] = 0.
@@ -362,9 +362,10 @@ class Box2Ring:
                 sigma = np.copy(sigma)
                 sigma[condition] = 0.
             if w is not None:
-                w *= self.mask_in_bound
+                w = np.array(w, dtype=float)
             else:
-                w = self.mask_in_bound
+                w = np.ones(np.shape(self.p2d))
+            w[condition] = 0.
         if sigma is None:
             f_radial = polar.polar2radial(f_polar, self.area2d, self.pixarea, sigma=sigma, w=w)
             return f_radial
-- 
2.43.0


From 4ed21b5cfba060977fef1f3cdadbeca964d4ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:52 +0000
Subject: [PATCH 24/37] fix: setting up a new grid discards the areas and masks
 of the old one

---
 magpie/densegrid/box2ring.py   | 4 ++++
 magpie/densegrid/heal2ring.py  | 2 ++
 magpie/montecarlo/box2ring.py  | 7 +++++++
 magpie/montecarlo/heal2ring.py | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/magpie/densegrid/box2ring.py b/magpie/densegrid/box2ring.py
index 09961ea..17665a4 100644
--- a/magpie/densegrid/box2ring.py
+++ b/magpie/densegrid/box2ring.py
@@ -70,6 +70,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi, center=[0., 0.], rebin_r=2, rebin_p=2, phi_shift=0.):
@@ -116,6 +118,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
         self.rebin_r = rebin_r
diff --git a/magpie/densegrid/heal2ring.py b/magpie/densegrid/heal2ring.py
index d2c8161..0f1b40b 100644
--- a/magpie/densegrid/heal2ring.py
+++ b/magpie/densegrid/heal2ring.py
@@ -49,6 +49,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha,
@@ -97,6 +98,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
         self.rebin_alpha = rebin_alpha
diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index ebaaf62..f931bce 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -97,6 +97,8 @@ class Box2Ring:
         self.dx = self.xedges[1] - self.xedges[0]
         self.dy = self.yedges[1] - self.yedges[0]
         self.x2d, self.y2d = np.meshgrid(self.xmid, self.ymid)
+        self.pixarea = None
+        self.mask_in_bound = None
 
 
     def setup_polar_lin(self, rmin, rmax, numr, nump, pmin=0., pmax=2.*np.pi,
@@ -140,6 +142,8 @@ class Box2Ring:
         self.dr = self.redges[1] - self.redges[0]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -191,6 +195,8 @@ class Box2Ring:
         self.dr = self.redges[1:] - self.redges[:-1]
         self.dp = self.pedges[1] - self.pedges[0]
         self.r2d, self.p2d = np.meshgrid(self.rmid, self.pmid)
+        self.area2d = None
+        self.mask_in_bound = None
         self.center = center
         self.phi_shift = phi_shift
 
@@ -243,6 +249,7 @@ class Box2Ring:
         self.ind_xs = np.array(ind_xs, dtype=object)
         self.ind_ys = np.array(ind_ys, dtype=object)
         self.ind_ws = np.array(ind_ws, dtype=object)
+        self.mask_in_bound = None
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 65e90fa..575b7ba 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -39,6 +39,7 @@ class Heal2Ring:
         """
         assert hp.isnsideok(nside) == True, "nside given is not ok."
         self.nside = nside
+        self.pixarea = None
 
 
     def setup_polar_cap(self, alpha_min, alpha_max, num_alpha, num_beta, beta_min=0., beta_max=2.*np.pi,
@@ -82,6 +83,7 @@ class Heal2Ring:
         self.dalpha = self.alpha_edges[1] - self.alpha_edges[0]
         self.dbeta = self.beta_edges[1] - self.beta_edges[0]
         self.alpha2d, self.beta2d = np.meshgrid(self.alpha_mid, self.beta_mid)
+        self.area2d = None
         self.center = center
         self.beta_shift = beta_shift
 
-- 
2.43.0


From 7a79ddafddc5de350d1cbcdb303da20bf1a1748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:27 +0000
Subject: [PATCH 25/37] fix: Monte Carlo weights keep one index list per cell
 when all lists have equal length

---
 magpie/montecarlo/box2ring.py   | 24 +++++++++---------------
 magpie/montecarlo/cube2shell.py | 32 ++++++++++++--------------------
 magpie/montecarlo/heal2polar.py | 16 ++++++----------
 magpie/montecarlo/heal2ring.py  | 16 ++++++----------
 4 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/magpie/montecarlo/box2ring.py b/magpie/montecarlo/box2ring.py
index f931bce..c3773f1 100644
--- a/magpie/montecarlo/box2ring.py
+++ b/magpie/montecarlo/box2ring.py
@@ -214,13 +214,10 @@ class Box2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_xs = []
-        ind_ys = []
-        ind_ws = []
+        ind_xs = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ys = np.empty(np.shape(self.r2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.r2d), dtype=object)
         for i in range(0, len(self.r2d)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_ws = []
             for j in range(0, len(self.r2d[0])):
                 rmin, rmax = self.redges[j], self.redges[j+1]
                 pmin, pmax = self.pedges[i], self.pedges[i+1]
@@ -238,17 +235,14 @@ class Box2Ring:
                 ind_x = condition[1]
                 ind_y = condition[0]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.r2d), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_ws = ind_ws
         self.mask_in_bound = None
 
 
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index 2e523b0..cf7d6c5 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -140,15 +140,11 @@ class Cube2Shell:
         verbose : bool
             If true will output a progress bar.
         """
-        ind_xs = []
-        ind_ys = []
-        ind_zs = []
-        ind_ws = []
+        ind_xs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ys = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_zs = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
+        ind_ws = np.empty((len(self.rmid), hp.nside2npix(self.nside)), dtype=object)
         for i in range(0, len(self.rmid)):
-            _ind_xs = []
-            _ind_ys = []
-            _ind_zs = []
-            _ind_ws = []
             for j in range(0, hp.nside2npix(self.nside)):
                 pix = j
                 rmin, rmax = self.redges[i], self.redges[i+1]
@@ -162,20 +158,16 @@ class Cube2Shell:
                 ind_y = condition[0]
                 ind_z = condition[2]
                 ind_w = H[condition]/float(mc_size)
-                _ind_xs.append(ind_x)
-                _ind_ys.append(ind_y)
-                _ind_zs.append(ind_z)
-                _ind_ws.append(ind_w)
-            ind_xs.append(np.array(_ind_xs, dtype=object))
-            ind_ys.append(np.array(_ind_ys, dtype=object))
-            ind_zs.append(np.array(_ind_zs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_xs[i, j] = ind_x
+                ind_ys[i, j] = ind_y
+                ind_zs[i, j] = ind_z
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.rmid), explanation='Calculating weights')
-        self.ind_xs = np.array(ind_xs, dtype=object)
-        self.ind_ys = np.array(ind_ys, dtype=object)
-        self.ind_zs = np.array(ind_zs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_xs = ind_xs
+        self.ind_ys = ind_ys
+        self.ind_zs = ind_zs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index 7071e14..e5ca064 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -101,11 +101,9 @@ class Heal2Polar:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.x2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.x2d), dtype=object)
         for i in range(0, len(self.x2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.x2d[0])):
                 x_min, x_max = self.xedges[j], self.xedges[j+1]
                 y_max, y_min = self.yedges[i], self.yedges[i+1]
@@ -119,14 +117,12 @@ class Heal2Polar:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.x2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index 575b7ba..aa4f41f 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -101,11 +101,9 @@ class Heal2Ring:
             If true will output a progress bar.
         """
         assert mc_size > 1, "mc_size must be greater than 1, ideally greater than 100."
-        ind_pixs = []
-        ind_ws = []
+        ind_pixs = np.empty(np.shape(self.alpha2d), dtype=object)
+        ind_ws = np.empty(np.shape(self.alpha2d), dtype=object)
         for i in range(0, len(self.alpha2d)):
-            _ind_pixs = []
-            _ind_ws = []
             for j in range(0, len(self.alpha2d[0])):
                 alpha_min, alpha_max = self.alpha_edges[j], self.alpha_edges[j+1]
                 beta_min, beta_max = self.beta_edges[i], self.beta_edges[i+1]
@@ -118,14 +116,12 @@ class Heal2Ring:
                 pix_uniq, pix_counts = np.unique(pix_rand, return_counts=True)
                 ind_pix = pix_uniq
                 ind_w = (pix_counts.astype('float'))/float(mc_size)
-                _ind_pixs.append(ind_pix)
-                _ind_ws.append(ind_w)
-            ind_pixs.append(np.array(_ind_pixs, dtype=object))
-            ind_ws.append(np.array(_ind_ws, dtype=object))
+                ind_pixs[i, j] = ind_pix
+                ind_ws[i, j] = ind_w
             if verbose == True:
                 utils.progress_bar(i, len(self.alpha2d), explanation='Calculating weights')
-        self.ind_pixs = np.array(ind_pixs, dtype=object)
-        self.ind_ws = np.array(ind_ws, dtype=object)
+        self.ind_pixs = ind_pixs
+        self.ind_ws = ind_ws
 
 
     def remap(self, f, w=None, verbose=True):
-- 
2.43.0


From 0f264c084dcfbd101181baf4ba12392db2df38a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:39 +0000
Subject: [PATCH 26/37] fix: Monte Carlo remaps of a HEALPix map accept a
 weight map

---
 magpie/montecarlo/heal2polar.py | 2 +-
 magpie/montecarlo/heal2ring.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/montecarlo/heal2polar.py b/magpie/montecarlo/heal2polar.py
index e5ca064..fe0936f 100644
--- a/magpie/montecarlo/heal2polar.py
+++ b/magpie/montecarlo/heal2polar.py
@@ -144,7 +144,7 @@ class Heal2Polar:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_box = np.zeros(np.shape(self.x2d))
         for i in range(0, len(self.x2d)):
             for j in range(0, len(self.x2d[0])):
diff --git a/magpie/montecarlo/heal2ring.py b/magpie/montecarlo/heal2ring.py
index aa4f41f..a5971be 100644
--- a/magpie/montecarlo/heal2ring.py
+++ b/magpie/montecarlo/heal2ring.py
@@ -143,7 +143,7 @@ class Heal2Ring:
         """
         assert len(f) == hp.nside2npix(self.nside), "HEALPix map f is not the correct nside."
         if w is not None:
-            assert np.shape(w) ==hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
+            assert len(w) == hp.nside2npix(self.nside), "HEALPix weight map w is not the correct nside."
         f_polar = np.zeros(np.shape(self.beta2d))
         for i in range(0, len(self.alpha2d)):
             for j in range(0, len(self.alpha2d[0])):
-- 
2.43.0


From 21dd743b571633b7dd3f3ed19eaf19b3cf08496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 27/37] fix: plot_box and plot_circle draw the outlines pixel
 provides

---
 magpie/plots/shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/shapes.py b/magpie/plots/shapes.py
index b7509f8..8dfe33c 100644
--- a/magpie/plots/shapes.py
+++ b/magpie/plots/shapes.py
@@ -22,7 +22,7 @@ def plot_box(x_min, x_max, y_min, y_max, ax=None, divisions=100, **kwargs):
     divisions : int, optional
         Divisions in each line segment.
     """
-    x, y = shapes.get_box(x_min, x_max, y_min, y_max, divisions=divisions)
+    x, y = pixel.get_square(x_min, x_max, y_min, y_max, steps=divisions)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
@@ -43,7 +43,7 @@ def plot_circle(radius=1., center=[0., 0.], length=1000, ax=None, **kwargs):
     ax : class, optional
         Axis to plot on.
     """
-    x, y = shapes.get_circle(radius, center=center, length=length)
+    x, y = pixel.get_arc(radius, center=center, steps=length)
     if ax is None:
         plt.plot(x, y, **kwargs)
     else:
-- 
2.43.0


From 049995a21198cacd269c1f238f1b574aeedf9150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:55 +0000
Subject: [PATCH 28/37] fix: PlotOrtho calls the coords and pixel functions
 that exist

---
 magpie/plots/ortho.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 7c9352e..5d18b12 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.polar2lonlat(theta_grid[condition])
+                y_labels = coords.sphere2lonlat(theta_grid[condition])
             else:
                 if inbetween == 'min':
 
@@ -215,14 +215,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmin(theta):-1], theta[np.argmin(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
 
                 elif inbetween == 'max':
 
@@ -231,14 +231,14 @@ class PlotOrtho:
                     condition = np.where((theta_grid >= theta1.min()) & (theta_grid <= theta1.max()))[0]
                     f = interpolate.interp1d(theta1, y1)
                     y_ticks1 = f(theta_grid[condition])
-                    y_labels1 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels1 = coords.sphere2lonlat(theta_grid[condition])
 
                     y2, theta2 = y[np.argmax(theta):-1], theta[np.argmax(theta):-1]
 
                     condition = np.where((theta_grid >= theta2.min()) & (theta_grid <= theta2.max()))[0]
                     f = interpolate.interp1d(theta2, y2)
                     y_ticks2 = f(theta_grid[condition])
-                    y_labels2 = coords.polar2lonlat(theta_grid[condition])
+                    y_labels2 = coords.sphere2lonlat(theta_grid[condition])
                 y_ticks = np.concatenate([y_ticks1, y_ticks2])
                 y_labels = np.rad2deg(np.concatenate([y_labels1, y_labels2]))
             y_labels = np.round(y_labels, decimals=0).astype('int')
@@ -341,7 +341,7 @@ class PlotOrtho:
             _t1, _t2 = theta_min, theta_max
             theta_min = np.pi/2. - _t2
             theta_max = np.pi/2. - _t1
-        phi_box, theta_box = shapes.get_box(phi_min, phi_max, theta_min, theta_max, divisions=divisions)
+        phi_box, theta_box = pixel.get_square(phi_min, phi_max, theta_min, theta_max, steps=divisions)
         x, y = self.heal2ortho.transform(phi_box, theta_box)
         if ax is None:
             plt.plot(x, y, **kwargs)
-- 
2.43.0


From 1453b7be88b9c41ea0e42d19b8d72d807a0d4fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 29/37] fix: latitude labels of PlotOrtho are in degrees in
 every case

---
 magpie/plots/ortho.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 5d18b12..461b5c6 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -206,7 +206,7 @@ class PlotOrtho:
                 condition = np.where((theta_grid >= theta.min()) & (theta_grid <= theta.max()))[0]
                 f = interpolate.interp1d(theta, y)
                 y_ticks = f(theta_grid[condition])
-                y_labels = coords.sphere2lonlat(theta_grid[condition])
+                y_labels = np.rad2deg(coords.sphere2lonlat(theta_grid[condition]))
             else:
                 if inbetween == 'min':
 
-- 
2.43.0


From 201583df4f859a5f6d09ab354ef7b6196185a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 30/37] fix: refuse a cube without cells along z before storing
 anything

---
 magpie/densegrid/cube2shell.py  | 1 +
 magpie/montecarlo/cube2shell.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/magpie/densegrid/cube2shell.py b/magpie/densegrid/cube2shell.py
index 9a003b9..7513846 100644
--- a/magpie/densegrid/cube2shell.py
+++ b/magpie/densegrid/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
diff --git a/magpie/montecarlo/cube2shell.py b/magpie/montecarlo/cube2shell.py
index cf7d6c5..f90bf65 100644
--- a/magpie/montecarlo/cube2shell.py
+++ b/magpie/montecarlo/cube2shell.py
@@ -56,6 +56,7 @@ class Cube2Shell:
         """
         assert numx > 0, "numx must be greater than zero."
         assert numy > 0, "numy must be greater than zero."
+        assert numz > 0, "numz must be greater than zero."
         self.xedges = np.linspace(xmin, xmax, numx+1)
         self.yedges = np.linspace(ymin, ymax, numy+1)
         self.zedges = np.linspace(zmin, zmax, numz+1)
-- 
2.43.0


From bdb10b1753f97fa9a328bd5480dd8c2f3bfd7361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 31/37] fix: neighbours across the upper edge of a polar base
 pixel use the offsets of the other edge

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 3f64c60..ef16daf 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -305,7 +305,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
         istar_neigh = [istar, istar + 1, istar + 1, istar, istar + 1,
                        istar - ((jstar+1)-nside*np.floor(jstar/nside)),
                        istar - ((jstar)-nside*np.floor(jstar/nside)),
-                       istar - ((jstar-1)-nside*np.floor(jstar/nside))]
+                       istar - ((jstar+2)-nside*np.floor(jstar/nside))]
         jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar + 1, jstar + 1,
                        nside*np.floor(jstar/nside)-1,
                        nside*np.floor(jstar/nside)-1,
-- 
2.43.0


From 2f0db83f67e74ae9f62d53745a03b667d66d2966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 32/37] fix: neighbours just past phi = 2 pi wrap around to phi
 = 0

---
 magpie/pixel/healpix_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index ef16daf..38bd8fb 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -344,7 +344,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh = np.array(istar_neigh)
     jstar_neigh = np.array(jstar_neigh)
 
-    cond = np.where(istar_neigh + jstar_neigh > 9*nside-1)[0]
+    cond = np.where(istar_neigh + jstar_neigh > 9*nside-2)[0]
     istar_neigh[cond] = istar_neigh[cond] - 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] - 4*nside
 
-- 
2.43.0


From 186288498bb6017e1807f3c8bab56dd48f879712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 33/37] fix: the i and j indices of neighbours stay paired when
 duplicates are removed

---
 magpie/pixel/healpix_index.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index 38bd8fb..b135243 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -352,8 +352,7 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     istar_neigh[cond] = istar_neigh[cond] + 4*nside
     jstar_neigh[cond] = jstar_neigh[cond] + 4*nside
 
-    istar_neigh = np.unique(istar_neigh)
-    jstar_neigh = np.unique(jstar_neigh)
+    istar_neigh, jstar_neigh = np.unique([istar_neigh, jstar_neigh], axis=1)
     return istar_neigh, jstar_neigh
 
 
-- 
2.43.0


From a6e3f3bb4f520444063abb9dbb3c9f9b3a31823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 34/37] fix: an equatorial base pixel at nside 1 lacks the
 neighbours of both its side corners

---
 magpie/pixel/healpix_index.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/magpie/pixel/healpix_index.py b/magpie/pixel/healpix_index.py
index b135243..c688cc7 100644
--- a/magpie/pixel/healpix_index.py
+++ b/magpie/pixel/healpix_index.py
@@ -295,6 +295,9 @@ def healpix_ijs_neighbours(istar, jstar, nside):
     elif istar - jstar + 1 == 2*nside:
         istar_neigh = [istar, istar - 1, istar - 1, istar - nside, istar - nside, istar + nside, istar - 1 + nside, istar-2*nside]
         jstar_neigh = [jstar + 1,  jstar + 1, jstar, jstar + 1 - nside, jstar - nside, jstar + nside, jstar + nside, jstar-2*nside]
+    elif istar == jstar and nside == 1:
+        istar_neigh = [istar - 1, istar, istar - 1, istar + 1, istar, istar + 1]
+        jstar_neigh = [jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
     elif jstar - istar + 1 == nside and istar % nside == 0:
         istar_neigh = [istar - 1, istar, istar + 1,  istar - 1, istar + 1, istar, istar + 1]
         jstar_neigh = [jstar - 1, jstar - 1, jstar - 1, jstar, jstar, jstar + 1, jstar + 1]
-- 
2.43.0


From f8e3b5fe99949b8942e1d118554e9437ede7c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:55 +0000
Subject: [PATCH 35/37] fix: a spin or shift by a full turn is not refused half
 way

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 31c9b02..8ba505e 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -97,7 +97,7 @@ def usphere_phi_shift(phi, dphi):
         Shifted phi coordinates.
     """
     # sanity checks
-    assert dphi > -2.*np.pi and dphi < 2.*np.pi, \
+    assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
     phi_new = phi + dphi
-- 
2.43.0


From 049b595f2fb420f4f57fdc6b3b6403c4844d391e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:34 +0000
Subject: [PATCH 36/37] fix: whole-number azimuths can be shifted by a whole
 number

---
 magpie/coords/usphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpie/coords/usphere.py b/magpie/coords/usphere.py
index 8ba505e..1d3a0f5 100644
--- a/magpie/coords/usphere.py
+++ b/magpie/coords/usphere.py
@@ -100,7 +100,7 @@ def usphere_phi_shift(phi, dphi):
     assert dphi >= -2.*np.pi and dphi <= 2.*np.pi, \
         "dphi must be within the range [-2pi, 2pi]."
     # shift phi
-    phi_new = phi + dphi
+    phi_new = phi + 1.*dphi
     if np.isscalar(phi_new) is False:
         condition = np.where(phi_new > 2.*np.pi)
         phi_new[condition] -= 2.*np.pi
-- 
2.43.0


From 367437c1facd2d8342d544831ce615d4bd7a288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:54 +0000
Subject: [PATCH 37/37] fix: azimuth labels of an orthographic plot across
 azimuth zero

---
 magpie/plots/ortho.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/magpie/plots/ortho.py b/magpie/plots/ortho.py
index 461b5c6..1647ebe 100644
--- a/magpie/plots/ortho.py
+++ b/magpie/plots/ortho.py
@@ -288,14 +288,19 @@ class PlotOrtho:
 
                 elif inbetween == 'max':
 
-                    x1, phi1 = x[0:np.argmax(phi)], phi[0:np.argmax(phi)]
+                    # Where phi increases along the edge it wraps after its maximum, otherwise before.
+                    ind = np.argmax(phi)
+                    if phi[ind+1] < phi[ind-1]:
+                        ind += 1
+
+                    x1, phi1 = x[:ind], phi[:ind]
 
                     condition = np.where((phi_grid >= phi1.min()) & (phi_grid <= phi1.max()))[0]
                     f = interpolate.interp1d(phi1, x1)
                     x_ticks1 = f(phi_grid[condition])
                     x_labels1 = phi_grid[condition]
 
-                    x2, phi2 = x[np.argmax(phi):-1], phi[np.argmax(phi):-1]
+                    x2, phi2 = x[ind:], phi[ind:]
 
                     condition = np.where((phi_grid >= phi2.min()) & (phi_grid <= phi2.max()))[0]
                     f = interpolate.interp1d(phi2, x2)
-- 
2.43.0

