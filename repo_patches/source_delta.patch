From a75be692d9911c2675858616c753c46215783fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:03 +0000
Subject: [PATCH 01/92] fix: normal vectors of elliptical cylinders

For zoom[0] != zoom[1] the vector returned as surface normal pointed away
from the axis and was not perpendicular to the surface.
---
 marxs/math/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 3780123..0048723 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -613,7 +613,10 @@ class Cylinder(Geometry):
         zeros = np.zeros_like(phi)
         e_phi = np.array([-np.sin(phi), np.cos(phi), zeros, zeros]).T
         e_z = np.tile(self['e_z'], (interpos_local.shape[0], 1))
-        e_n = np.array([np.cos(phi), np.sin(phi), zeros, zeros]).T
+        # For an elliptical tube (different zoom in x and y), the normal is not
+        # parallel to the line from the axis, thus scale with the inverse zoom.
+        zx, zy = np.linalg.norm(self.pos4d[:3, :2], axis=0)**2
+        e_n = np.array([np.cos(phi) / zx, np.sin(phi) / zy, zeros, zeros]).T
 
         e_phi = np.einsum('...ij,...j', self.pos4d, e_phi)
         e_n = np.einsum('...ij,...j', self.pos4d, e_n)
-- 
2.43.0


From 2b6debcca0b806ff179fb5fde211d88f3d22cbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 02/92] fix: CCDRedistNormal only assigns energies to photons
 that hit

---
 marxs/optics/detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/optics/detector.py b/marxs/optics/detector.py
index 755c282..6cd012a 100644
--- a/marxs/optics/detector.py
+++ b/marxs/optics/detector.py
@@ -194,7 +194,7 @@ class CCDRedistNormal(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         # Implicit unit of photon energy is keV, but here we need it written out.
-        phot_en = u.Quantity(photons["energy"])
+        phot_en = u.Quantity(photons["energy"][intersect])
         det_en = norm.rvs(
             loc=phot_en,
             scale=self.sig_ccd(phot_en).to(u.keV, equivalencies=u.spectral()),
-- 
2.43.0


From b6b555988ee23fbcabcca1405ba67d5d0c133e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 03/92] fix: parallel_transport passes its keyword arguments on

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index 7391b5f..fbc9115 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -164,6 +164,6 @@ def parallel_transport(dir_old, dir_new, pol_old, **kwargs):
     pol : np.array of shape (m, 4)
         Parallel transported vectors.
     '''
-    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3])
+    pmat = paralleltransport_matrix(dir_old[:, :3], dir_new[:, :3], **kwargs)
     out = np.einsum('ijk,ik->ij', pmat, pol_old[:, :3])
     return e2h(out, 0)
-- 
2.43.0


From b02fd7e5cd81b8fda8104d5b6e30142d50ad9880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 04/92] fix: Q_reflection accepts arrays of the documented
 shape

---
 marxs/math/polarization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/math/polarization.py b/marxs/math/polarization.py
index fbc9115..a3a7248 100644
--- a/marxs/math/polarization.py
+++ b/marxs/math/polarization.py
@@ -82,7 +82,7 @@ def Q_reflection(delta_dir):
     q : np.array of shape (n, 4, 4)
         Array of parallel transport ray tracing matrices.
     '''
-    if delta_dir.shape != 2:
+    if delta_dir.ndim != 2 or delta_dir.shape[1] != 4:
         raise ValueError('delta_dir must have dimension (n, 4).')
     m = delta_dir[..., None, :] * delta_dir[..., :, None]
     return np.eye(4) - 2 / (np.linalg.norm(delta_dir, axis=1)**2)[:, None, None] * m
-- 
2.43.0


From cd2d76d76ce632333461304518f91e22b7fbf14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:02 +0000
Subject: [PATCH 05/92] fix: refuse undefined (NaN) probabilities

---
 marxs/optics/base.py   | 2 +-
 marxs/optics/filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/marxs/optics/base.py b/marxs/optics/base.py
index 29050d0..98e8460 100644
--- a/marxs/optics/base.py
+++ b/marxs/optics/base.py
@@ -42,7 +42,7 @@ def _assign_col_value(photons, col, index, value):
     '''
     if col == 'probability':
         # Fix numerics of a probability
-        if np.any(value < 0) or np.any(value > 1):
+        if not np.all((value >= 0) & (value <= 1)):
             raise ValueError('Found probability outside of the 0..1 arange.')
         photons[col][index] *= value
     elif col is None:
diff --git a/marxs/optics/filter.py b/marxs/optics/filter.py
index 52b5354..380b031 100644
--- a/marxs/optics/filter.py
+++ b/marxs/optics/filter.py
@@ -47,7 +47,7 @@ class GlobalEnergyFilter(MarxsElement):
 
     def __call__(self, photons):
         p = self.filterfunc(photons['energy'])
-        if np.any(p < 0.) or np.any(p > 1.):
+        if not np.all((p >= 0.) & (p <= 1.)):
             raise ValueError('Probabilities returned by filterfunc must be in interval [0, 1].')
         photons['probability'] *= p
         return photons
@@ -89,6 +89,6 @@ class EnergyFilter(FlatOpticalElement):
 
     def specific_process_photons(self, photons, intersect, interpos, intercoos):
         p =  self.filterfunc(photons['energy'][intersect])
-        if np.any(p < 0.) or np.any(p > 1.):
+        if not np.all((p >= 0.) & (p <= 1.)):
             raise ValueError('Probabilities returned by filterfunc must be in interval [0, 1].')
         return {'probability': p}
-- 
2.43.0


From 7f95c3c61ea940f51804e71a703055ed49d00f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:11 +0000
Subject: [PATCH 06/92] fix: reflected polarization amplitudes go with the
 square root of the reflectivity

---
 marxs/optics/multiLayerMirror.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 90fa46c..5360a1e 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -83,8 +83,11 @@ class FlatBrewsterMirror(FlatOpticalElement):
         # parallel transport of polarization vector
         # v_s stays the same by definition
         new_v_p = np.cross(h2e(new_beam_dir), v_s)
-        new_pol = norm_vector(-Es2[:, np.newaxis] * v_s +
-                              Ep2[:, np.newaxis] * new_v_p)
+        # The amplitude changes with the square root of the reflectivity
+        E_s = np.sqrt(fresnel_refl_s) * p_v_s
+        E_p = np.sqrt(fresnel_refl_p) * p_v_p
+        new_pol = norm_vector(-E_s[:, np.newaxis] * v_s +
+                              E_p[:, np.newaxis] * new_v_p)
 
         return {'dir': new_beam_dir,
                 'probability': np.clip(intensity, 0, 1),
-- 
2.43.0


From 26ad7a02bba892ae896f1cf02313a987145bd00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 07/92] fix: OrderSelector allows for rounding errors in the
 sum of probabilities

---
 marxs/optics/grating.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 4b66c0d..0c8591f 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -42,17 +42,18 @@ class OrderSelector(object):
             p = np.asanyarray(p)
             if len(p) != len(orderlist):
                 raise ValueError('Number of elements in orderlist and probabilities does not match.')
-            if p.sum() > 1.:
+            if p.sum() > 1. + 1e-10:  # allow for rounding errors
                 raise ValueError('Sum of all probabilities must be <= 1.')
             if np.any(p < 0):
                 raise ValueError('Probabilities cannot be negative')
             self.p = p
 
     def __call__(self, energy, *args):
-        p_sum = self.p.sum()
-        p = self.p / p_sum
+        # Rounding errors can make the sum slightly larger than 1
+        p_sum = min(self.p.sum(), 1.)
+        p = self.p / self.p.sum()
         if np.isscalar(energy):
-            return np.random.choice(self.orderlist, p=p), self.p.sum()
+            return np.random.choice(self.orderlist, p=p), p_sum
         else:
             return np.random.choice(self.orderlist, size=len(energy), p=p), p_sum * np.ones_like(energy)
 
-- 
2.43.0


From f8b80a43cafc41a0cd5ff8fa17c03b11648863d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:42 +0000
Subject: [PATCH 08/92] fix: angles of rays that are not deflected are zero,
 not NaN

---
 marxs/missions/mitsnl/catgrating.py |  3 ++-
 marxs/optics/mirror.py              | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/marxs/missions/mitsnl/catgrating.py b/marxs/missions/mitsnl/catgrating.py
index 414e64c..10c3fb5 100644
--- a/marxs/missions/mitsnl/catgrating.py
+++ b/marxs/missions/mitsnl/catgrating.py
@@ -242,7 +242,8 @@ class L2Abs(FlatOpticalElement):
 
         p3 = norm_vector(photons['dir'].data[intersect])
         ex, ey, en = self.geometry.get_local_euklid_bases(intercoos[intersect, :])
-        angle = np.arccos(np.abs(np.einsum("ij,ij->i", p3, en)))
+        # clip, because rounding errors can lead to products slightly larger than 1
+        angle = np.arccos(np.clip(np.abs(np.einsum("ij,ij->i", p3, en)), 0, 1))
 
         # fractional area NOT covered by the hexagon structure
         openfraction = (self.innerfree / self.period)**2
diff --git a/marxs/optics/mirror.py b/marxs/optics/mirror.py
index 0426047..4cbe6c3 100644
--- a/marxs/optics/mirror.py
+++ b/marxs/optics/mirror.py
@@ -65,11 +65,16 @@ class PerfectLens(FlatOpticalElement):
             dir,
             photons["polarization"].data[intersect, :],
         )
+        # clip, because rounding errors can lead to products slightly larger than 1
         angle = np.arccos(
-            np.abs(
-                np.einsum(
-                    "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
-                )
+            np.clip(
+                np.abs(
+                    np.einsum(
+                        "ij,ij->i", h2e(dir), norm_vector(h2e(photons["dir"][intersect]))
+                    )
+                ),
+                0,
+                1,
             )
         )
         return {
-- 
2.43.0


From 12789f55e0a147463b5cb1962c6df5a8b63b5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:03 +0000
Subject: [PATCH 09/92] fix: EfficiencyFile refuses malformed tables and
 accepts energies without transmission

---
 marxs/optics/grating.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 0c8591f..6125387 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -83,10 +83,19 @@ class EfficiencyFile(object):
             raise ValueError('orders has len={0}, but data files has {1} order columns.'.format(len(orders), dat.shape[1] - 1))
         self.orders = np.array(orders)
         self.prob = dat[:, 1:]
+        if np.any(self.prob < 0):
+            raise ValueError('Probabilities cannot be negative')
         # Probability to end up in any order
         self.totalprob = np.sum(self.prob, axis=1)
+        if np.any(self.totalprob > 1. + 1e-10):  # allow for rounding errors
+            raise ValueError('Sum of all probabilities must be <= 1.')
+        self.totalprob = np.clip(self.totalprob, 0., 1.)
         # Cumulative probability for orders, normalized to 1.
-        self.cumprob = np.cumsum(self.prob, axis=1) / self.totalprob[:, None]
+        self.cumprob = np.cumsum(self.prob, axis=1)
+        # If no photon passes at some energy, it does not matter which order
+        # is selected, but there needs to be one.
+        self.cumprob[self.totalprob == 0] = 1.
+        self.cumprob /= self.cumprob[:, [-1]]
 
     def __call__(self, energies, *args):
         orderind = np.empty(len(energies), dtype=int)
-- 
2.43.0


From a5c4ba725d4374aca306917a0336e211c0054782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 10/92] fix: jitter is perpendicular to the optical axis for
 any reference_transform

---
 marxs/source/pointing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 8d26938..17d58d1 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -199,6 +199,8 @@ class JitterPointing(FixedPointing):
         n = len(photons)
         randang = np.random.rand(n) * 2. * np.pi
         ax = np.vstack([np.zeros(n), np.sin(randang), np.cos(randang)]).T
+        # Jitter is around axes perpendicular to the optical axis
+        ax = np.dot(ax, np.asarray(self.reference_transform)[:3, :3].T)
         if self.jitter > 0:
             # For comparison it's often useful to run a model with jitter=0
             # but that would fail np.random.normal(scale=0)
-- 
2.43.0


From 5e271de30831489127dbb8ee270c298c50d9905d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 11/92] fix: dither pattern with changing roll

---
 marxs/missions/chandra/dither.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 589a272..6f93b43 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -87,6 +87,8 @@ class LissajousDither(FixedPointing):
         if np.allclose(roll.to(u.rad).value, roll[0].to(u.rad).value):
             mat = axangle2mat(e_nominal, -roll[0].to(u.rad).value, is_normalized=True)
             constant_roll = True
+        else:
+            constant_roll = False
 
         for i in range(len(time)):
             if not constant_roll:
-- 
2.43.0


From fa9f74d6ab7cb9023419e85cdbe9c2e7bfac1a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 12/92] fix: directions of photons from FarLabPointSource are
 unit vectors

---
 marxs/source/labSource.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 42c5d46..7477d3d 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -7,7 +7,7 @@ import transforms3d
 from ..optics.base import FlatOpticalElement
 from .basesources import Source
 from ..math.polarization import polarization_vectors
-from ..math.utils import h2e, e2h
+from ..math.utils import h2e, e2h, norm_vector
 
 
 class FarLabPointSource(Source, FlatOpticalElement):
@@ -52,7 +52,7 @@ class FarLabPointSource(Source, FlatOpticalElement):
                         pos[2, :] - self.sourcePos[2],
                         np.zeros(n)])
         photons['pos'] = pos.T
-        photons['dir'] = dir.T
+        photons['dir'] = norm_vector(dir.T)
         photons['polarization'] = polarization_vectors(dir.T, photons['polangle'])
         return photons
 
-- 
2.43.0


From 776e4b2d97527358c23fef654097a55b14cc13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 13/92] fix: LabPointSourceCone can point along the z axis

---
 marxs/source/labSource.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/source/labSource.py b/marxs/source/labSource.py
index 7477d3d..ab26f1f 100644
--- a/marxs/source/labSource.py
+++ b/marxs/source/labSource.py
@@ -119,6 +119,9 @@ class LabPointSourceCone(Source):
         # Now we rotate dir to align with the given direction: self.dir
         # To find axis of rotation: cross self.dir with z
         axis = np.cross(h2e(self.dir), [0, 0, 1])
+        if np.linalg.norm(axis) == 0:
+            # direction is along +z or -z, any perpendicular axis will do
+            axis = np.array([1, 0, 0])
 
         angle = np.arccos(self.dir[2]) # Simplified
 
-- 
2.43.0


From 046ac733b3ab039af8e0f385d57e28bed7a67b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:20 +0000
Subject: [PATCH 14/92] fix: photons in evanescent grating orders are lost

---
 marxs/optics/grating.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/optics/grating.py b/marxs/optics/grating.py
index 6125387..dee4396 100644
--- a/marxs/optics/grating.py
+++ b/marxs/optics/grating.py
@@ -266,13 +266,17 @@ class FlatGrating(FlatOpticalElement):
         sign = self.order_sign_convention(p, d)
         p_d = np.einsum("ij,ij->i", p, d) + sign * m * wave / self.d(intercoos[intersect, :])
         p_l = np.einsum("ij,ij->i", p, l)
+        # Evanescent orders do not propagate: those photons are lost.
+        evanescent = p_d**2 + p_l**2 > 1.
         # The norm for p_n can be derived, but the direction needs to be chosen.
-        p_n = np.sqrt(1. - p_d**2 - p_l**2)
+        p_n = np.sqrt(np.where(evanescent, 0., 1. - p_d**2 - p_l**2))
         # Check if the photons have same direction compared to normal before
         direction = np.sign(np.einsum("ij,ij->i", p, n), dtype=float)
         if not self.transmission:
             direction *= -1
         dir = p_d[:, None] * d + p_l[:, None] * l + (direction * p_n)[:, None] * n
+        dir[evanescent] = p[evanescent]
+        prob = np.where(evanescent, 0., prob)
         return dir, m, prob, blazeangle
 
     def specific_process_photons(self, photons,
-- 
2.43.0


From 0c5c8f704afd873d3be9a5c2af3c68a4c5edc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 15/92] fix: atol alone decides which positions
 format_positions drops

---
 marxs/simulator/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 7d034eb..a9fa5ec 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -611,7 +611,7 @@ class KeepCol(object):
             ind = [0]
             i = 1
             for i in range(1, d.shape[1]):
-                if not np.allclose(d[:, ind[-1], :], d[:, i, :], atol=atol,
+                if not np.allclose(d[:, ind[-1], :], d[:, i, :], rtol=0, atol=atol,
                                    equal_nan=True):
                     ind.append(i)
             return d[:, ind, :]
-- 
2.43.0


From 4c8a2163c29f15730e2db5e43431f598ab4732f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 16/92] fix: Parallel.move_center leaves the elements in place
 for any pos4d

---
 marxs/simulator/simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index a9fa5ec..9bdf0ad 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -376,8 +376,10 @@ class Parallel(BaseContainer):
         change4d : np.array of shape (4,4)
             Homogeneous coordinate transformation matrix
         '''
-        self.geometry.pos4d = np.dot(change4d, self.pos4d)
-        inv = np.linalg.inv(change4d)
+        old_pos4d = self.pos4d
+        self.geometry.pos4d = np.dot(change4d, old_pos4d)
+        # elem_pos is relative to pos4d, while change4d is not
+        inv = np.linalg.inv(self.pos4d) @ old_pos4d
         self.elem_pos = [np.dot(inv, p) for p in self.elem_pos]
         self.generate_elements()
 
-- 
2.43.0


From 7db1b14b905a4a17cb874573f465cd6856b1f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 17/92] fix: Parallel objects do not share their lists and
 uncertainty matrices

---
 marxs/simulator/simulator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index 9bdf0ad..b0abf91 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -349,13 +349,16 @@ class Parallel(BaseContainer):
                     elem_pos_dict[k] = elem_pos[k][i]
                 self.elem_pos.append(_parse_position_keywords(elem_pos_dict))
         else:
-            self.elem_pos = elem_pos
+            # copy, because the list can be edited later
+            self.elem_pos = list(elem_pos)
 
         super().__init__(**kwargs)
 
         if 'id_col' not in self.elem_args:
             self.elem_args['id_col'] = self.id_col
-        self.elem_uncertainty = [np.eye(4)] * len(self.elem_pos)
+        # Matrices can be edited later, so every group and element needs its own
+        self.uncertainty = np.array(self.uncertainty)
+        self.elem_uncertainty = [np.eye(4) for p in self.elem_pos]
         self.generate_elements()
 
     def move_center(self, change4d):
-- 
2.43.0


From 6a2cc2b76bed830fa1ecff6947a5bace09219faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:09 +0000
Subject: [PATCH 18/92] fix: moveelem moves the layers of a FlatStack

---
 marxs/design/tolerancing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 42050d5..01a7e5b 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -10,6 +10,7 @@ from astropy.table import Table
 from astropy import table
 import astropy.units as u
 from marxs.simulator import Sequence
+from marxs.optics.base import FlatStack
 from marxs.design.uncertainties import generate_facet_uncertainty as genfacun
 
 __all__ = ['oneormoreelements',
@@ -130,6 +131,9 @@ def moveelem(e, dx=0, dy=0, dz=0, rx=0., ry=0., rz=0.):
                            euler.euler2mat(rx, ry, rz, 'sxyz'),
                            np.ones(3))
     e.geometry.pos4d = move @ e.geometry.pos4d_orig
+    if isinstance(e, FlatStack):
+        # Each layer in the stack has its own geometry
+        moveelem(e.elements, dx, dy, dz, rx, ry, rz)
 
 
 @oneormoreelements
-- 
2.43.0


From cb1f85b6b461091e69f2c46e612ede4fada31921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:15 +0000
Subject: [PATCH 19/92] fix: inner radius of one aperture no longer leaks into
 other apertures

---
 marxs/math/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/math/geometry.py b/marxs/math/geometry.py
index 0048723..cf8e3f6 100644
--- a/marxs/math/geometry.py
+++ b/marxs/math/geometry.py
@@ -288,8 +288,9 @@ class PlaneWithHole(FinitePlane):
     inner_factor = 0
 
     def __init__(self, kwargs):
-        self._geometry['r_inner'] = kwargs.pop('r_inner', 0.)
+        r_inner = kwargs.pop('r_inner', 0.)
         super().__init__(kwargs)
+        self._geometry['r_inner'] = r_inner
 
     def triangulate(self, display={}):
         '''Return a triangulation of the aperture hole embedded in a square.
-- 
2.43.0


From 58fec1dba5adf0e237b9d1e14bda05833b105e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 20/92] fix: run_tolerances_for_energies2 varies the subclasses
 it searched for

---
 marxs/design/tolerancing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/tolerancing.py b/marxs/design/tolerancing.py
index 01a7e5b..7f45bce 100644
--- a/marxs/design/tolerancing.py
+++ b/marxs/design/tolerancing.py
@@ -446,7 +446,7 @@ def run_tolerances_for_energies2(source, energies, instrum, cls, wigglefunc,
                                       Sequence(elements=instrum.elements[:ind]),
                                       Sequence(elements=instrum.elements[ind:]),
                                       wigglefunc,
-                                      instrum.elements_of_class(cls),
+                                      instrum.elements_of_class(cls, subclass_ok),
                                       parameters,
                                       analyzefunc,
                                       reset,
-- 
2.43.0


From 171057dcb291f4ce783dfc31e341da4c5267ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 21/92] fix: elements_of_class searches inside matching
 elements unless told to stop

---
 marxs/simulator/simulator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/simulator/simulator.py b/marxs/simulator/simulator.py
index b0abf91..21c2ed2 100644
--- a/marxs/simulator/simulator.py
+++ b/marxs/simulator/simulator.py
@@ -94,10 +94,11 @@ class BaseContainer(SimulationSequenceElement):
                 return a
 
         for e in self.elements:
-            if compfunc(e, cls):
+            if hasattr(e, 'elements_of_class'):
+                # This includes e itself, if it matches
+                a += e.elements_of_class(cls, subclass_ok, stop_at_first)
+            elif compfunc(e, cls):
                 a += [e]
-            elif hasattr(e, 'elements_of_class'):
-                a += e.elements_of_class(cls, subclass_ok)
         return a
 
 
-- 
2.43.0


From 6bb9f4ffb82a50841524a06ed4a4c276a9a9ed38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 22/92] fix: TagVersion writes ORIGIN and CREATOR

---
 marxs/base/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index f916b0b..4d8c121 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -121,6 +121,8 @@ class TagVersion(MarxsElement):
                  **kwargs):
         super().__init__(name=kwargs.pop('name', self.__class__))
 
+        kwargs['ORIGIN'] = ORIGIN
+        kwargs['CREATOR'] = CREATOR
         kwargs['MARXSVER'] = (ver.group('version'), 'MARXS code version')
         if not ver.group('gittag') is None:
             kwargs['MARXSGIT'] = (ver.group('gittag'),
-- 
2.43.0


From 90c9483ca7386f161224dc7c05ab1ffeec059f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:55 +0000
Subject: [PATCH 23/92] fix: poisson_process no longer hangs when less than one
 more photon is expected

---
 marxs/source/basesources.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index df749a8..63b913e 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -69,10 +69,11 @@ def poisson_process(rate: (u.s * u.cm**2)**(-1)):
         # Make 10 % more numbers then we expect to need, because it's random
         times = expon.rvs(scale=1./fullrate.to(1 / u.s),
                           size=int((exposuretime * fullrate * 1.1).to(u.dimensionless_unscaled)))
-        # If we don't have enough numbers right now, add some more.
+        # If we don't have enough numbers right now, add some more (at least one,
+        # the product below can be < 1 and would be rounded to 0 forever).
         while (times.sum() * u.s) < exposuretime:
             times = np.hstack([times, expon.rvs(scale=1/fullrate.to(1 / u.s),
-                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)))])
+                                                size=int(((exposuretime - times.sum() * u.s) * fullrate * 1.1).to(u.dimensionless_unscaled)) + 1)])
         times = np.cumsum(times) * u.s
         return times[times < exposuretime]
     return poisson_rate
-- 
2.43.0


From d6a530ef02b4823f078b250ddf01b94fd261e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:15 +0000
Subject: [PATCH 24/92] fix: photons of large SphericalDiskSources stay inside
 the ring

---
 marxs/source/basesources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 63b913e..3a8320f 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -384,7 +384,8 @@ class RadialDistributionSource(AstroSource):
         n = len(photons)
         phi = np.random.rand(n) * 2. * np.pi * u.rad
         d = self.func(n)
-        relative_coords = SkyCoord(d * np.sin(phi), d * np.cos(phi),
+        relative_coords = SkyCoord(np.arctan2(np.sin(d) * np.sin(phi), np.cos(d)),
+                                   np.arcsin(np.sin(d) * np.cos(phi)),
                                    frame=relative_frame)
         origin_coord = relative_coords.transform_to(self.coords)
         self.set_pos(photons, origin_coord)
-- 
2.43.0


From 9aee59ba2f8fb7049155af33e184c1b6a719fa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:27 +0000
Subject: [PATCH 25/92] fix: SymbolFSource has the requested size and position
 in every part of the sky

---
 marxs/source/basesources.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/marxs/source/basesources.py b/marxs/source/basesources.py
index 3a8320f..f3ad150 100644
--- a/marxs/source/basesources.py
+++ b/marxs/source/basesources.py
@@ -511,15 +511,18 @@ class SymbolFSource(AstroSource):
         n = len(photons)
         elem = np.random.choice(3, size=n)
 
-        ra = np.ones(n) * self.coords.icrs.ra
-        dec = np.ones(n) * self.coords.icrs.dec
+        # Coordinates relative to the position of the source
+        lon = np.zeros(n) * self.size
+        lat = np.zeros(n) * self.size
         size = self.size
-        ra[elem == 0] += size * np.random.random(np.sum(elem == 0))
-        ra[elem == 1] += size
-        dec[elem == 1] += 0.5 * size * np.random.random(np.sum(elem == 1))
-        ra[elem == 2] += 0.8 * size
-        dec[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
-
-        self.set_pos(photons, SkyCoord(ra, dec, frame=self.coords))
+        lon[elem == 0] += size * np.random.random(np.sum(elem == 0))
+        lon[elem == 1] += size
+        lat[elem == 1] += 0.5 * size * np.random.random(np.sum(elem == 1))
+        lon[elem == 2] += 0.8 * size
+        lat[elem == 2] += 0.3 * size * np.random.random(np.sum(elem == 2))
+
+        relative_coords = SkyCoord(lon, lat,
+                                   frame=SkyOffsetFrame(origin=self.coords.icrs))
+        self.set_pos(photons, relative_coords.transform_to('icrs'))
 
         return photons
-- 
2.43.0


From e4c90daec48f046af9acc4c4cdc3d7f8d38f78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:59 +0000
Subject: [PATCH 26/92] fix: torus angles at the top of the torus and beyond
 the symmetry axis

arcsin gives nan when rounding makes y slightly larger than r, theta was 0
for points at a distance of exactly R from the axis, and points beyond the symmetry
axis (r > 2 R) got angles of a different point. Invert the correct mask for
intersectvalid=False.
---
 marxs/design/rowland.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 1116e68..f64e160 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -266,16 +266,22 @@ class RowlandTorus(MarxsElement, Geometry):
 
         if not np.allclose(self.quartic(xyz, transform=False) / self.R**4., 0.):
             raise ValueError('Parametric representation is only defined for points on torus surface.')
-        # There are two branches and we can use the sign to distinguish between them
-        s = np.sign(np.sqrt(xyz[:,0]**2 + xyz[:, 2]**2) - self.R)
-        theta = np.arcsin(s * xyz[:, 1] / self.r) + (s < 0) * np.pi
+        # Distance from the center of the Rowland circle, measured perpendicular
+        # to the symmetry axis of the torus
+        rho = np.sqrt(xyz[:, 0]**2 + xyz[:, 2]**2)
+        # For r > R, some of the points on the Rowland circle are located on the
+        # other side of the symmetry axis.
+        d = np.hypot(rho - self.R, xyz[:, 1]) - self.r
+        d_other = np.hypot(-rho - self.R, xyz[:, 1]) - self.r
+        rho = np.where(np.abs(d_other) < np.abs(d), -rho, rho)
+        theta = np.arctan2(xyz[:, 1], rho - self.R)
 
         factor = self.R + self.r * np.cos(theta)
         phi = np.zeros_like(factor)
         ind = factor != 0
         phi[ind] = np.arctan2(xyz[ind, 2] / factor[ind], xyz[ind, 0] / factor[ind])
         if not intersectvalid:
-            phi[~factor] = np.nan
+            phi[~ind] = np.nan
 
         return theta, phi
 
-- 
2.43.0


From a766ea3d5d4449e0f386514a3a76e360d6ba7000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:06 +0000
Subject: [PATCH 27/92] fix: angle covered by one element on an arc is size /
 radius

The extra factor 2 pi let neighbouring elements overlap.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index f64e160..5b8e23e 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -875,7 +875,7 @@ class GratingArrayStructure(ElementsOnTorus):
             return self.phi
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / (2. * np.pi * radius)
+        element_angle = self.d_element[1] / radius
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From 283d0c7f3ae9a58b3ee5c29af4e5e406044eec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 28/92] fix: phi=0 of a GratingArrayStructure is on the y axis,
 as documented

---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 5b8e23e..8f8a9b0 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -889,4 +889,4 @@ class GratingArrayStructure(ElementsOnTorus):
         # Turn lists of lists into flat numpy array
         radii = np.concatenate([[radii[i]] * len(a) for i, a in enumerate(angles)])
         angles = np.concatenate(angles)
-        return radii * np.sin(angles), radii * np.cos(angles)
+        return radii * np.cos(angles), radii * np.sin(angles)
-- 
2.43.0


From 0fb3565d08ec4fa18378c5f0a5c82ee710ea12dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:56 +0000
Subject: [PATCH 29/92] fix: a GratingArrayStructure with a single number for
 phi

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index 8f8a9b0..c2d6a33 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -871,8 +871,8 @@ class GratingArrayStructure(ElementsOnTorus):
             The phi angles for centers of the elements at ``radius``.
 
         '''
-        if len(self.phi) == 1:
-            return self.phi
+        if np.size(self.phi) == 1:
+            return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
         element_angle = self.d_element[1] / radius
-- 
2.43.0


From a2ee3d28c6f51c75e13108d88b8a6d51c8178772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:21 +0000
Subject: [PATCH 30/92] fix: RectangularGrid with both limits of a range the
 same has one row

---
 marxs/design/rowland.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index c2d6a33..b6accff 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -696,8 +696,8 @@ class RectangularGrid(ElementsOnTorus):
         width_y = n_y * self.d_element[0]
         width_z = n_z * self.d_element[1]
 
-        ypos = np.arange(0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]), self.y_range[1], self.d_element[0])
-        zpos = np.arange(0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]), self.z_range[1], self.d_element[1])
+        ypos = 0.5 * (self.y_range[0] - width_y + self.y_range[1] + self.d_element[0]) + np.arange(n_y) * self.d_element[0]
+        zpos = 0.5 * (self.z_range[0] - width_z + self.z_range[1] + self.d_element[1]) + np.arange(n_z) * self.d_element[1]
 
         ypos, zpos = np.meshgrid(ypos, zpos)
 
-- 
2.43.0


From 50607410adc62acd8135b668aaa965bc27dbd0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:14 +0000
Subject: [PATCH 31/92] fix: channels beyond the second of a double Rowland
 design use their own torus

---
 marxs/design/rowland.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index b6accff..f3236ee 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -536,10 +536,7 @@ def add_offset_double_rowland_channels(geometry,
     for channel in geometry['pos_opt_ax']:
         shift_matrix = np.eye(4)
         shift_matrix[:, 3] = geometry['pos_opt_ax'][channel][:]
-        if channel in ['1', '2']:
-            base_rowland = 'rowland_central'
-        elif channel in ['1m', '2m']:
-            base_rowland = 'rowland_central_m'
+        base_rowland = 'rowland_central_m' if 'm' in channel else 'rowland_central'
         namer = 'rowland_' + channel
         geometry[namer] = RowlandTorus(geometry[base_rowland].R,
                                        geometry[base_rowland].r,
-- 
2.43.0


From 4f8d6cbba7dbceccdc804b09daacc37b7cee6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:48 +0000
Subject: [PATCH 32/92] fix: elements mirrored across the hole of a
 CircularMeshGrid do not overlap

---
 marxs/design/rowland.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index f3236ee..faecda2 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -749,6 +749,8 @@ class CircularMeshGrid(ElementsOnTorus):
                     n_z = int(np.ceil((z_outer - z_inner) / self.d_element[1]))
                     z_width = n_z * self.d_element[1]
                     z = np.arange(z_mid - z_width / 2, z_outer, self.d_element[1])
+                    # The elements on the other side mirror these, do not overlap
+                    z += max(0, 0.5 * self.d_element[1] - z[0])
                     z = np.hstack([-z, z])
 
             ypos.extend([y] * len(z))
-- 
2.43.0


From df8db04cf4c13d892ba869e331dc1d32e4b91e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:02 +0000
Subject: [PATCH 33/92] fix: accept intersections with the torus that are exact
 to rounding error

---
 marxs/design/rowland.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index faecda2..cadf8d1 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -177,7 +177,9 @@ class RowlandTorus(MarxsElement, Geometry):
                             # relative to r.
                             max(np.abs(self.r - self.R), self.r * 1e-2) * 0.1,
                             args=(origin, v))
-        if not out.success:
+        # When the solution is reached to within the rounding error, the solver
+        # cannot improve it any further and might report that as a failure.
+        if not (out.success or np.all(np.abs(out.fun) < 1e-12 * (self.R + self.r)**4)):
             raise Exception('Intersection with torus not found.')
         else:
             return e2h(origin + out.x[..., None] * v, 1)
-- 
2.43.0


From 9edc1f96c01a108ca27ba450454beb7553e85a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 34/92] fix: resolving power is calculated for 20 photons, as
 documented

---
 marxs/analysis/gratings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c895d80..c0000c9 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -259,7 +259,7 @@ def resolvingpower_from_photonlist(photons, orders,
 
     for i, o in enumerate(orders):
         ind = (photons[ordercol] == o)
-        if ind.sum() > 20:
+        if ind.sum() >= 20:
             # There is a .value here to work around https://github.com/astropy/astropy/issues/13281
             meanpos, medianpos, stdpos = sigma_clipped_stats(photons[col][ind].value)
         else:
-- 
2.43.0


From 6babef65fe89838d82900b750e3b1e0537160309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 35/92] fix: lost photons do not shift the zero order on a user
 defined detector

---
 marxs/analysis/gratings.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c0000c9..872757a 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -107,6 +107,8 @@ def resolvingpower_per_order(gratings, photons, orders, detector=None,
         # Find position of order 0.
         pg = photons.copy()
         pg = det(pg)
+        # Remove photons that miss a mirror etc.
+        pg = pg[pg['probability'] > 0.]
         zeropos, temp1, temp2 = sigma_clipped_stats(pg[col])
 
     for i, order in enumerate(orders):
-- 
2.43.0


From 04eba23c8ce63b5703bcefd719b1db1266453a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 36/92] fix: sub-aperture sectors for any center angle, with
 the exact opening

---
 marxs/analysis/gratings.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index 872757a..c1752fe 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -383,9 +383,10 @@ def identify_photon_in_subaperture(angle, max_ang, ang_0=np.pi / 2):
         to the ``angle=0`` line, which is the most common sub-aperturing layout with
         subaperturing perpendicular to the dispersion direction as ``angle=0``.
     '''
-    indplus = np.isclose(np.mod(angle, 2 * np.pi), ang_0, atol=max_ang)
-    indminus = np.isclose(np.mod(angle, 2 * np.pi), 2 * np.pi - ang_0, atol=max_ang)
-    return indplus | indminus
+    def distance(ang):
+        return np.abs(np.mod(angle - ang + np.pi, 2 * np.pi) - np.pi)
+
+    return (distance(ang_0) <= max_ang) | (distance(-ang_0) <= max_ang)
 
 
 class CaptureResAeff():
-- 
2.43.0


From c8d754b5e33e4f5747b5abe2ff3870fbdc43445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:50 +0000
Subject: [PATCH 37/92] fix: facet_table does not rename the output columns of
 the plane passed in

---
 marxs/analysis/coords.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marxs/analysis/coords.py b/marxs/analysis/coords.py
index df61710..ca44920 100644
--- a/marxs/analysis/coords.py
+++ b/marxs/analysis/coords.py
@@ -1,4 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
+from copy import copy
+
 import numpy as np
 from astropy.table import Table
 
@@ -72,6 +74,8 @@ def facet_table(container, project_plane=ProjectOntoPlane()):
             >>> from astropy import table
             >>> table.join(photons, facettab, join_type='left')  # doctest: +SKIP
     '''
+    # work on a copy, the caller's plane keeps its column names
+    project_plane = copy(project_plane)
     project_plane.loc_coos_name = ['facet_projx', 'facet_projy']
 
     facetpos = h2e(np.stack(container.elem_pos)[:, :, 3])
-- 
2.43.0


From 0f4d902a0d33f8fe9c9b2059ec3b89bb0566c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 38/92] fix: averaged resolving power has no unit of area

---
 marxs/analysis/gratings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/analysis/gratings.py b/marxs/analysis/gratings.py
index c1752fe..61397b6 100644
--- a/marxs/analysis/gratings.py
+++ b/marxs/analysis/gratings.py
@@ -209,8 +209,9 @@ def average_R_Aeff(r, aeff, axis=None):
         Average resolving power
     '''
     aeff_avg = aeff.sum(axis=axis)
+    # the weights only, without the unit they might have
     res_avg = np.ma.average(np.ma.masked_invalid(r),
-                            weights=aeff, axis=axis)
+                            weights=getattr(aeff, 'value', aeff), axis=axis)
     return res_avg, aeff_avg
 
 
-- 
2.43.0


From 48f06d7495269cb82086b68dc889cfb8089e6ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 39/92] fix: a column assigned to a ColOrKeyTable replaces the
 keyword of that name

---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 182bc09..b91960f 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,6 +78,9 @@ class ColOrKeyTable(QTable):
                 self.remove_column(item)
         else:
             super().__setitem__(item, value)
+            # The values are in the column now, not in the header any longer
+            if isinstance(item, str):
+                self.meta.pop(item, None)
 
 
 def _check_mandatory_keywords(tab, extra_keywords=[]):
-- 
2.43.0


From 4a950bc62f3c29eb3f8c94a5e8f1942b1a7b1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 40/92] fix: only values that fit into a FITS header are stored
 as keyword

---
 marxs/reduction/ogip.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index b91960f..e9fd6e7 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -46,7 +46,7 @@ class OGIPFormatError(Exception):
 class ColOrKeyColumn(Column):
     def __setitem__(self, index, value):
         super().__setitem__(index, value)
-        if np.all(self.data == self.data[0]):
+        if _is_constant(self):
             self._parent_table().meta[self.name] = self.data[0]
             self._parent_table().remove_column(self.name)
         else:
@@ -56,6 +56,22 @@ class ColOrKeyColumn(Column):
                     del self._parent_table().meta[self.name]
 
 
+def _is_constant(value):
+    '''Check if all rows have one value that a FITS header can hold
+
+    FITS header keywords can neither hold arrays, nor units, masked or
+    non-finite values.
+    '''
+    if getattr(value, 'unit', None) not in (None, u.dimensionless_unscaled):
+        return False
+    if np.ma.is_masked(value) or np.ndim(value) > 1 or np.size(value) == 0:
+        return False
+    value = np.asanyarray(value).flatten()
+    if value.dtype.kind in 'fc' and not np.isfinite(value[0]):
+        return False
+    return value.dtype.kind != 'O' and bool(np.all(value == value[0]))
+
+
 class ColOrKeyTable(QTable):
     Column = ColOrKeyColumn
 
@@ -68,8 +84,8 @@ class ColOrKeyTable(QTable):
             return super().__getitem__(item)
 
     def __setitem__(self, item, value):
-        if isinstance(item, str) and (np.ndim(value) == 0 or
-                                      np.all(np.asanyarray(value) == value[0])):
+        if isinstance(item, str) and _is_constant(value):
+            value = getattr(value, 'value', value)
             if np.ndim(value) == 0:
                 self.meta[item] = value
             else:
-- 
2.43.0


From 9827f0a801d482fc7101feb5213b0f1630e5995e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 41/92] fix: elements of a column that is not part of a table
 can be set

---
 marxs/reduction/ogip.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index e9fd6e7..d9ef370 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -46,6 +46,9 @@ class OGIPFormatError(Exception):
 class ColOrKeyColumn(Column):
     def __setitem__(self, index, value):
         super().__setitem__(index, value)
+        if self._parent_table is None or self._parent_table() is None:
+            # e.g. a copy or slice of a column: No table to keep consistent
+            return
         if _is_constant(self):
             self._parent_table().meta[self.name] = self.data[0]
             self._parent_table().remove_column(self.name)
-- 
2.43.0


From e3f89d1dc36965c2f3aa2b7e0953ce5aed6a6075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 42/92] fix: assigning rows of a ColOrKeyTable can make columns
 constant

---
 marxs/reduction/ogip.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index d9ef370..5ac9b4b 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -6,7 +6,7 @@ keywords are missing. Need to be stricter?
 '''
 from warnings import warn
 import numpy as np
-from astropy.table import QTable, Column, Table
+from astropy.table import QTable, Column, Table, Row, TableColumns
 from astropy.io import fits
 import astropy.units as u
 
@@ -51,7 +51,10 @@ class ColOrKeyColumn(Column):
             return
         if _is_constant(self):
             self._parent_table().meta[self.name] = self.data[0]
-            self._parent_table().remove_column(self.name)
+            # New object, because the table might be iterating over its columns
+            self._parent_table().columns = TableColumns(
+                {n: c for n, c in self._parent_table().columns.items()
+                 if n != self.name})
         else:
             if self.name not in self._parent_table().colnames:
                 self._parent_table().columns[self.name] = self
-- 
2.43.0


From dac1763c5f6edea9ad6f1ab1d75e5557925abf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 43/92] fix: rows of a ColOrKeyTable give access to values
 stored as keyword

---
 marxs/reduction/ogip.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 5ac9b4b..c6bbee8 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -78,8 +78,16 @@ def _is_constant(value):
     return value.dtype.kind != 'O' and bool(np.all(value == value[0]))
 
 
+class ColOrKeyRow(Row):
+    def __getitem__(self, item):
+        if isinstance(item, str) and item in self._table.meta:
+            return self._table[item]
+        return super().__getitem__(item)
+
+
 class ColOrKeyTable(QTable):
     Column = ColOrKeyColumn
+    Row = ColOrKeyRow
 
     def __getitem__(self, item):
         if isinstance(item, str) and item in self.meta:
-- 
2.43.0


From 5780a4aa6d759d308ce66ae58dbdaa095bbaca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:37 +0000
Subject: [PATCH 44/92] fix: required columns may be stored as keyword in the
 file that is read

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index c6bbee8..7b9df8e 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -124,7 +124,7 @@ def _check_col_and_type(tab, req):
     for col, dtype, ndim in req:
         if not ((col in tab.colnames) or (col in tab.meta)):
             raise OGIPFormatError(f'Required column {col} missing.')
-        cancast = [np.can_cast(tab[col].dtype, d, 'unsafe') for d in dtype]
+        cancast = [np.can_cast(np.asarray(tab[col]).dtype, d, 'unsafe') for d in dtype]
         if not any(cancast):
             raise OGIPFormatError(f'dtype for {col} must be {dtype}.')
         if ((ndim is None) or
-- 
2.43.0


From bc6050bf4dabecb2da16d50fd157ecdab1d5fb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 45/92] fix: DETCHANS is the number of channels in both tables
 of an RMF

---
 marxs/reduction/ogip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 7b9df8e..fc243d8 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -261,7 +261,7 @@ class RMF:
         self.matrix = matrix
         self.ebounds = ebounds
         for m in [self.matrix, self.ebounds]:
-            m.meta['DETCHANS'] = len(m)
+            m.meta['DETCHANS'] = len(self.ebounds)
             if CHANTYPE is not None:
                 m.meta['CHANTYPE'] = CHANTYPE
             if HDUCLAS3 is not None:
-- 
2.43.0


From 8be35d0b1c5631fe37a4cb908a9ede6f11823cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 46/92] fix: expand RMF rows for any first channel and for
 fixed length arrays

---
 marxs/reduction/ogip.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index fc243d8..f6d1b12 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -355,6 +355,21 @@ class RMF:
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
+    def _expand_row(self, row):
+        '''Indices into ebounds and values for the entries stored in a row
+
+        Works for variable length arrays, for fixed length arrays (which are
+        padded at the end) and if there is just one number per row.
+        '''
+        # The number of the first channel is 1, unless stated otherwise
+        tlmin = self.matrix.meta.get('TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1), 1)
+        f_chan = np.atleast_1d(row['F_CHAN'])
+        n_chan = np.atleast_1d(row['N_CHAN'])
+        ind = np.concatenate([np.zeros(0, dtype=int)] +
+                             [f_chan[i] - tlmin + np.arange(n_chan[i])
+                              for i in range(row['N_GRP'])]).astype(int)
+        return ind, np.atleast_1d(row['MATRIX'])[:len(ind)]
+
     @property
     def en_mid(self):
         return 0.5 * (self.ebounds['E_MIN'] + self.ebounds['E_MAX'])
@@ -374,15 +389,8 @@ class RMF:
             rmf value in each bin
         '''
         rmf = np.zeros(len(self.en_mid))
-        row = self.row(energy)
-        tlmin = self.matrix.meta['TLMIN{}'.format(self.matrix.colnames.index('F_CHAN') + 1)]
-        for i in range(row['N_GRP']):
-            # Python is 0 indexed, FITS is 1 indexed
-            chans = slice(row['F_CHAN'][i] - tlmin,
-                          row['F_CHAN'][i] + row['N_CHAN'][i] - tlmin)
-            matindex = np.cumsum(np.concatenate(([0], row['N_CHAN'])))
-            mat = slice(matindex[i], matindex[i + 1])
-            rmf[chans] = row['MATRIX'][mat]
+        ind, values = self._expand_row(self.row(energy))
+        rmf[ind] = values
         return self.ebounds['E_MIN'], self.ebounds['E_MAX'], rmf
 
     def rmf(self, energy):
@@ -399,12 +407,8 @@ class RMF:
         rmf : array
             rmf value in each bin
         '''
-        row = self.row(energy)
-        ind = np.concatenate([np.arange(row['F_CHAN'][i] - 1,
-                                        row['F_CHAN'][i] + row['N_CHAN'][i]-1)
-                              for i in range(row['N_GRP'])])
-        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], \
-            np.asanyarray(row['MATRIX'])
+        ind, values = self._expand_row(self.row(energy))
+        return self.ebounds['E_MIN'][ind], self.ebounds['E_MAX'][ind], values
 
     def rmf_angstrom(self, energy):
         en_lo, en_hi, rmf = self.rmf(energy)
-- 
2.43.0


From dc1a6b11fd76bfc1ae997676e21862a379bd843e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 47/92] fix: write RMF where no element is above the threshold

---
 marxs/reduction/ogip.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index f6d1b12..f21fed2 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -482,8 +482,8 @@ class RMF:
         m = self.matrix
         # int16 is recommended in OGIP, but too small for e.g. Arcus
         # So, determine smallest inttype that works
-        maxvalf = np.concatenate(m['F_CHAN']).max()
-        maxvaln = np.concatenate(m['N_CHAN']).max()
+        maxvalf = np.concatenate(m['F_CHAN']).max(initial=0)
+        maxvaln = np.concatenate(m['N_CHAN']).max(initial=0)
         maxval = max(maxvalf, maxvaln)
         for inttype in [np.int16, np.int32, np.int64]:
             if inttype(maxval) == maxval:
-- 
2.43.0


From 8e90b7f05eb48b39c43441fd6b20655801fb0d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 48/92] fix: RMF from Gaussian sigma given in energy or any
 wavelength unit

---
 marxs/reduction/ogip.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index f21fed2..b6b33a3 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -533,9 +533,11 @@ class RMF:
         # This module requires sherpa, so we import it down here.
         # That way, the rest of this class can be used even when Sherpa is not installed.
         from marxs.reduction.lsfparm import make_rmf
+        # QTable, so that units are used correctly, and a copy to keep the input as it is
+        sigmatab = QTable(sigmatab)
         if 'energy' in sigmatab.colnames and 'wave' not in sigmatab.colnames:
-            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalenicies=u.spectral())
-            sigmatab['sigma_wave'] = sigmatab['wave'] * sigmatab['sigma_energy'] / sigmatab['energy']
+            sigmatab['wave'] = sigmatab['energy'].to(u.Angstrom, equivalencies=u.spectral())
+            sigmatab['sigma_wave'] = sigmatab['wave'] * (sigmatab['sigma_energy'] / sigmatab['energy'])
         sigmatab.sort('wave')
 
         lsfparm = Table({'NUM_WIDTHS': [1],
@@ -543,7 +545,7 @@ class RMF:
                          'WIDTHS': [[1.]],
                          'NUM_LAMBDAS': [len(sigmatab)],
                          'EE_FRACS': [np.ones((1, len(sigmatab)))],
-                         'LAMBDAS': [sigmatab['wave']],
+                         'LAMBDAS': [sigmatab['wave'].to(u.Angstrom).value],
                          'GAUSS1_PARMS': [np.stack([np.ones(len(sigmatab)),
                                            sigmatab['sigma_wave'].to(u.Angstrom).value,
                                            sigmatab['wave'].to(u.Angstrom).value
-- 
2.43.0


From 5f8cb3f0df0712c080b84c2f26ee6e8f4106e1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 49/92] fix: width of order-sorting region is measured from the
 nominal energy

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 360a759..28e20da 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -81,7 +81,7 @@ class OSIPBase(ABC):
         osiprange = self.osip_range(chan_mid, order)
         osiprange = osiprange.to(u.eV, equivalencies=u.spectral())
         E = chan_mid.to(u.eV, equivalencies=u.spectral())
-        return E + osiprange * np.array([-1, 1])[:, np.newaxis]
+        return (osiprange - E) * np.array([-1, 1])[:, np.newaxis]
 
     @u.quantity_input(chan_mid=u.keV, equivalencies=u.spectral())
     def osip_range(self, chan_mid, order) -> u.eV:
-- 
2.43.0


From 932437196188c547080855ce8ab820fe83a4cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 50/92] fix: summary plot works for ARFs without optional
 wavelength columns

---
 marxs/reduction/osip.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index 28e20da..a8f6248 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -321,7 +321,8 @@ class OSIPBase(ABC):
             # Interpolate on common wavelength grid. Good enough for plotting.
             # Interp requires sorted input
             # but ARFs are reverse-sorted in wavelength
-            specresp += np.interp(wavegrid, arf['BIN_LO'][::-1],
+            bin_lo = arf['ENERG_HI'].to(u.Angstrom, equivalencies=u.spectral())
+            specresp += np.interp(wavegrid, bin_lo[::-1],
                                   arf['SPECRESP'][::-1])
 
         fig, ax = plt.subplots()
-- 
2.43.0


From 19ffa5a990565fd5747ade7975b16eb1b06311b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 51/92] fix: an ARF without required columns is not written

---
 marxs/reduction/ogip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index b6b33a3..9116c7d 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -148,6 +148,7 @@ class ARF(ColOrKeyTable):
                           'HDUCLAS2': 'SPECRESP',
                           })
         _check_mandatory_keywords(self)
+        _check_col_and_type(self, self.required_cols)
         super().write(*args, **kwargs, format='fits')
 
     @classmethod
-- 
2.43.0


From 6d4bbf831ac758ad123cb1132c932cd9a344f816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:04 +0000
Subject: [PATCH 52/92] fix: LSFPARM tables with several widths (interp2d does
 not exist any longer in scipy)

---
 marxs/reduction/lsfparm.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/lsfparm.py b/marxs/reduction/lsfparm.py
index 7bd0223..93b6b99 100644
--- a/marxs/reduction/lsfparm.py
+++ b/marxs/reduction/lsfparm.py
@@ -239,6 +239,22 @@ class interp1d_2dsignature(interpolate.interp1d):
         return super().__call__(y)
 
 
+class interp2d_2dsignature():
+    '''Interpolate on a grid, signature of the former `scipy.interpolate.interp2d`
+
+    For use with LSFPARM files that have several WIDTHS.
+    '''
+    def __init__(self, x, y, z, kind='linear', **kwargs):
+        k = {'linear': 1, 'cubic': 3, 'quintic': 5}[kind]
+        self.spline = interpolate.RectBivariateSpline(x, y, z,
+                                                      kx=min(k, len(x) - 1),
+                                                      ky=min(k, len(y) - 1),
+                                                      **kwargs)
+
+    def __call__(self, x, y):
+        return self.spline.ev(x, y)
+
+
 def CALDB_interp(row, kind='cubic', **kwargs):
     '''Get interpolating functions from values in LSFPARM
 
@@ -248,12 +264,12 @@ def CALDB_interp(row, kind='cubic', **kwargs):
         Table row from CALDB LSFPARM file
     **kwargs
         All other keywords arguments are passed to
-        `scipy.interpolate.interp1d` or `scipy.interpolate.interp2d`.
+        `scipy.interpolate.interp1d` or `scipy.interpolate.RectBivariateSpline`.
     '''
     interpolators = {}
 
     if row['NUM_WIDTHS'] > 1:
-        interp = interpolate.interp2d
+        interp = interp2d_2dsignature
     else:
         interp = interp1d_2dsignature
 
-- 
2.43.0


From d67326c0c844d0abc593b72796888e4d25d16cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:18 +0000
Subject: [PATCH 53/92] fix: assigning a quantity to all rows of an existing
 column keeps the unit and the values

---
 marxs/reduction/ogip.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 9116c7d..2b6ebc8 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -107,6 +107,11 @@ class ColOrKeyTable(QTable):
             if item in self.colnames:
                 self.remove_column(item)
         else:
+            if (isinstance(item, str) and item in self.colnames
+                and np.ndim(value) == 0):
+                # Replace the column. Setting all its elements instead would
+                # keep the old dtype and drop the unit of the value.
+                value = np.broadcast_to(value, (len(self), ), subok=True)
             super().__setitem__(item, value)
             # The values are in the column now, not in the header any longer
             if isinstance(item, str):
-- 
2.43.0


From 6334ff328257f6567cc728e0b3eec8ef3c92d443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:02 +0000
Subject: [PATCH 54/92] fix: select rows of an RMF by wavelength

---
 marxs/reduction/ogip.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 2b6ebc8..1017317 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -355,9 +355,10 @@ class RMF:
         hdulist.writeto(rmffile, overwrite=overwrite, checksum=True)
 
     def row(self, energy):
-        with u.set_enabled_equivalencies(u.spectral()):
-            rowind = (energy >= self.matrix['ENERG_LO']) & \
-                (energy < self.matrix['ENERG_HI'])
+        # Compare energies. If wavelengths were compared, the order is reversed.
+        energy = energy.to(u.keV, equivalencies=u.spectral())
+        rowind = (energy >= self.matrix['ENERG_LO']) & \
+            (energy < self.matrix['ENERG_HI'])
         rows = rowind.nonzero()[0][0]
         return self.matrix[rows]
 
-- 
2.43.0


From 0654a5f3a261511aecf3fff71dbf60471474059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:21 +0000
Subject: [PATCH 55/92] fix: RMF with a single row and several channel groups
 can be written

---
 marxs/reduction/ogip.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/reduction/ogip.py b/marxs/reduction/ogip.py
index 1017317..368962c 100644
--- a/marxs/reduction/ogip.py
+++ b/marxs/reduction/ogip.py
@@ -505,8 +505,10 @@ class RMF:
             matrix[i, :len(r['MATRIX'])] = r['MATRIX']
         # if max(N_GRP) == 1 then we can squueze out the first dimension
         # and write a number per row instead of an array.
-        m['F_CHAN'] = fchan.squeeze()
-        m['N_CHAN'] = nchan.squeeze()
+        if fchan.shape[1] == 1:
+            fchan, nchan = fchan[:, 0], nchan[:, 0]
+        m['F_CHAN'] = fchan
+        m['N_CHAN'] = nchan
         m['MATRIX'] = matrix
 
     @staticmethod
-- 
2.43.0


From a961c8b7f2cdc6f564e8139d1e6bcd77f5ef1b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:23 +0000
Subject: [PATCH 56/92] fix: order-sorting factor has the shape of the input
 for orders on different sides, too

---
 marxs/reduction/osip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/reduction/osip.py b/marxs/reduction/osip.py
index a8f6248..09ef639 100644
--- a/marxs/reduction/osip.py
+++ b/marxs/reduction/osip.py
@@ -137,7 +137,7 @@ class OSIPBase(ABC):
         '''
 
         if np.sign(o_nominal) != np.sign(o_true):
-            return 0.
+            return np.zeros(chan_mid_nominal.shape)
 
         osiprange = self.osip_range(chan_mid_nominal, o_nominal)
         Etrue = chan_mid_nominal.to(u.eV, equivalencies=u.spectral()) * \
-- 
2.43.0


From 0f4f8118747df1679704ea9ef3af4e116987d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 57/92] fix: an empty photon list has a consistent energy

---
 marxs/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/base/base.py b/marxs/base/base.py
index 4d8c121..72f7965 100644
--- a/marxs/base/base.py
+++ b/marxs/base/base.py
@@ -189,7 +189,7 @@ def check_energy_consistent(photons):
 
     If there is no energy colum, then this also passes.
     '''
-    if 'energy' in photons.colnames:
+    if 'energy' in photons.colnames and len(photons) > 0:
         assert np.allclose(photons['energy'], photons['energy'][0])
 
 
-- 
2.43.0


From 7cabb899745dfcfeb59bc3689e6fb3185bb35484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 58/92] fix: RadialMirrorScatter gives valid directions for
 rays through its center

---
 marxs/optics/scatter.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/marxs/optics/scatter.py b/marxs/optics/scatter.py
index 573cf46..ae486dd 100644
--- a/marxs/optics/scatter.py
+++ b/marxs/optics/scatter.py
@@ -21,6 +21,28 @@ from ..math.polarization import parallel_transport
 from .base import FlatOpticalElement
 
 
+def perpendicular_vectors(dir):
+    '''Find two vectors that are perpendicular to a direction and to each other
+
+    Parameters
+    ----------
+    dir : np.array of shape (N, 3)
+        direction vectors
+
+    Returns
+    -------
+    v1, v2 : np.array of shape (N, 3)
+        ``v2`` is the cross-product of ``dir`` and ``v1``.
+    '''
+    # Start by making a set of vectors that at least are not parallel to dir
+    guessvec = np.zeros_like(dir)
+    ind = np.abs(dir[:, 0]) < 0.9
+    guessvec[ind, 0] = 1
+    guessvec[~ind, 1] = 1
+    v1 = np.cross(dir, guessvec)
+    return v1, np.cross(dir, v1)
+
+
 class RadialMirrorScatter(FlatOpticalElement):
     '''Add scatter to any sort of radial mirror.
 
@@ -51,6 +73,11 @@ class RadialMirrorScatter(FlatOpticalElement):
         center = self.pos4d[:-1, -1]
         radial = h2e(photons['pos'][intersect].data) - center
         perpplane = np.cross(h2e(photons['dir'][intersect].data), radial)
+        # The plane of reflection is not defined for rays through the center.
+        # In that case, any plane that contains the ray will do.
+        ind = np.linalg.norm(perpplane, axis=1) <= 1e-12 * np.linalg.norm(radial, axis=1)
+        if ind.any():
+            radial[ind], perpplane[ind] = perpendicular_vectors(h2e(photons['dir'][intersect].data[ind]))
 
         # np.random.normal does not work with scale=0
         # so special case that here.
-- 
2.43.0


From 603f5472b266ca58d46517621d2dcff85c3da455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:50 +0000
Subject: [PATCH 59/92] fix: photons lost at one Brewster mirror stay lost at
 the next

---
 marxs/optics/multiLayerMirror.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marxs/optics/multiLayerMirror.py b/marxs/optics/multiLayerMirror.py
index 5360a1e..49ab1a1 100644
--- a/marxs/optics/multiLayerMirror.py
+++ b/marxs/optics/multiLayerMirror.py
@@ -75,6 +75,9 @@ class FlatBrewsterMirror(FlatOpticalElement):
         Es2 = fresnel_refl_s * p_v_s ** 2
         Ep2 = fresnel_refl_p * p_v_p ** 2
         intensity = Es2 + Ep2
+        # Photons that were not reflected by a mirror earlier in the beam
+        # have no polarization and stay lost.
+        intensity[np.isnan(polarization).any(axis=1)] = 0
         # Sometimes, the numerics in the square make probabilities > 1
         # So, we clip, but raise an error is it's >> 1
         if np.any(intensity > 1.001):
-- 
2.43.0


From 2369b67eb844bdf6928e7c7749cbd7af4d59bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 60/92] Revert "fix: phi=0 of a GratingArrayStructure is on the
 y axis, as documented"

This reverts commit 283d0c7f3ae9a58b3ee5c29af4e5e406044eec2e.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index cadf8d1..adc6e5e 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -890,4 +890,4 @@ class GratingArrayStructure(ElementsOnTorus):
         # Turn lists of lists into flat numpy array
         radii = np.concatenate([[radii[i]] * len(a) for i, a in enumerate(angles)])
         angles = np.concatenate(angles)
-        return radii * np.cos(angles), radii * np.sin(angles)
+        return radii * np.sin(angles), radii * np.cos(angles)
-- 
2.43.0


From d5cba3a0b9ef1bdfa17d5bafd2138c367f73fdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:39 +0000
Subject: [PATCH 61/92] Revert "fix: angle covered by one element on an arc is
 size / radius"

This reverts commit a766ea3d5d4449e0f386514a3a76e360d6ba7000.
---
 marxs/design/rowland.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index adc6e5e..f71db45 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -876,7 +876,7 @@ class GratingArrayStructure(ElementsOnTorus):
             return np.atleast_1d(self.phi)
         # arc is most crowded on inner radius
         n = self.max_elements_on_arc(radius - self.d_element[0] / 2)
-        element_angle = self.d_element[1] / radius
+        element_angle = self.d_element[1] / (2. * np.pi * radius)
         # thickness of space between elements, distributed equally
         d_between = (anglediff(self.phi) - n * element_angle) / (n + 1)
         centerangles = d_between + 0.5 * element_angle + np.arange(n) * (d_between + element_angle)
-- 
2.43.0


From fadf27117f225841719dce59fe0cca9cd985d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 62/92] fix: combined triangulations of different size refer to
 their own points

---
 marxs/visualization/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/utils.py b/marxs/visualization/utils.py
index c905bd8..f1914a7 100644
--- a/marxs/visualization/utils.py
+++ b/marxs/visualization/utils.py
@@ -290,8 +290,8 @@ def combine_disjoint_triangulations(list_xyz, list_triangles):
 
     '''
     xyz = np.vstack(list_xyz)
-    n_offset = np.cumsum([a.shape[0] for a in list_xyz])
-    n_offset -= n_offset[0]
+    n_points = [a.shape[0] for a in list_xyz]
+    n_offset = np.cumsum(n_points) - n_points
     triangles = np.vstack([list_triangles[i] + n_offset[i] for i in
                            range(len(n_offset))])
     return xyz, triangles
-- 
2.43.0


From 2f03bad5d14b3dba873fb9d422d658a5d768381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 63/92] fix: containers can be exported to json

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 51fd38b..59821be 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -88,7 +88,7 @@ def container(obj, display=None,  **kwargs):
     '''
     out = []
     for elem in obj.elements:
-        elemout = plot_obj(elem, elem.display)
+        elemout = plot_object(elem, elem.display)
         if isinstance(elemout, list):
             out.extend(elemout)
         elif (elemout is None):
-- 
2.43.0


From ed12c975549b3b29f151a2e9a299da014f37fa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 64/92] fix: write information from photon list to json

---
 marxs/visualization/threejsjson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index 59821be..b7d7a0a 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -219,7 +219,7 @@ def write(fileobject, data, photons=None):
              'elements': data}
 
     if photons is not None:
-        data['runinfo'] = photons.meta()
+        jdata['runinfo'] = photons.meta
 
     if HAS_JSONSCHEMA:
         path =  os.path.abspath(os.path.dirname(__file__))
@@ -231,7 +231,8 @@ def write(fileobject, data, photons=None):
     else:
         warnings.warn('Module jsonschema not installed. json file will be written without further verification.')
 
-    json.dump(jdata, fileobject)
+    # str for values such as times or quantities in the photon list header
+    json.dump(jdata, fileobject, default=str)
 
 
 plot_registry = {'triangulation': triangulation,
-- 
2.43.0


From d7602a81bd81767f991d9a181d23e9ef0b578eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 65/92] fix: placement of a torus in json is column-major as
 for other shapes

---
 marxs/visualization/threejsjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/threejsjson.py b/marxs/visualization/threejsjson.py
index b7d7a0a..0a82d87 100644
--- a/marxs/visualization/threejsjson.py
+++ b/marxs/visualization/threejsjson.py
@@ -151,7 +151,7 @@ def torus(obj, display, theta0=0., thetaarc=2*np.pi, phi0=0., phiarc=np.pi * 2):
     out['geometrypars'] = (obj.R, obj.r,
                            int(np.rad2deg(theta[1])), int(np.rad2deg(phi[1])),
                            theta[1], theta[0], phi[1], phi[0])
-    out['pos4d'] = [obj.pos4d.flatten().tolist()]
+    out['pos4d'] = [obj.pos4d.T.flatten().tolist()]
 
     if not ('side' in display):
         out['materialproperties']['side'] = 2
-- 
2.43.0


From 3cc22f4627d431f3e8dcea45742ce3b83874934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 66/92] fix: x3d rays with one value per point are colored by
 their first point

---
 marxs/visualization/x3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/visualization/x3d.py b/marxs/visualization/x3d.py
index 24c4cd1..5a29c27 100644
--- a/marxs/visualization/x3d.py
+++ b/marxs/visualization/x3d.py
@@ -423,7 +423,7 @@ def plot_rays(
         pass
     elif scalar.shape == (n, N):
         warn('Color Per Vertex does not yet work in the X3D library used. Using only color for first node in each ray.')
-        scalar = scalar[0, :]
+        scalar = scalar[:, 0]
     else:
         raise ValueError('Scalar quantity for each point must have shape ({0},) or ({0}, {1})'.format(n, N))
 
-- 
2.43.0


From e7a8a89952f5ce5a2c3051eb1d95ab5fbaf94ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:31 +0000
Subject: [PATCH 67/92] fix: a complete torus can be displayed without setting
 limits

---
 marxs/design/rowland.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/design/rowland.py b/marxs/design/rowland.py
index f71db45..cc9ca6d 100644
--- a/marxs/design/rowland.py
+++ b/marxs/design/rowland.py
@@ -184,7 +184,7 @@ class RowlandTorus(MarxsElement, Geometry):
         else:
             return e2h(origin + out.x[..., None] * v, 1)
 
-    def parametric_surface(self, theta, phi, display):
+    def parametric_surface(self, theta=None, phi=None, display={}):
         '''Parametric representation of surface of torus.
 
         In contrast to `parametric` the input parameters here are 1-d arrays
@@ -194,15 +194,19 @@ class RowlandTorus(MarxsElement, Geometry):
         ----------
         theta : np.array
             Points on the Rowland circle (specified in rad, where 0 is on the
-            optical axis across from the focal point).
+            optical axis across from the focal point). Set to ``None`` to use
+            the full circle.
         phi : np.array
             ``phi`` rotates the Rowland circle to make up the Rowland torus.
+            Set to ``None`` to use the full torus.
 
         Returns
         -------
         xyzw : np.array
             Torus coordinates in global homogeneous coordinate system.
         '''
+        theta = np.linspace(0, 2 * np.pi, self.n_points) if theta is None else np.asanyarray(theta)
+        phi = np.linspace(0, 2 * np.pi, self.n_points) if phi is None else np.asanyarray(phi)
         if (phi.ndim != 1) or (theta.ndim != 1):
             raise ValueError('input parameters have 1-dim shape.')
         theta, phi = np.meshgrid(theta, phi)
-- 
2.43.0


From ed8f7396302dab065f9615352f0cc0f96e960c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:32 +0000
Subject: [PATCH 68/92] fix: hole of a baffle is displayed in the plane of the
 baffle

---
 marxs/optics/baffles.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/marxs/optics/baffles.py b/marxs/optics/baffles.py
index e49a4a3..edfaef1 100644
--- a/marxs/optics/baffles.py
+++ b/marxs/optics/baffles.py
@@ -42,14 +42,14 @@ class Baffle(FlatOpticalElement):
         '''
         r_out = self.display.get('outer_factor', 3)
         g = self.geometry
-        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) + h2e(g['v_y']),
-                                                      h2e(-g['v_x']) - h2e(g['v_y']),
-                                                      h2e( g['v_x']) - h2e(g['v_y'])
+        outer = h2e(g['center']) + r_out * np.vstack([h2e( g['v_y']) + h2e(g['v_z']),
+                                                      h2e(-g['v_y']) + h2e(g['v_z']),
+                                                      h2e(-g['v_y']) - h2e(g['v_z']),
+                                                      h2e( g['v_y']) - h2e(g['v_z'])
         ])
-        inner =  h2e(g['center']) + np.vstack([h2e( g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) + h2e(g['v_y']),
-                                               h2e(-g['v_x']) - h2e(g['v_y']),
-                                               h2e( g['v_x']) - h2e(g['v_y'])
+        inner =  h2e(g['center']) + np.vstack([h2e( g['v_y']) + h2e(g['v_z']),
+                                               h2e(-g['v_y']) + h2e(g['v_z']),
+                                               h2e(-g['v_y']) - h2e(g['v_z']),
+                                               h2e( g['v_y']) - h2e(g['v_z'])
         ])
         return plane_with_hole(outer, inner)
-- 
2.43.0


From a607b425be4d90348b2bc2e57cf843f0ea6805a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 69/92] fix: Lynx gratings and detectors are placed with the
 current grid classes

---
 marxs/missions/lynx/lynx.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index d6f76fc..bad6389 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -65,7 +65,7 @@ conf = {'metashellgeometry': Table.read(get_pkg_data_filename('data/metashellgeo
                                      'pixsize': 0.016}},
         'gas_kwargs': {'parallel_spec': np.array([0., 1., 0., 0.]),
                        'normal_spec': np.array([0, 0, 0, 1]),
-                       'x_range': [7e3, 1e4],
+                       'guess_distance': 1e4,
                        'elem_class': CATL1L2Stack,
                        'elem_args': {'d': 2e-4,
                                      'order_selector': ralfgrating.order_selector_Si,
@@ -133,7 +133,11 @@ class LynxGAS(CircularMeshGrid):
 
 class RowlandDetArray(design.rowland.RectangularGrid):
     def __init__(self, conf):
-        super(RowlandDetArray, self).__init__(conf['rowland'], **conf['det_kwargs'],
+        det_kwargs = dict(conf['det_kwargs'])
+        # y_range is given in global coordinates
+        y_offset = conf['rowland'].geometry['center'][1]
+        det_kwargs['y_range'] = np.array(det_kwargs['y_range']) - y_offset
+        super(RowlandDetArray, self).__init__(rowland=conf['rowland'], **det_kwargs,
                                               guess_distance=25.)
 
 
-- 
2.43.0


From 6bec0424b6ee0a8a1c61958af7733bd43a155ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 70/92] fix: chirp of the Lynx gratings is applied

---
 marxs/missions/lynx/lynx.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marxs/missions/lynx/lynx.py b/marxs/missions/lynx/lynx.py
index bad6389..acbe28c 100644
--- a/marxs/missions/lynx/lynx.py
+++ b/marxs/missions/lynx/lynx.py
@@ -25,9 +25,10 @@ from marxs import optics, simulator, design, analysis
 from marxs.design.rowland import (design_tilted_torus, RowlandTorus,
                                   CircularMeshGrid)
 from marxs.math.geometry import Cylinder
-from marxs.optics import FlatDetector, CATGrating
+from marxs.optics import FlatDetector
 from marxs.simulator import Propagator
-from marxs.missions.mitsnl.catgrating import CATL1L2Stack, catsupportbars, l1_order_selector
+from marxs.missions.mitsnl.catgrating import (CATL1L2Stack, NonParallelCATGrating,
+                                              catsupportbars, l1_order_selector)
 from marxs.design import tolerancing as tol
 from marxs.design.bendgratings import NumericalChirpFinder, chirp_gratings
 
@@ -201,7 +202,7 @@ class PerfectLynx(simulator.Sequence):
                                           postprocess_steps=self.post_process(),
                                           **kwargs)
         if ('chirp_energy' in conf) and ('chirp_order' in conf):
-            gratings = self.elements_of_class(CATGrating, subclass_ok=False)
+            gratings = self.elements_of_class(NonParallelCATGrating, subclass_ok=False)
             opt = NumericalChirpFinder(detcirc,
                                        order=conf['chirp_order'],
                                        energy=conf['chirp_energy'],
-- 
2.43.0


From af372a86a37a896b4ea4b825ce780a6c6f05ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 71/92] fix: metashell efficiencies are found by serial number,
 not by row

---
 marxs/missions/lynx/mirror.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index 68879a7..ef4c4ca 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -61,8 +61,9 @@ class MetaShellEfficiency(SimulationSequenceElement):
         # factor 100 is to transform cm^2 to mm^2
         ageom = np.pi * (data['r_outer']**2 - data['r_inner']**2)
         self.relative_eff = aeff * 100 / ageom[:, None]
-        self.shells = [(i, interp1d(eff['energy'], self.relative_eff[i - 1, :]))
-                       for i in data['Metashell Serial Number']]
+        self.shells = [(i, interp1d(eff['energy'], rel_eff))
+                       for i, rel_eff in zip(data['Metashell Serial Number'],
+                                             self.relative_eff)]
 
     def __call__(self, photons):
         for i, func in self.shells:
-- 
2.43.0


From 8b428a68dc0ee5d00c40bc8a51be341e5868829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:14 +0000
Subject: [PATCH 72/92] fix: detector offsets can be set for ACIS

---
 marxs/missions/chandra/det_acis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index 19d940b..ee443ba 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -83,9 +83,9 @@ class ACIS(Parallel):
         # This stuff is Chandra specific, but applies to HRC, too.
         # Move to a more general class, once the HRC gets implemented.
         self.aimpoint = kwargs.pop('aimpoint')
-        self.detoffset = np.array([kwargs.pop(['DetOffsetX'], 0),
+        self.detoffset = np.array([kwargs.pop('DetOffsetX', 0),
                                     0,
-                                    kwargs.pop(['DetOffsetY'], 0)])
+                                    kwargs.pop('DetOffsetY', 0)])
         # Now the ACIS specific case
         kwargs['elem_pos'] = self.calculate_elempos()
         kwargs['elem_class'] = ACISChip
-- 
2.43.0


From 35bdf9c7ef4d6e50a036ed6cab803f7673c1f880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 73/92] fix: rods of a boom are cylinders along their longest
 side

---
 marxs/missions/arcus/boom.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index f8a8204..9339de7 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -6,11 +6,12 @@ from transforms3d.affines import compose
 from marxs.optics import OpticalElement
 from marxs.simulator import Parallel
 from marxs.math.geometry import Cylinder
+from marxs.math.utils import xyz2zxy
 
 
 class Rod(OpticalElement):
-    '''X-axis of the rod is the cylinder axis (x-zoom gives half-length)
-    y zoom and z zoom have to be the same (no elliptical cylinders)
+    '''Z-axis of the rod is the cylinder axis (z-zoom gives half-length)
+    x zoom and y zoom have to be the same (no elliptical cylinders)
     '''
     outcol = 'hitrod'
     display = {'shape': 'cylinder', 'color': 'black'}
@@ -61,6 +62,8 @@ class ThreeSidedBoom(Parallel):
     def one_window(self):
         '''Positions for rods on one side of one bay
 
+        In these matrices, the rods are parallel to the x-axis.
+
         Returns
         -------
         pos4d : list
@@ -99,7 +102,8 @@ class ThreeSidedBoom(Parallel):
                 rot = euler2mat((i * 2) * np.pi / self.n_sides, 0, 0, 'sxyz')
                 affmat = compose(trans, rot, np.ones(3))
                 for p in self.one_window():
-                    fullboompos4d.append(np.dot(affmat, p))
+                    # The axis of a `Rod` is the z-axis
+                    fullboompos4d.append(affmat @ p @ xyz2zxy.T)
 
         return fullboompos4d
 
@@ -123,7 +127,10 @@ class FourSidedBoom(ThreeSidedBoom):
     n_sides = 4
 
     def one_window(self):
-        '''Calculate pos4d matrices for each element on the boom'''
+        '''Positions for rods on one side of one bay
+
+        In these matrices, the rods are parallel to the x-axis.
+        '''
         # longeron
         zoom = [self.l_longeron / 2, self.d_longeron / 2, self.d_longeron / 2]
         trans = [self.l_longeron / 2, self.l_batten / 2, self.l_batten / 2]
-- 
2.43.0


From 1c6170d2d375b5bb0424114584a0ada99025ae08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:28 +0000
Subject: [PATCH 74/92] fix: diagonals of a boom follow the dimensions of the
 boom

---
 marxs/missions/arcus/boom.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/boom.py b/marxs/missions/arcus/boom.py
index 9339de7..3fff5f5 100644
--- a/marxs/missions/arcus/boom.py
+++ b/marxs/missions/arcus/boom.py
@@ -84,11 +84,12 @@ class ThreeSidedBoom(Parallel):
         # diagonal1
         zoom = [self.l_diag / 2., self.d_diag / 2., self.d_diag / 2.]
         trans[0] = self.l_longeron / 2.
-        rot = euler2mat(np.deg2rad(90. - 34.03), -np.pi / 6, 0, 'szxz')
+        ang = np.arctan2(self.l_longeron, self.l_batten)
+        rot = euler2mat(np.pi / 2 - ang, -np.pi / 6, 0, 'szxz')
         pos4d.append(compose(trans, rot, zoom))
 
         # diagonal2
-        rot = euler2mat(np.deg2rad(90. + 34.03), -np.pi / 6, 0, 'szxz')
+        rot = euler2mat(np.pi / 2 + ang, -np.pi / 6, 0, 'szxz')
         pos4d.append(compose(trans, rot, zoom))
         return pos4d
 
-- 
2.43.0


From 9d45a57f5a8e090ce6a24e697cf748d8d92d443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:42 +0000
Subject: [PATCH 75/92] fix: apertures of the metashells are identified by
 serial number

---
 marxs/missions/lynx/mirror.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/lynx/mirror.py b/marxs/missions/lynx/mirror.py
index ef4c4ca..47a2bf2 100644
--- a/marxs/missions/lynx/mirror.py
+++ b/marxs/missions/lynx/mirror.py
@@ -15,12 +15,14 @@ class MetaShellAperture(optics.MultiAperture):
         metashellgeometry = conf['metashellgeometry']
         elements = [optics.CircleAperture(position=[conf['focallength'] + 200, 0, 0],
                                           zoom=[1, shell['r_outer'], shell['r_outer']],
-                                          r_inner=shell['r_inner'],
-                                          id_num=shell['Metashell Serial Number'])
+                                          r_inner=shell['r_inner'])
                     for shell in metashellgeometry]
         kwargs['elements'] = elements
         kwargs['id_col'] = 'shell'
         super().__init__(**kwargs)
+        # The container numbers its elements 0, 1, 2, ... by default
+        for elem, shell in zip(self.elements, metashellgeometry):
+            elem.id_num = shell['Metashell Serial Number']
         disp = {'color': (0.0, 0.75, 0.75),
                 'opacity': 0.3,
                 'shape': 'triangulation',
-- 
2.43.0


From 83bc58a7ef00c4aad968c7cb5bc0f5fc7c7f8fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:18 +0000
Subject: [PATCH 76/92] fix: FixedPointing uses the unit of the polangle column

---
 marxs/source/pointing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/source/pointing.py b/marxs/source/pointing.py
index 17d58d1..53f8cff 100644
--- a/marxs/source/pointing.py
+++ b/marxs/source/pointing.py
@@ -151,12 +151,14 @@ class FixedPointing(PointingModel):
         photons : `astropy.table.Table`
         '''
         photons = super().process_photons(photons)
+        polangle = photons['polangle']
+        polangle = polangle.data if polangle.unit is None else polangle.to(u.rad).value
         photons['dir'] = self.photons_dir(SkyCoord(photons['ra'],
                                                    photons['dec'],
                                                    unit='deg'),
                                           photons['time'].data)
         photons['polarization'] = self.photons_pol(photons['dir'].data,
-                                                   photons['polangle'].data,
+                                                   polangle,
                                                    photons['time'].data)
         photons.meta['RA_PNT'] = (self.coords.ra.degree, '[deg] Pointing RA')
         photons.meta['DEC_PNT'] = (self.coords.dec.degree,
-- 
2.43.0


From 04de0702607333f88ef44004f1128662c60aaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 77/92] fix: complete_O adds the keywords it lists to the
 header

---
 marxs/missions/chandra/fitsheaders.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index f4d23b5..435d883 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -75,6 +75,7 @@ def complete_O(header):
          ('OBSERVER', ('MARXS', 'This is a simulation.')),
          ('FOC_LEN', (NOMINAL_FOCALLENGTH, 'Assumed focal length')),
          ]
+    update_header(header, h)
 
 
 DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
-- 
2.43.0


From e1184d9c6cfff36aefd3cc5038054bd5ba165c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 78/92] fix: remove old column keywords from an event header

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 435d883..958963f 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -88,7 +88,7 @@ DMKEYWORDS = [('MTYPE1', 'chip'), ('MFORM1', 'chipx,chipy'),
 def add_evt_column_header(header, data):
     '''Add CIAO keywords to header of an eventfile.'''
     # Clean out column related keywords that may not be valid any longer.
-    for k in header.iterkeys():
+    for k in list(header.keys()):
         if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX', 'TLMIN', 'TLMAX']:
             del header[k]
     instr = header['INSTRUME'][0]
-- 
2.43.0


From 736c7e8147e6256963fb67d264654f73ded70ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 79/92] fix: sort_columns returns the table with sorted columns

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 958963f..b5d06f7 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -209,4 +209,4 @@ def sort_columns(photons):
     othercol = list(othercol)
     othercol.sort()
     ordered_cols.extend(othercol)
-    return photons(ordered_cols)
+    return photons[ordered_cols]
-- 
2.43.0


From ded338a06d16285a82405bdd2f2db362f2447280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:15 +0000
Subject: [PATCH 80/92] fix: write_asol converts the pointing from radian to
 degrees

---
 marxs/missions/chandra/dither.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index 6f93b43..b521085 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -153,7 +153,7 @@ class LissajousDither(FixedPointing):
 
         '''
         time = np.arange(0, photons.meta['EXPOSURE'][0], timestep)
-        pointing = self.pointing(time).to(u.deg).value
+        pointing = np.rad2deg(self.pointing(time))
         asol = Table([time, pointing[:, 0], pointing[:, 1], pointing[:, 2]],
                      names=['time', 'ra', 'dec', 'roll'],
                      )
-- 
2.43.0


From df3bf25d051c5192382d2acabc7d280163b55c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:16 +0000
Subject: [PATCH 81/92] fix: asol files do not copy keywords that describe the
 event table

---
 marxs/missions/chandra/dither.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index b521085..de6c281 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -179,7 +179,8 @@ class LissajousDither(FixedPointing):
         # but not column specific keywords like TTYPEn, TCTYPn, MTYPEn, MFORMn, etc:
         for k in photons.meta:
             if (('TYP' not in k) and ('FORM' not in k) and
-                ('TCR' not in k) and ('TCDEL' not in k) and (k not in asol.meta)):
+                ('TCR' not in k) and ('TCDLT' not in k) and ('TLM' not in k) and
+                ('HDU' not in k) and (k != 'CONTENT') and (k not in asol.meta)):
                 asol.meta[k] = photons.meta[k]
         asol.meta['EXTNAME'] = 'ASPECT'
         complete_header(asol.meta, None, 'ACASOL', ['OGIP', 'TEMPORALDATA', 'ASPECT'])
-- 
2.43.0


From 54dda15a5c6de37c870bfba2d97a81c4a618dfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:16 +0000
Subject: [PATCH 82/92] fix: DATE-END follows from DATE-OBS, if that is set
 already

---
 marxs/missions/chandra/fitsheaders.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index b5d06f7..b7b6b94 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -31,7 +31,9 @@ def complete_T(header):
     '''Timing component'''
     now = time.Time.now()
     now.format = 'fits'
-    nowexp = now + header['EXPOSURE'][0] * u.s
+    start = time.Time(header['DATE-OBS'][0], format='fits') if 'DATE-OBS' in header else now
+    nowexp = start + header['EXPOSURE'][0] * u.s
+    nowexp.format = 'fits'
     h = [
         ('DATE', (now.value[:23], 'Date and time of file creation {0}'.format(now.value[23:]))),
         ('DATE-OBS', (now.value[:23], 'TT with clock correction if CLOCKAPP')),
-- 
2.43.0


From 5117007c3bf3250441ab4b3dd1ca0e51f9cb0c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:16 +0000
Subject: [PATCH 83/92] fix: default values of complete_header

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index b7b6b94..923bfb6 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -122,7 +122,7 @@ def add_evt_column_header(header, data):
     header['RADECSYS'] = ('ICRS', 'WCS system')
 
 
-def complete_header(header, data=None, content=['UNKNOWN'], hduclass='UNKNOWN'):
+def complete_header(header, data=None, content='UNKNOWN', hduclass=['UNKNOWN']):
     '''Complete fits header for Chandra fits files.
 
     This method add the common keywords that are required for all CXC fit files.
-- 
2.43.0


From 4fe6cf5a3e1682f28c3ffb8d2bdc475e1c5e1359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:16 +0000
Subject: [PATCH 84/92] fix: times in Chandra event files are consistent with
 TSTART

---
 marxs/missions/chandra/chandra_global.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index d25514a..b8f9ea5 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -35,5 +35,9 @@ class Chandra(Sequence):
         photons.rename_column('ra', 'marxs_ra')
         photons.rename_column('dec', 'marxs_dec')
         complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
-        photons.write(filename, format='fits')
+        evt = photons.copy()
+        # In MARXS t=0 is the start of the observation, but for Chandra we need to make that
+        # consistent with the value of the TSTART keyword.
+        evt['time'] += evt.meta['TSTART'][0]
+        evt.write(filename, format='fits')
         # add_GTIs(filename)
-- 
2.43.0


From 0e481d914af527657c9cfb853cfb6c0143d9f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:37 +0000
Subject: [PATCH 85/92] fix: Chandra and ACIS add their keywords when they are
 called

---
 marxs/missions/chandra/chandra_global.py | 4 ++--
 marxs/missions/chandra/det_acis.py       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index b8f9ea5..4f60992 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -11,10 +11,10 @@ class Chandra(Sequence):
 
 
     '''
-    def process_photons(self, photons):
+    def __call__(self, photons):
         photons.meta['MISSION'] = ('AXAF', 'Mission')
         photons.meta['TELESCOP'] = ('CHANDRA', 'Telescope')
-        return super().process_photons(photons)
+        return super().__call__(photons)
 
     def write_evt(self, photons, filename):
         '''Write a Chandra event level 1 file.
diff --git a/marxs/missions/chandra/det_acis.py b/marxs/missions/chandra/det_acis.py
index ee443ba..f68ddb7 100644
--- a/marxs/missions/chandra/det_acis.py
+++ b/marxs/missions/chandra/det_acis.py
@@ -149,8 +149,8 @@ class ACIS(Parallel):
             pos4d.append(A)
         return pos4d
 
-    def process_photons(self, photons, *args, **kwargs):
-        photons = super().process_photons(photons, *args, **kwargs)
+    def __call__(self, photons):
+        photons = super().__call__(photons)
         photons.meta['SIM_X'] = self.aimpoint[0] - self.detoffset[0]
         photons.meta['SIM_Y'] = self.aimpoint[1] - self.detoffset[1]
         photons.meta['SIM_Z'] = self.aimpoint[2] - self.detoffset[2]
-- 
2.43.0


From cf20a95a7e290fb297c10e919a82460f3443ec96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:57 +0000
Subject: [PATCH 86/92] fix: Chandra event files hold the WCS of the sky
 coordinates

---
 marxs/missions/chandra/chandra_global.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index 4f60992..5de5bde 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -1,6 +1,6 @@
 # Licensed under GPL version 3 - see LICENSE.rst
 
-import numpy as np
+from astropy.io.fits import table_to_hdu
 
 from .fitsheaders import complete_header
 from ...simulator import Sequence
@@ -39,5 +39,10 @@ class Chandra(Sequence):
         # In MARXS t=0 is the start of the observation, but for Chandra we need to make that
         # consistent with the value of the TSTART keyword.
         evt['time'] += evt.meta['TSTART'][0]
-        evt.write(filename, format='fits')
+        hdu = table_to_hdu(evt)
+        # astropy does not pass on the WCS of the columns from the meta data
+        for k in evt.meta:
+            if k[:5] in ['TCTYP', 'TCRVL', 'TCDLT', 'TCRPX']:
+                hdu.header[k] = evt.meta[k]
+        hdu.writeto(filename)
         # add_GTIs(filename)
-- 
2.43.0


From 780e4383c70842539f0bb3f048e36116b85a8a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:15 +0000
Subject: [PATCH 87/92] fix: name of the projection of Y follows the FITS
 standard

---
 marxs/missions/chandra/fitsheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/fitsheaders.py b/marxs/missions/chandra/fitsheaders.py
index 923bfb6..a8b55cf 100644
--- a/marxs/missions/chandra/fitsheaders.py
+++ b/marxs/missions/chandra/fitsheaders.py
@@ -115,7 +115,7 @@ def add_evt_column_header(header, data):
     header['TCDLT{0}'.format(indx)] = -PIXSIZE[instr]  # - because RA increases to left
     header['TCRPX{0}'.format(indx)] = odet[0]
     indy = colnamesup.index('Y') + 1
-    header['TCTYP{0}'.format(indy)] = 'DEC---TAN'
+    header['TCTYP{0}'.format(indy)] = 'DEC--TAN'
     header['TCRVL{0}'.format(indy)] = header['DEC_PNT']
     header['TCDLT{0}'.format(indy)] = PIXSIZE[instr]
     header['TCRPX{0}'.format(indy)] = odet[1]
-- 
2.43.0


From 969da8c8306f4ad92b67a6427b56bdedefb99bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:06 +0000
Subject: [PATCH 88/92] fix: writing an event file does not rename columns of
 the photon list

---
 marxs/missions/chandra/chandra_global.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/marxs/missions/chandra/chandra_global.py b/marxs/missions/chandra/chandra_global.py
index 5de5bde..b6ae195 100644
--- a/marxs/missions/chandra/chandra_global.py
+++ b/marxs/missions/chandra/chandra_global.py
@@ -31,11 +31,12 @@ class Chandra(Sequence):
             Path and file name where the file is saved.
         '''
         photons.meta['EXTNAME'] = 'EVENTS'
-        # rename RA, DEC columns - otherwise CIAO tasks will be confused.
-        photons.rename_column('ra', 'marxs_ra')
-        photons.rename_column('dec', 'marxs_dec')
-        complete_header(photons.meta, photons, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
         evt = photons.copy()
+        # rename RA, DEC columns - otherwise CIAO tasks will be confused.
+        evt.rename_column('ra', 'marxs_ra')
+        evt.rename_column('dec', 'marxs_dec')
+        complete_header(photons.meta, evt, 'EVT1', ['OGIP', 'EVENTS', 'ALL'])
+        evt.meta = photons.meta
         # In MARXS t=0 is the start of the observation, but for Chandra we need to make that
         # consistent with the value of the TSTART keyword.
         evt['time'] += evt.meta['TSTART'][0]
-- 
2.43.0


From ee3e72879b5911ba2debd85891d4a574c82117de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:07 +0000
Subject: [PATCH 89/92] fix: event and asol files of an observation start at
 the same time

---
 marxs/missions/chandra/dither.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marxs/missions/chandra/dither.py b/marxs/missions/chandra/dither.py
index de6c281..023cd3f 100644
--- a/marxs/missions/chandra/dither.py
+++ b/marxs/missions/chandra/dither.py
@@ -10,7 +10,7 @@ from transforms3d.quaternions import mat2quat
 from transforms3d.axangles import axangle2mat
 
 from ...source import FixedPointing
-from .fitsheaders import complete_header
+from .fitsheaders import complete_header, complete_T
 
 class LissajousDither(FixedPointing):
     '''Lissajous dither pattern with adjustable parameters.
@@ -158,6 +158,8 @@ class LissajousDither(FixedPointing):
                      names=['time', 'ra', 'dec', 'roll'],
                      )
         asol['time'].unit = 's'
+        # Event and asol files need the same start of the observation
+        complete_T(photons.meta)
         # The following columns represent measured offsets in Chandra
         # They are not part of this simulation. Simply set them to 0
         for col in ['ra_err', 'dec_err', 'roll_err',
-- 
2.43.0


From 2e28a5ff91ed9f32530438d3adb09396895477ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:14 +0000
Subject: [PATCH 90/92] fix: analyze a grid of simulations for a list of orders

---
 marxs/missions/arcus/analyze_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/marxs/missions/arcus/analyze_grid.py b/marxs/missions/arcus/analyze_grid.py
index 1ee3a18..53858a2 100644
--- a/marxs/missions/arcus/analyze_grid.py
+++ b/marxs/missions/arcus/analyze_grid.py
@@ -133,6 +133,7 @@ def aeffRfromraygrid(inpath, conf,
     out : `astropy.table.QTable`
         Table with instrument performance metrics
     '''
+    orders = np.asanyarray(orders)
     rayfiles = glob.glob(os.path.join(inpath, 'wave*.fits'))
     rayfiles.sort()
     r0 = Table.read(rayfiles[0])
-- 
2.43.0


From 57202b7bcfcd1fca4d31a5295c4b05232f6807e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:43 +0000
Subject: [PATCH 91/92] fix: place regular grating grids of the mirrored
 channels below the mirrors, not below the detectors

---
 marxs/missions/arcus/ralfgrating.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index b9f8e77..be950dd 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -138,12 +138,11 @@ class RegularGrid(Sequence):
 
         for chan in channels:
             sig = 1 if '1' in chan else -1
-            is_m = -1 if 'm' in chan else +1
             gratinggrid['rowland'] = conf['rowland_' + chan]
             b = blazematm if 'm' in chan else blazemat
             gratinggrid['elem_args']['orientation'] = b
             gratinggrid['normal_spec'] = conf['pos_opt_ax'][chan].copy()
-            gratinggrid['guess_distance'] = is_m * (conf['rowland_central'].r + conf['rowland_central'].R)
+            gratinggrid['guess_distance'] = conf['rowland_central'].r + conf['rowland_central'].R
 
             y_range = [-grid_width_y, grid_width_y]
             z_range = [sig * (rmid - grid_width_z),
-- 
2.43.0


From 09fe352a2b876e6b856689766cd62c70f150124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:43 +0000
Subject: [PATCH 92/92] fix: give every channel of a regular grating grid its
 own settings

---
 marxs/missions/arcus/ralfgrating.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/marxs/missions/arcus/ralfgrating.py b/marxs/missions/arcus/ralfgrating.py
index be950dd..0ba5993 100644
--- a/marxs/missions/arcus/ralfgrating.py
+++ b/marxs/missions/arcus/ralfgrating.py
@@ -134,10 +134,11 @@ class RegularGrid(Sequence):
                                np.deg2rad(-conf['blazeang']))
         blazematm = axangle2mat(np.array([0, 0, 1]),
                                 np.deg2rad(conf['blazeang']))
-        gratinggrid = conf['gratinggrid']
-
         for chan in channels:
             sig = 1 if '1' in chan else -1
+            # Copy, because every channel needs its own
+            gratinggrid = dict(conf['gratinggrid'])
+            gratinggrid['elem_args'] = dict(gratinggrid['elem_args'])
             gratinggrid['rowland'] = conf['rowland_' + chan]
             b = blazematm if 'm' in chan else blazemat
             gratinggrid['elem_args']['orientation'] = b
-- 
2.43.0

