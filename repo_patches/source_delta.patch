From 224b7e569371834f1e98190f6a781f3477af72b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 01/29] fix: accept a transform matrix in
 Assembly.add_object/add_assembly

'transform == None' compares element-wise on arrays, so passing any matrix
raised ValueError.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 38afc30..5e618e6 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -72,7 +72,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes 
             the object in the coordinate system of the Assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
@@ -86,7 +86,7 @@ class Assembly(HasFrame):
         transform - the transformation matrix (as an array object) that describes the 
             new assembly in the coordinate system of the current assembly
         """
-        if transform == None:
+        if transform is None:
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-- 
2.43.0


From e42fe86d16a2e0789e55d52bce1adc75192c69e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 02/29] fix: pair each ray with its own hit on hemispheres and
 cut spheres

N.nonzero() on the (2, n) array lists hits row by row, so when a bundle mixed
rays hitting with the near and with the far root, the choices were handed to
the wrong rays. Walk the array ray by ray instead, as the other quadrics do.
---
 tracer/sphere_surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/sphere_surface.py b/tracer/sphere_surface.py
index 2294d7a..a899be7 100644
--- a/tracer/sphere_surface.py
+++ b/tracer/sphere_surface.py
@@ -112,7 +112,7 @@ class HemisphereGM(SphericalGM):
         
         select[~N.logical_or(*bottom_hem)] = N.nan
         one_hit = N.logical_xor(*bottom_hem)
-        select[one_hit] = N.nonzero(bottom_hem[:,one_hit])[0]
+        select[one_hit] = N.nonzero(bottom_hem.T[one_hit,:])[1]
         
         return select
     
@@ -175,7 +175,7 @@ class CutSphereGM(SphericalGM):
         in_bd &= prm > 0
         select[~N.logical_or(*in_bd)] = N.nan
         one_hit = N.logical_xor(*in_bd)
-        select[one_hit] = N.nonzero(in_bd[:,one_hit])[0]
+        select[one_hit] = N.nonzero(in_bd.T[one_hit,:])[1]
         
         return select
 
-- 
2.43.0


From 98f1c1be3d69b6b88acf6992ed843ca1565bd84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 03/29] fix: keep triangle positions aligned when degenerate
 faces are dropped

---
 tracer/models/triangulated_surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index 7984f63..d396fa6 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -28,6 +28,7 @@ class TriangulatedSurface(AssembledObject):
         edges = vertices[faces[:,1:],:] - pos[:,None,:]
         edge_norms = np.sqrt(np.sum(edges**2, axis=2))
         non_degenerate = np.all(abs(edge_norms) > 1e-8, axis=1)
+        pos = pos[non_degenerate]
         edges = edges[non_degenerate]
         edge_norms = edge_norms[non_degenerate]
         
@@ -35,6 +36,7 @@ class TriangulatedSurface(AssembledObject):
         zs = np.cross(xs, edges[:,1])
         zs /= np.sqrt((zs**2).sum(-1))[:,None]
         non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        pos = pos[non_collinear]
         xs = xs[non_collinear]
         zs = zs[non_collinear]
         ys = np.cross(zs, xs)
-- 
2.43.0


From 5ce13e249f5a804f88bdea3685149a627379a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 04/29] fix: no NaN energy or direction from rounding in
 Fresnel and Snell

At normal incidence the computed cosine can be 1 + 1ulp, where arccos() is NaN;
at the critical angle the squared cosine of refraction can be -1ulp.
---
 tracer/optics.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 176be57..61c3d13 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -22,10 +22,12 @@ def fresnel(ray_dirs, normals, n1, n2):
     R - the reflectance of a homogenously-polarized light ray with the given
         parameters.
     """ 
-    theta_in = N.arccos(N.abs((normals*ray_dirs).sum(axis=0)))
+    # Rounding may put the cosine, or the sine below, slightly above 1.
+    cos_in = N.minimum(N.abs((normals*ray_dirs).sum(axis=0)), 1.)
+    theta_in = N.arccos(cos_in)
     # Factor out common terms in Fresnel's equations:
     foo = N.cos(theta_in) 
-    bar = N.sqrt(1 - (n1/n2 * N.sin(theta_in))**2)
+    bar = N.sqrt(N.maximum(1 - (n1/n2 * N.sin(theta_in))**2, 0.))
     
     Rs = ((n1*foo - n2*bar)/(n1*foo + n2*bar))**2 
     Rp = ((n1*bar - n2*foo)/(n1*bar + n2*foo))**2
@@ -80,7 +82,8 @@ def refractions(n1, n2, ray_dirs, normals):
     n = n[refracted]
     
     refr_dirs = (ray_dirs - cos1*normals)/n
-    cos2 = N.sqrt(1 - 1./n**2*(1 - cos1**2))
+    # Clip the rounding error of rays right at the critical angle:
+    cos2 = N.sqrt(N.maximum(1 - 1./n**2*(1 - cos1**2), 0.))
     refr_dirs += normals*cos2*N.where(cos1 < 0, -1, 1)
     
     return refracted, refr_dirs
-- 
2.43.0


From d1d9d560d7dd6f586ce08a0fdb424fbd644fd49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:38 +0000
Subject: [PATCH 05/29] fix: include the second term of the Hartmann dispersion
 equation

---
 tracer/optics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics.py b/tracer/optics.py
index 61c3d13..95371e8 100644
--- a/tracer/optics.py
+++ b/tracer/optics.py
@@ -97,4 +97,4 @@ def refr_idx_hartmann(wavelength, a, b, c, d, e):
     
     where L is the wavelength.
     """
-    return a + b/(c - wavelength) 
+    return a + b/(c - wavelength) + d/(e - wavelength)
-- 
2.43.0


From d2b200af5448bf88eba89c7083c48bda7ee8bc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 06/29] fix: make RayTree.ray_history() callable and follow its
 documentation

It lacked self, indexed one level beyond the last bundle and used float
indices.
---
 tracer/trace_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/trace_tree.py b/tracer/trace_tree.py
index bdd425e..3b10a66 100644
--- a/tracer/trace_tree.py
+++ b/tracer/trace_tree.py
@@ -31,7 +31,7 @@ class RayTree(object):
         """
         return [bund.get_parents() for bund in self._bunds[1:]]
     
-    def ray_history(ray_index, level=None):
+    def ray_history(self, ray_index, level=None):
         """
         Return, in reverse order, all the indices into ray bundles starting
         from the given ray, going back to the original bundle. Starts with the
@@ -43,12 +43,12 @@ class RayTree(object):
             defaults to last bundle.
         """
         if level is None:
-            level = self.num_bunds()
+            level = self.num_bunds() - 1
         
-        parents = np.empty(level)
+        parents = np.empty(level + 1, dtype=np.int_)
         parents[0] = ray_index
         
-        for pix in xrange(1, level):
+        for pix in xrange(1, level + 1):
             parents[pix] = \
                 self._bunds[level - pix + 1].get_parents()[parents[pix - 1]]
         
-- 
2.43.0


From f71ce6e675aba8f6df5784da900ac5183133e6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 07/29] fix: refractive optics return an empty bundle when no
 ray is selected

empty_bund() is a static method of RayBundle, not a module function.
---
 tracer/optics_callables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index 2c2ead4..b32102e 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -128,7 +128,7 @@ class RefractiveHomogenous(object):
     
     def __call__(self, geometry, rays, selector):
         if len(selector) == 0:
-            return ray_bundle.empty_bund()
+            return ray_bundle.RayBundle.empty_bund()
         
         n1 = rays.get_ref_index()[selector]
         n2 = self.toggle_ref_idx(n1)
-- 
2.43.0


From b07b183c4b515eb0424add0fc29b0065af9b1dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:21 +0000
Subject: [PATCH 08/29] fix: allow spherical lenses with a planar front

They raised NameError ('B.inf'); the front plane also has to be placed at the
lens' depth and counted in the cylindrical face.
---
 tracer/models/spherical_lens.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/models/spherical_lens.py b/tracer/models/spherical_lens.py
index 7f39902..0709b6e 100644
--- a/tracer/models/spherical_lens.py
+++ b/tracer/models/spherical_lens.py
@@ -44,7 +44,7 @@ class SphericalLens(AssembledObject):
             self._front = Surface(
                 RoundPlateGM(diameter/2.),
                 Refractive(1., refr_idx))
-            R1 = B.inf
+            R1 = N.inf
         else:
             z = N.sqrt(R1**2 - diameter**2/4.) # location of cut plane
             if R1 > 0:
@@ -101,6 +101,12 @@ class SphericalLens(AssembledObject):
             
             cyl_loc += (locf + sect1.get_location()[2])/2.
             cyl_height += locf + sect1.get_location()[2]
+        else:
+            locf = pd + depth
+            self._front.set_location(N.r_[0., 0., locf])
+            
+            cyl_loc += locf/2.
+            cyl_height += locf
         
         # Create the bounding cylinder:
         if cyl_height > 0:
-- 
2.43.0


From e047f2bee65a3c0f74119343f47140fc29f1e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:03 +0000
Subject: [PATCH 09/29] fix: bounding rectangle of a boundary sphere off the xy
 plane

The section's radius depends on the distance of the sphere's center from the
plane, i.e. its local z; the global z was mixed in. It also could not be called
after transform_frame(), which stores a homogenous vector.
---
 tracer/boundary_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 83880d7..57fa6cd 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -95,8 +95,8 @@ class BoundarySphere(BoundaryShape):
         Returns:
         xmin, xmax, ynin, ymax - of the rect, in the xy plane of the frame,
         """
-        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc, 1))
-        Reff = N.sqrt(self._radius**2 - (self._temp_loc[2] - cent_proj[2])**2)
+        cent_proj = N.dot(N.linalg.inv(transform), N.append(self._temp_loc[:3], 1))
+        Reff = N.sqrt(self._radius**2 - cent_proj[2]**2)
         return cent_proj[0] - Reff, cent_proj[0] + Reff, \
             cent_proj[1] - Reff, cent_proj[1] + Reff
 
-- 
2.43.0


From 38e8954e8188b32cd56360f6affb69db5b5357f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:03 +0000
Subject: [PATCH 10/29] fix: place boundary cylinders correctly, for any number
 of points

in_bounds() applied the frame instead of its inverse, only accepted exactly
three points, and the constructor ignored the given rotation.
---
 tracer/boundary_shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index 57fa6cd..e9ab51f 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -107,7 +107,7 @@ class BoundaryCylinder(BoundaryShape):
         intersection points are valid.
         """
         self._R = diameter/2.
-        BoundaryShape.__init__(self, location, None)
+        BoundaryShape.__init__(self, location, rotation)
     
     def in_bounds(self, vertices):
         """
@@ -117,8 +117,8 @@ class BoundaryCylinder(BoundaryShape):
         Arguments: 
         vertices - an array of the points to check for inclusion, (n,3)
         """
-        local_xy = N.dot(self._temp_frame[:2], 
-            N.vstack((vertices.T, N.ones(vertices.shape[1]))))
+        local_xy = N.dot(N.linalg.inv(self._temp_frame)[:2], 
+            N.vstack((vertices.T, N.ones(vertices.shape[0]))))
         return N.sum(local_xy**2, axis=0) <= self._R**2
 
 class BoundaryPlane(BoundaryShape):
-- 
2.43.0


From df5e391db99646382ef5526f1efadaf558899ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:47 +0000
Subject: [PATCH 11/29] fix: objects keep their own copy of the frame they are
 given

set_transform() kept the caller's array, so that objects given the same array
(the receiver and the homogenizer of a HomogenizedLocalReceiver) moved together,
and a later set_location() or set_rotation() on an integer transform (e.g.
translate(0, 0, 1)) was truncated, leaving the transform out of sync.
---
 tracer/has_frame.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 8bd0259..9ca5e7e 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -43,14 +43,14 @@ class HasFrame(object):
         """Sets the location within the object"""
         if location.shape != (3, ):
             raise ValueError("location must be a 1D 3-component array")
-        self._loc = location
+        self._loc = N.array(location, dtype=N.float_)
         self._transform[:3,3] = location
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
         if  rotation.shape != (3, 3):
             raise ValueError("rotation must be a 3x3 array")
-        self._rot = rotation
+        self._rot = N.array(rotation, dtype=N.float_)
         self._transform[:3,:3] = rotation
 
     def set_transform(self, transform):
@@ -59,9 +59,11 @@ class HasFrame(object):
         
         Arguments:
         transform - a 2D array defining the 4 by 4 transformation matrix."""
-        self._transform = transform
-        self._loc = self._transform[:3,3]
-        self._rot = self._transform[:3,:3]
+        # Our own float copy: the array may be shared with other objects, or be
+        # an integer array that can't hold a later location or rotation.
+        self._transform = N.array(transform, dtype=N.float_)
+        self._loc = self._transform[:3,3].copy()
+        self._rot = self._transform[:3,:3].copy()
 
     def get_transform(self):
         return self._transform
-- 
2.43.0


From a4cf52c7394026c568ec67ffbe40dd906c51f110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:58 +0000
Subject: [PATCH 12/29] fix: global frames follow every change in a nested
 hierarchy

Changing the frame of an object inside a nested assembly recomputed the
temporary frames as if its containers were not there. Remember the
containing frame and use it.
---
 tracer/assembly.py       | 14 +++++++-------
 tracer/boundary_shape.py |  2 +-
 tracer/has_frame.py      | 12 +++++++++---
 tracer/object.py         |  8 ++++----
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 5e618e6..1460f9e 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -76,7 +76,7 @@ class Assembly(HasFrame):
             transform = N.eye(4)
         self._objects.append(object)
         object.set_transform(transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def add_assembly(self, assembly, transform=None):
         """Adds an assembly to the current assembly.
@@ -90,7 +90,7 @@ class Assembly(HasFrame):
             transform = N.eye(4)
         self._assemblies.append(assembly)
         assembly.set_transform(transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def set_rotation(self, rotation):
         """
@@ -102,7 +102,7 @@ class Assembly(HasFrame):
         rotation - a 3x3 rotation matrix.
         """
         HasFrame.set_rotation(self, rotation)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
     
     def set_location(self, location):
         """
@@ -114,11 +114,11 @@ class Assembly(HasFrame):
         location - a 3-component location vector.
         """
         HasFrame.set_location(self, location)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
     
     def set_transform(self, transform):
         HasFrame.set_transform(self, transform)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def transform_children(self, assembly_transform=N.eye(4)):
         """
@@ -128,6 +128,6 @@ class Assembly(HasFrame):
         assembly_transform - the transformation into the parent assembly containing the 
             current assembly
         """
-        const_t = self.get_transform()
+        self.transform_frame(assembly_transform)
         for obj in self._assemblies + self._objects:
-            obj.transform_children(N.dot(assembly_transform, const_t))
+            obj.transform_children(self._temp_frame)
diff --git a/tracer/boundary_shape.py b/tracer/boundary_shape.py
index e9ab51f..403d731 100644
--- a/tracer/boundary_shape.py
+++ b/tracer/boundary_shape.py
@@ -64,7 +64,6 @@ class BoundarySphere(BoundaryShape):
         _radius - radius of the bounding sphere
         """
         BoundaryShape.__init__(self, location, None)
-        self._temp_loc = self._loc
         self._radius = radius
             
     def in_bounds(self, bund_vertices):
@@ -80,6 +79,7 @@ class BoundarySphere(BoundaryShape):
         Transforms the center of the boundary shape into the global coordinates; this occurs
         when the assembly or object containing the surface is transformed
         """
+        BoundaryShape.transform_frame(self, transform)
         self._temp_loc = N.dot(transform, N.append(self._loc, N.c_[[1]]))
     
     def bounding_rect_for_plane(self, transform):
diff --git a/tracer/has_frame.py b/tracer/has_frame.py
index 9ca5e7e..ce2f8cb 100644
--- a/tracer/has_frame.py
+++ b/tracer/has_frame.py
@@ -20,6 +20,10 @@ class HasFrame(object):
     
     .. [1] John J. Craig, Introduction to Robotics, 3rd ed., 2005.
     """
+    # The frame of the containing object in global coordinates, as last told by
+    # the container.
+    _parent_frame = N.eye(4)
+    
     def __init__(self,  location=None,  rotation=None):
         # default location and rotation:
         if location is None:
@@ -27,11 +31,9 @@ class HasFrame(object):
         if rotation is None:
             rotation = N.eye(3)
 
-        self._transform = N.empty((4,4))
-        self._transform[3,:] = N.r_[0, 0, 0, 1]
+        self._transform = N.eye(4)
         self.set_location(location)
         self.set_rotation(rotation)
-        self._temp_frame = self._transform
 
     def get_location(self):
         return self._loc
@@ -45,6 +47,7 @@ class HasFrame(object):
             raise ValueError("location must be a 1D 3-component array")
         self._loc = N.array(location, dtype=N.float_)
         self._transform[:3,3] = location
+        self.transform_frame(self._parent_frame)
     
     def set_rotation(self,  rotation):
         """Sets the rotation within the object"""
@@ -52,6 +55,7 @@ class HasFrame(object):
             raise ValueError("rotation must be a 3x3 array")
         self._rot = N.array(rotation, dtype=N.float_)
         self._transform[:3,:3] = rotation
+        self.transform_frame(self._parent_frame)
 
     def set_transform(self, transform):
         """Defines the transformation matrix the puts the surface into the coordinates of the
@@ -64,6 +68,7 @@ class HasFrame(object):
         self._transform = N.array(transform, dtype=N.float_)
         self._loc = self._transform[:3,3].copy()
         self._rot = self._transform[:3,:3].copy()
+        self.transform_frame(self._parent_frame)
 
     def get_transform(self):
         return self._transform
@@ -73,5 +78,6 @@ class HasFrame(object):
         coordinates. I.e., if the object the surface is in is rotated, than the surface
         is also rotated.  It then defines a temporary rotated frame for use of
         calculations."""
+        self._parent_frame = transform
         self._temp_frame = N.dot(transform, self._transform)
 
diff --git a/tracer/object.py b/tracer/object.py
index cf74f85..3a15620 100644
--- a/tracer/object.py
+++ b/tracer/object.py
@@ -45,7 +45,7 @@ class AssembledObject(Assembly):
         Arguments:  surface - a surface object
         """
         self.surfaces.append(surface)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def add_boundary(self, boundary):
         """Adds a boundary to the object. Surfaces not enclosed by the boundary
@@ -53,16 +53,16 @@ class AssembledObject(Assembly):
         Arguments: boundary - a spherical boundary objects
         """
         self.boundaries.append(boundary)
-        self.transform_children()
+        self.transform_children(self._parent_frame)
 
     def get_boundaries(self):
         return self.boundaries
     
     def transform_children(self, assembly_transform=N.eye(4)):
         """Transforms an object if the assembly is transformed""" 
-        const_t = self.get_transform()
+        self.transform_frame(assembly_transform)
         for member in self.surfaces + self.boundaries:
-            member.transform_frame(N.dot(assembly_transform, const_t))
+            member.transform_frame(self._temp_frame)
     
     def own_rays(self, rays, surface_id):
         """
-- 
2.43.0


From ac6a90b1819dd683cd2c2662f6c6b1483fcf00ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:32 +0000
Subject: [PATCH 13/29] fix: the fate of a ray does not depend on the other
 rays in its bundle

Hits between 1e-10 and 1e-6 were dropped only if some other ray in the same
bundle had a parameter below 1e-10.
---
 tracer/tracer_engine.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 3c99dd9..2483197 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -65,9 +65,7 @@ class TracerEngine():
         
         # If parameter == 0, ray does not actually hit object, but originates from there; 
         # so it should be ignored in considering intersections 
-        if (stack <= 1e-10).any():
-            zeros = N.where(stack <= 1e-6)
-            stack[zeros] = N.inf
+        stack[stack <= 1e-6] = N.inf
 
         # Find the smallest parameter for each ray, and use that as the final one,
         # returns the indices.  If an entire column of the stack is N.inf (the ray misses
-- 
2.43.0


From f2a6065557ee938d2a3a8697eab2d4ea2457c65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:32 +0000
Subject: [PATCH 14/29] fix: inherited ray properties are copies, as documented

With a slice selector, the default, the new bundle shared its arrays with
the original one, so setting selected rays changed both.
---
 tracer/ray_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index 4e60d54..b25ac3d 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -140,7 +140,7 @@ class RayBundle:
         
         for p, v in base_vals.iteritems():
             if base_vals[p] is None and hasattr(self, '_' + p):
-                base_vals[p] = self.__dict__['get_' + p](selector)
+                base_vals[p] = N.array(self.__dict__['get_' + p](selector))
         
         return RayBundle(**base_vals)
 
-- 
2.43.0


From 2b568d936613f6c47ed27bf2b6f638ca21037661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 15/29] fix: square_bundle() gives each ray a direction for any
 number of rays

The number of grid points differs from num_rays unless it is a square, and
sometimes even then, by rounding of the grid step.
---
 tracer/sources.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tracer/sources.py b/tracer/sources.py
index 1444882..8d1b285 100644
--- a/tracer/sources.py
+++ b/tracer/sources.py
@@ -96,9 +96,9 @@ def square_bundle(num_rays, center, direction, width):
     A RayBundle object with the above charachteristics set.
     """
     rot = rotation_to_z(direction)
-    directions = N.tile(direction[:,None], (1, num_rays))
-    range = N.s_[-width:width:float(2*width)/N.sqrt(num_rays)]
-    xs, ys = N.mgrid[range, range]
+    range = -width + float(2*width)/N.sqrt(num_rays)*N.arange(N.ceil(N.sqrt(num_rays)))
+    xs, ys = N.meshgrid(range, range, indexing='ij')
+    directions = N.tile(direction[:,None], (1, xs.size))
     vertices_local = N.array([xs.flatten(),  ys.flatten(),  N.zeros(len(xs.flatten()))])
     vertices_global = N.dot(rot,  vertices_local)
 
-- 
2.43.0


From cbf91e6e8aa6dc42b35e442be8b2104a8b8e457c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 16/29] fix: Assembly.get_surfaces() of an assembly with no
 objects

Also makes both lists new ones even if there is only one object, so that
changing them doesn't change the assembly.
---
 tracer/assembly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tracer/assembly.py b/tracer/assembly.py
index 1460f9e..1617df0 100644
--- a/tracer/assembly.py
+++ b/tracer/assembly.py
@@ -49,7 +49,7 @@ class Assembly(HasFrame):
         or its subassemblies.
         """
         return reduce(operator.add, 
-            [asm.get_objects() for asm in self._assemblies] + [self._objects])
+            [asm.get_objects() for asm in self._assemblies] + [self._objects], [])
 
     def get_surfaces(self):  
         """
@@ -61,7 +61,7 @@ class Assembly(HasFrame):
         self.get_objects()
         """
         return reduce(operator.add, 
-            [obj.get_surfaces() for obj in self.get_objects()])
+            [obj.get_surfaces() for obj in self.get_objects()], [])
 
     def add_object(self, object, transform=None):
         """
-- 
2.43.0


From 013d9a1e87fe7f342f7ef4b2eb3c53c18c174c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 17/29] fix: get_all_hits() after only empty selections

---
 tracer/optics_callables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tracer/optics_callables.py b/tracer/optics_callables.py
index b32102e..ec80764 100644
--- a/tracer/optics_callables.py
+++ b/tracer/optics_callables.py
@@ -69,8 +69,7 @@ class AbsorptionAccountant(object):
         if not len(self._absorbed):
             return N.array([]), N.array([]).reshape(3,0)
         
-        return N.hstack([a for a in self._absorbed if len(a)]), \
-            N.hstack([h for h in self._hits if h.shape[1]])
+        return N.hstack(self._absorbed), N.hstack(self._hits)
 
 class ReflectiveReceiver(AbsorptionAccountant):
     """A wrapper around AbsorptionAccountant with a Reflective optics"""
-- 
2.43.0


From 9e57e5dc15a12f21171f0eced2b0adbb2c1a03e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:33 +0000
Subject: [PATCH 18/29] fix: draw escaping rays from their own vertices

The index of an escaping ray among the shown rays was used as an index into
the full bundle.
---
 tracer/mayavi_ui/scene_view.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index f52a5c3..90b4ca0 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -244,19 +244,19 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         
         sv = start_rays.get_vertices()[:,non_degenerate]
         sd = start_rays.get_directions()[:,non_degenerate]
+        shown = N.nonzero(non_degenerate)[0]
         
         if level == tree.num_bunds() - 1:
             # Make endpoints for escaping rays
             ev = sv + sd*escaping_len
-            parents = N.arange(ev.shape[1])
+            parents = shown
         else:
             end_rays = tree[level + 1]
-            escaping = ~N.any(
-                N.nonzero(non_degenerate)[0] == end_rays.get_parents()[:,None], 0)
+            escaping = ~N.any(shown == end_rays.get_parents()[:,None], 0)
             escaping_endpoints = sv[:,escaping] + sd[:,escaping]*escaping_len
             
             ev = N.hstack((end_rays.get_vertices(), escaping_endpoints))
-            parents = N.hstack((end_rays.get_parents(), N.nonzero(escaping)[0]))
+            parents = N.hstack((end_rays.get_parents(), shown[escaping]))
             
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
-- 
2.43.0


From abc3723de9e90ce7bf3cac9fe843d6acd57706e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:09 +0000
Subject: [PATCH 19/29] fix: rays starting on a quadric surface find its far
 side

Rounding can put the starting point itself slightly ahead of the ray. It was
then chosen over the far intersection, and the engine, which ignores hits that
close, let the ray escape: closed mirror spheres and cylinders leaked.
---
 tracer/quadric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/quadric.py b/tracer/quadric.py
index a696e17..76f3381 100644
--- a/tracer/quadric.py
+++ b/tracer/quadric.py
@@ -77,6 +77,10 @@ class QuadricGM(GeometryManager):
             (-B[really_quadric] + pm*delta[really_quadric])/(2*A[really_quadric])
         inters_coords = v[:,any_inters] + d[:,any_inters]*hits.reshape(2,1,-1)
         
+        # A ray leaving this surface doesn't hit it where it starts, even if
+        # rounding puts that point slightly ahead.
+        hits[abs(hits) <= 1e-6] = 0.
+        
         # Quadrics can have two intersections. Here we allow child classes
         # to choose based on own method:
         select = self._select_coords(inters_coords, hits)
-- 
2.43.0


From 88cda2e41a461f9d474e99c894177e71aa6f18b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 20/29] fix: join ray properties of any dimension along the
 rays

---
 tracer/ray_bundle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tracer/ray_bundle.py b/tracer/ray_bundle.py
index b25ac3d..b3e2a94 100644
--- a/tracer/ray_bundle.py
+++ b/tracer/ray_bundle.py
@@ -161,9 +161,9 @@ class RayBundle:
                     newbund._create_property(attr[1:], None)
                 
                 # Do addition.
-                newbund.__dict__['set' + attr](N.hstack((
+                newbund.__dict__['set' + attr](N.concatenate((
                     self.__dict__['get' + attr](),
-                    added.__dict__['get' + attr]() )) )
+                    added.__dict__['get' + attr]() ), axis=-1) )
         
         return newbund
 
@@ -217,8 +217,8 @@ def concatenate_rays(bundles):
             
             # This is the actual concatenation:
             getter = 'get' + attr
-            newbund.__dict__['set' + attr](N.hstack(
-                [b.__dict__[getter]() for b in bundles]))
+            newbund.__dict__['set' + attr](N.concatenate(
+                [b.__dict__[getter]() for b in bundles], axis=-1))
     
     return newbund
 
-- 
2.43.0


From e508e8fa587a4be3645d74145f5b9bc783736b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:24 +0000
Subject: [PATCH 21/29] fix: leave out triangles that are collinear up to
 rounding

---
 tracer/models/triangulated_surface.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tracer/models/triangulated_surface.py b/tracer/models/triangulated_surface.py
index d396fa6..3818be7 100644
--- a/tracer/models/triangulated_surface.py
+++ b/tracer/models/triangulated_surface.py
@@ -34,11 +34,12 @@ class TriangulatedSurface(AssembledObject):
         
         xs = edges[:,0] / edge_norms[:,0,None]
         zs = np.cross(xs, edges[:,1])
-        zs /= np.sqrt((zs**2).sum(-1))[:,None]
-        non_collinear = np.any(abs(zs) > 1e-6, axis=1)
+        # Sine of the angle between the edges, before zs is made a unit vector.
+        zs_norms = np.sqrt((zs**2).sum(-1))
+        non_collinear = zs_norms > 1e-6*edge_norms[:,1]
         pos = pos[non_collinear]
         xs = xs[non_collinear]
-        zs = zs[non_collinear]
+        zs = zs[non_collinear] / zs_norms[non_collinear,None]
         ys = np.cross(zs, xs)
         edges = edges[non_collinear]
         
-- 
2.43.0


From c63890a43ad391d77d51a931d08af329b071a9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:56 +0000
Subject: [PATCH 22/29] fix: the aspect of the PETAL receiver changes its x
 dimension, as documented

---
 tracer/models/PETAL_dish.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tracer/models/PETAL_dish.py b/tracer/models/PETAL_dish.py
index 12f3462..6a98040 100644
--- a/tracer/models/PETAL_dish.py
+++ b/tracer/models/PETAL_dish.py
@@ -31,7 +31,7 @@ class PETAL(HomogenizedLocalReceiver):
         """
         dish_surf = Surface(HexagonalParabolicDishGM(diameter, focal_length), 
             opt.Reflective(1 - dish_opt_eff))
-        receiver_dims = (receiver_side, receiver_side*receiver_aspect)
+        receiver_dims = (receiver_side*receiver_aspect, receiver_side)
         HomogenizedLocalReceiver.__init__(self, dish_surf, receiver_pos, \
             receiver_dims, homogenizer_depth, homog_opt_eff)
         
-- 
2.43.0


From 65628b442c7346cf21e07ec6e31a2afa4d2e6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:41 +0000
Subject: [PATCH 23/29] fix: heliostat fields keep their own floating-point
 positions

---
 tracer/models/heliostat_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tracer/models/heliostat_field.py b/tracer/models/heliostat_field.py
index dfc11fb..2add28c 100644
--- a/tracer/models/heliostat_field.py
+++ b/tracer/models/heliostat_field.py
@@ -30,7 +30,8 @@ class HeliostatField(Assembly):
         apsorpt - part of incident energy absorbed by the heliostat.
         aim_height - the height (Z coordinate) of the target for aiming
         """
-        self._pos = positions  # Save collecting positions from the hstats.
+        # Save collecting positions from the hstats.
+        self._pos = N.array(positions, dtype=float)
         self._th = aim_height
         face_down = rotx(N.pi)
         
-- 
2.43.0


From 30e4f529ba4052c216eeba90a51ab2da4d90c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:13 +0000
Subject: [PATCH 24/29] fix: remove the meshes of surfaces that leave the scene

Replacing the assembly left the old one's meshes on display, and updating
surfaces failed when a removed surface had been cleared from the scene.
---
 tracer/mayavi_ui/scene_view.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 90b4ca0..044d37f 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -33,6 +33,7 @@ class TracerScene(t_api.HasTraits):
         t_api.HasTraits.__init__(self)
         self._esc = escaping
         
+        self._meshes = {}
         self.set_assembly(assembly)
         self._source = source
         
@@ -67,6 +68,10 @@ class TracerScene(t_api.HasTraits):
         Arguments:
         asm - an Assembly instance, whose all surfacesd have a mesh() method.
         """
+        for surf, mesh in self._meshes.values():
+            if mesh is not None:
+                mesh.remove()
+        
         self._asm = asm
         self._meshes = dict((id(s), (s, None)) for s in asm.get_surfaces())
         self.show_assembly()
@@ -84,7 +89,8 @@ class TracerScene(t_api.HasTraits):
         # Remove:
         for sid in self._meshes.keys():
             if sid not in surf_ids:
-                self._meshes[sid][1].remove()
+                if self._meshes[sid][1] is not None:
+                    self._meshes[sid][1].remove()
                 del self._meshes[sid]
         
         # Add:
-- 
2.43.0


From a654d1f959df87caeba861d9de79e742aa02ed72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:13 +0000
Subject: [PATCH 25/29] fix: do not draw rays that the ray selector leaves out

The selector only applied to rays that don't hit anything.
---
 tracer/mayavi_ui/scene_view.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 044d37f..80bbadb 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -267,8 +267,10 @@ def show_rays(scene, tree, escaping_len, ray_selector=None):
         points.append(ev)
         accum_points.append(accum_points[-1] + ev.shape[1])
         
-        connections.append(N.hstack((accum_points[level] + parents[:,None],
-            accum_points[level + 1] + N.arange(ev.shape[1])[:,None] )) )
+        # Rays that are not shown aren't drawn even if they hit something:
+        ends = N.nonzero(non_degenerate[parents])[0]
+        connections.append(N.hstack((accum_points[level] + parents[ends][:,None],
+            accum_points[level + 1] + ends[:,None] )) )
     
     points = N.hstack(points)
     connections = N.vstack(connections)
-- 
2.43.0


From bf7f426f104249a1ff5b23c1ee3f715849a74bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:13 +0000
Subject: [PATCH 26/29] fix: show the caption tag of the top assembly

Its edited caption was stored but the default shown again on the next display.
---
 tracer/qt/assembly_tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tracer/qt/assembly_tree.py b/tracer/qt/assembly_tree.py
index 3917bff..ecc0cf3 100644
--- a/tracer/qt/assembly_tree.py
+++ b/tracer/qt/assembly_tree.py
@@ -47,7 +47,11 @@ class AssemblyTree(QtGui.QTreeWidget):
         self.clear()
         
         # Repopulate:
-        asm_item = AssemblyTreeItem(["Top assembly"], asm)
+        caption = self.get_tag(asm, 'caption')
+        if caption is None:
+            caption = "Top assembly"
+        
+        asm_item = AssemblyTreeItem([caption], asm)
         asm_item.setFlags(asm_item.flags()|QtCore.Qt.ItemIsEditable)
         self.itemChanged.connect(asm_item.update_caption)
         
-- 
2.43.0


From 548060857b90eaca1e81ce75009353843d2bee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:05 +0000
Subject: [PATCH 27/29] fix: remove the rays of the previous source when the
 scene has none

They stayed on display after set_source(None).
---
 tracer/mayavi_ui/scene_view.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tracer/mayavi_ui/scene_view.py b/tracer/mayavi_ui/scene_view.py
index 80bbadb..6e4b6ac 100644
--- a/tracer/mayavi_ui/scene_view.py
+++ b/tracer/mayavi_ui/scene_view.py
@@ -143,17 +143,17 @@ class TracerScene(t_api.HasTraits):
         from the scene's source, retraces its rays, and plots them on the
         scene.
         """
+        # Remove previous rays:
+        if self._lines is not None:
+            self._lines.remove()
+            self._lines = None
+        
         # Allow a scene with no source:
         if self._source is None:
             return
         
         self._scene.disable_render = True
         
-        # Remove previous rays:
-        if self._lines is not None:
-            self._lines.remove()
-            self._lines = None
-        
         # Trace new rays:
         engine = TracerEngine(self._asm)
         params = engine.ray_tracer(self._source, 
-- 
2.43.0


From b5c13052aa051aa8ea6d89e44800ee31f2be22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:31 +0000
Subject: [PATCH 28/29] fix: trace through a scene without surfaces

---
 tracer/tracer_engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 2483197..06e3ead 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -46,6 +46,10 @@ class TracerEngine():
         stack = N.zeros(ret_shape)
         owned_rays = N.empty(ret_shape, dtype=N.bool)
         
+        # With no surfaces there is nothing to hit.
+        if len(surfaces) == 0:
+            return stack.astype(N.bool), owned_rays
+        
         # Bounce rays off each object
         for surf_num in xrange(len(surfaces)):
             owned_rays[surf_num] = ((ray_ownership == -1) | \
-- 
2.43.0


From 9b6c67a79c348dd070d4873445655c3606d68a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:31 +0000
Subject: [PATCH 29/29] fix: trace without a tree for zero repetitions

---
 tracer/tracer_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tracer/tracer_engine.py b/tracer/tracer_engine.py
index 06e3ead..ec377a8 100644
--- a/tracer/tracer_engine.py
+++ b/tracer/tracer_engine.py
@@ -118,6 +118,7 @@ class TracerEngine():
         ray_ownership = -1*N.ones(bund.get_num_rays())
         surfs_relevancy = N.ones((num_surfs, bund.get_num_rays()), dtype=N.bool)
         
+        record = [bund] # the last bundle, if there are no iterations.
         for i in xrange(reps):
             front_surf, owned_rays = self.intersect_ray(bund, surfaces, objects, \
                 surf_ownership, ray_ownership, surfs_relevancy)
-- 
2.43.0

