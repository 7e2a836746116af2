From 5b3a27ee79cdcefe33ed4a7985fd24aa9ec10b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 01/33] fix: apply the intensity threshold when removing rays
 from a trace

np.logical_or takes two operands; the third positional argument is the
output array, so rays below ray_intensity_threshold were never removed.
---
 pyrayt/_pyrayt.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8005f85..8ea202d 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -414,9 +414,7 @@ class RayTracer(object):
         # (no intersection)
         absorbed_rays = np.isclose(np.linalg.norm(self._ray_set.rays[1], axis=0), 0)
         powerless_rays = self._ray_set.intensity < self.ray_intensity_threshold
-        dead_rays = np.logical_or(
-            absorbed_rays, self._hit_surfaces == -1, powerless_rays
-        )
+        dead_rays = absorbed_rays | (self._hit_surfaces == -1) | powerless_rays
         living_rays = np.logical_not(dead_rays)  # living rays aren't dead...
         # increment the generation number
 
-- 
2.43.0


From 7cfc5cc6079e660793baa4d11a9bcccf194f82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 02/33] fix: rebuild the surface table at the start of every
 trace

Components passed to load_components (or added to the list returned by
get_system) were intersected but never interacted with the rays.
---
 pyrayt/_pyrayt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8ea202d..8869601 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -254,10 +254,8 @@ class RayTracer(object):
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
 
-        # make a flattened list of all surface IDS
+        # flattened list of all surface IDS, rebuilt from the current components at the start of every trace
         self._surface_lut = tuple()
-        for shape in self._components:
-            self._surface_lut += shape.surface_ids
 
     def reset(self):
         """
@@ -356,6 +354,11 @@ class RayTracer(object):
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
 
+        # make a flattened list of all surface IDS
+        self._surface_lut = tuple()
+        for shape in self._components:
+            self._surface_lut += shape.surface_ids
+
         # make a ray set from the concatenated ray sets returned by the sources
         self._ray_set = np.hstack(
             [source.generate_rays(self._rays_per_source) for source in self._sources]
-- 
2.43.0


From 81e875b895390091e0f395fb0f3bda7b0099e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 03/33] fix: RayTracer.get_system returns the loaded components

---
 pyrayt/_pyrayt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 8869601..62cc665 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -322,7 +322,7 @@ class RayTracer(object):
         :return: List[tinygfx.g3d.world_objects.Intersectable]
         """
 
-        return self._system
+        return self._components
 
     def trace(self):
         self._state = RayTracer._States.INITIALIZE  # kick off the state machine
-- 
2.43.0


From 413a2c5707535b47b38010c5cd68ebf1bda872b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 04/33] fix: EdgeRender.get_results returns the rendered image

---
 tinygfx/g3d/renderers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c623919..81dd437 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -54,11 +54,11 @@ class EdgeRender(object):
 
     def get_results(self):
         """
-        Returns a dataframe of the Ray Trace Results
+        Returns the rendered image
 
-        :return: pandas dataframe
+        :return: the image from the last call to render(), None if nothing has been rendered
         """
-        return self._frame.data
+        return self._results
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
-- 
2.43.0


From b44c90b904564ec36b2d460c9f188608cf65bdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:32 +0000
Subject: [PATCH 05/33] fix: return elliptical apertures

---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index e7d950d..b145e1a 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -42,12 +42,12 @@ def _create_aperture(aperture: Union[float, tuple], thickness):
 
     elif aperture[0] < 0 and aperture[1] < 0:
         # if two values were passed it's elliptical
-        aperture = cg.Cylinder(
+        elliptical_aperture = cg.Cylinder(
             radius=np.abs(aperture[0]) / 2,
             min_height=-thickness / 2,
             max_height=thickness / 2,
         )
-        aperture.scale_y(aperture[1] / aperture[0])
+        return elliptical_aperture.scale_y(aperture[1] / aperture[0])
 
     else:
         raise TypeError(f"Could not deduce an aperture from {aperture}")
-- 
2.43.0


From 212b7aa9031fdd4e6c8105c72d4860aa50b3e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 06/33] fix: use a stable sort when merging CSG hits

A planar surface returns the same distance twice (enter, exit). The default
argsort may swap equal keys, which turns the pair into exit, enter and drops
the hit: rays passed through a plane with a compound hole.
---
 tinygfx/g3d/csg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9dad29f..f98467d 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -28,13 +28,13 @@ def array_csg(
     if array1.ndim == 1:
         # if 1D arrays were passed, concatenate
         merged_array = np.concatenate((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort]
 
     else:
         # otherwise stack them where each column represents a unique ray's hits
         merged_array = np.vstack((array1, array2))
-        merged_argsort = np.argsort(merged_array, axis=0)
+        merged_argsort = np.argsort(merged_array, axis=0, kind="stable")
         merged_array = merged_array[merged_argsort, np.arange(merged_array.shape[-1])]
 
     if operation == Operation.UNION or operation == Operation.INTERSECT:
@@ -136,7 +136,9 @@ class CSGSurface(Intersectable):
 
         # build a mask to sort the surfaces
         csg_surfaces = np.vstack((l_surfaces, r_surfaces))
-        surface_sort_mask = np.argsort(np.vstack((l_hits, r_hits)), axis=0)
+        surface_sort_mask = np.argsort(
+            np.vstack((l_hits, r_hits)), axis=0, kind="stable"
+        )
         csg_surfaces = csg_surfaces[
             surface_sort_mask, np.arange(csg_surfaces.shape[-1])
         ]
@@ -144,7 +146,7 @@ class CSGSurface(Intersectable):
         csg_hits = array_csg(l_hits, r_hits, self._operation, sort_output=False)
 
         # sort the hits and the surface mask
-        hit_argsort = np.argsort(csg_hits, axis=0)
+        hit_argsort = np.argsort(csg_hits, axis=0, kind="stable")
         csg_surfaces = csg_surfaces[hit_argsort, np.arange(csg_surfaces.shape[-1])]
         csg_hits = csg_hits[hit_argsort, np.arange(csg_hits.shape[-1])]
 
-- 
2.43.0


From 608d6cbfe0cd1966242090e006bf7a137f82b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 07/33] fix: bound a CSG union by the hull of both children

For children that are disjoint along an axis the box only covered the first
of them, so rays that hit the other one were culled.
---
 tinygfx/g3d/csg.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index f98467d..9a1bcf1 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -95,7 +95,16 @@ class CSGSurface(Intersectable):
         the bounding box is only updated for add and intersection operations
         :return:
         """
-        if self._operation != Operation.DIFFERENCE:
+        if self._operation == Operation.UNION:
+            # the union is bounded by the hull of both children, which may be disjoint along an axis
+            l_spans = self._l_child.bounding_box.axis_spans
+            r_spans = self._r_child.bounding_box.axis_spans
+            local_aobb = primitives.Cube(
+                np.minimum(l_spans[:, 0], r_spans[:, 0]),
+                np.maximum(l_spans[:, 1], r_spans[:, 1]),
+            )
+
+        elif self._operation == Operation.INTERSECT:
             new_spans = array_csg(
                 self._l_child.bounding_box.axis_spans.T,
                 self._r_child.bounding_box.axis_spans.T,
-- 
2.43.0


From d5e44df7bc25bb0e3bc422b20ea27789f99b382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 08/33] fix: propagate a moved surface to every CSG ancestor

attach_to copied the parent's watch list, so a parent that was nested in a
further CSG operation afterwards did not refresh the bounding box of its own
parents when one of its leaves was moved.
---
 tinygfx/g3d/world_objects.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 94d4fd7..6ee55c1 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -127,6 +127,9 @@ class WorldObject(CountedObject):
         self._world_coordinate_transform = np.matmul(
             new_transform, self._world_coordinate_transform
         )
+        self._notify_watchers()
+
+    def _notify_watchers(self):
         # update the functions in the watch list
         [fn() for fn in self.var_watchlist]
 
@@ -314,7 +317,8 @@ class Intersectable(WorldObject, abc.ABC):
 
     def attach_to(self, parent_object: WorldObject) -> None:
         self._parent = parent_object
-        self.var_watchlist += parent_object.var_watchlist
+        # notify the parent, not the functions it watches right now: it may be attached to a parent of its own later
+        self.var_watchlist.append(parent_object._notify_watchers)
 
     def invert_normals(self):
         self._normal_scale = -1
-- 
2.43.0


From 78bed0c7394599db363afeb957324f2de0e934fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 09/33] fix: keep normals outward for nested CSG differences

invert_normals set the sign instead of flipping it, so a - (b - c) left the
normals of c inverted, and reset_normals dropped the inversion that the
difference itself needs.
---
 tinygfx/g3d/csg.py           | 3 +++
 tinygfx/g3d/world_objects.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index 9a1bcf1..afde86d 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -177,6 +177,9 @@ class CSGSurface(Intersectable):
     def reset_normals(self):
         self._l_child.reset_normals()
         self._r_child.reset_normals()
+        # the subtracted surface of a difference is inverted by default
+        if self._operation == Operation.DIFFERENCE:
+            self._r_child.invert_normals()
 
     @property
     def surface_ids(self) -> tuple:
diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 6ee55c1..e894652 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -321,7 +321,7 @@ class Intersectable(WorldObject, abc.ABC):
         self.var_watchlist.append(parent_object._notify_watchers)
 
     def invert_normals(self):
-        self._normal_scale = -1
+        self._normal_scale = -self._normal_scale
 
     def reset_normals(self):
         self._normal_scale = 1
-- 
2.43.0


From 11b6f38df1ca78d5095ddb1408a82c8276255700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:58 +0000
Subject: [PATCH 10/33] fix: intersect cylinders and paraboloids with nearly
 axial rays

Rays within 1e-4 rad of the axis were treated as exactly parallel to it: the
wall of a cylinder was placed at -c/b for both roots, so every lens with a
circular aperture was missed by slightly tilted rays.
---
 tinygfx/g3d/operations.py |  9 +++++----
 tinygfx/g3d/primitives.py | 12 +++---------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 9eb7a35..052e1af 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -40,13 +40,14 @@ def binomial_root(a, b, c, disc=None):
         b ** 2 - 4 * a * c if disc is None else disc
     )  # find the discriminant, or use the provided one
     # linear cases are where there's no expontential term, have to be handled separately
-    linear_cases = np.isclose(a, 0)
+    linear_cases = np.equal(a, 0)
     root = np.sqrt(
         np.maximum(0, disc)
     )  # the square root of the discriminant protected from being nan
 
-    # solve for the polynomial roots
-    polyroots = np.vstack(((-b + root), (-b - root))) / (2 * a + np.isclose(a, 0))
+    # solve for the polynomial roots, adding terms of the same sign so that no digits cancel if a is small
+    q = -0.5 * (b + np.where(np.less(b, 0), -root, root))
+    polyroots = np.vstack((q / (a + linear_cases), c / (q + np.equal(q, 0))))
     # Now correct for the cases that should be infinite
     polyroots = np.where(disc >= 0, polyroots, np.inf)
 
@@ -56,7 +57,7 @@ def binomial_root(a, b, c, disc=None):
     # correct for cases that have neither a or b terms
     # if there's not a or b and the discriminant is positive, return +/-inf, otherwise just + inf
     # this is for cylinder intersections cases
-    c_terms_only = np.logical_and(linear_cases, np.isclose(b, 0))
+    c_terms_only = np.logical_and(linear_cases, np.equal(b, 0))
     polyroots = np.where(c_terms_only, np.inf, polyroots)
     polyroots[0] = np.where(np.logical_and(c_terms_only, c <= 0), -np.inf, polyroots[0])
 
diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index ef28092..4f4846e 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -343,16 +343,10 @@ class Paraboloid(SurfacePrimitive):
         # calculate the binomial roots of the function
         disc = b ** 2 - 4 * a * c  # the discriminant of the sqrt in the roots equation
         # linear cases are where there's no expontential term, have to be handled separately
-        linear_cases = np.isclose(a, 0)
-        root = np.sqrt(
-            np.maximum(0, disc)
-        )  # the square root of the discriminant protected from being nan
+        linear_cases = np.equal(a, 0)
 
-        # solve for the polynomial roots
-        parabola_hits = np.vstack(((-b + root), (-b - root))) / (2 * a + linear_cases)
-
-        # Now correct for the cases that should be infinite (no intersection)
-        parabola_hits = np.where(disc >= 0, parabola_hits, np.inf)
+        # solve for the polynomial roots, they are infinite if there's no intersection
+        parabola_hits = binomial_root(a, b, c, disc)
 
         # update for the linear roots case
         # for linear cases, the second intersection should be +inf if the ray is traveling in the positive z direction
-- 
2.43.0


From 21b5dafceea81d9b392d5b8d214180f570a9c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 11/33] fix: stop a trace whose generation limit is zero

The limit was compared for equality after the first generation, so a limit of
zero (or a fractional one) never stopped rays between two mirrors.
---
 pyrayt/_pyrayt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 62cc665..69b0742 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -366,9 +366,12 @@ class RayTracer(object):
         self._ray_set.id = np.arange(
             self._ray_set.n_rays
         )  # update the ID's to avoid duplicates
+        # update the state machine to propagate through the system, unless no generations are allowed
         self._state = (
             self._States.PROPAGATE
-        )  # update the state machine to propagate through the system
+            if self._generation_number < self._generation_limit
+            else self._States.FINISH
+        )
 
     def _st_propagate(self):
         # the hits matrix is an 1xn matrix to track the nearest hits
@@ -442,7 +445,7 @@ class RayTracer(object):
             next_ray_set.generation = self._generation_number
 
             # if we hit the generation limit exit the sim
-            if self._generation_number == self._generation_limit:
+            if self._generation_number >= self._generation_limit:
                 self._state = RayTracer._States.FINISH
 
             else:
-- 
2.43.0


From f2341025f9c76ba751259f823b4fe5b35811122f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 12/33] fix: attribute rays to the source that generated them

calculate_source_ids and show(color_function='source') divided the ray id by
the current rays_per_source, which is wrong once that was changed after the
trace.
---
 pyrayt/_pyrayt.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 69b0742..4f9ee5a 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -253,6 +253,7 @@ class RayTracer(object):
 
         self._ray_set = RaySet(0)
         self._next_ray_set = RaySet(0)
+        self._source_of_ray = np.zeros(0, dtype=int)
 
         # flattened list of all surface IDS, rebuilt from the current components at the start of every trace
         self._surface_lut = tuple()
@@ -348,8 +349,8 @@ class RayTracer(object):
         """
         Calculates the Source ID for every ray in the dataframe, adding it as a column
         """
-        ids = (self._frame.data["id"] / self._rays_per_source).astype(int)
-        self._frame.data["source_id"] = ids
+        ids = self._frame.data["id"].astype(int)
+        self._frame.data["source_id"] = self._source_of_ray[ids]
 
     def _st_initialize(self):
         self.reset()  # reset the renderer states/generation number
@@ -360,9 +361,14 @@ class RayTracer(object):
             self._surface_lut += shape.surface_ids
 
         # make a ray set from the concatenated ray sets returned by the sources
-        self._ray_set = np.hstack(
-            [source.generate_rays(self._rays_per_source) for source in self._sources]
-        ).view(RaySet)
+        source_rays = [
+            source.generate_rays(self._rays_per_source) for source in self._sources
+        ]
+        self._ray_set = np.hstack(source_rays).view(RaySet)
+        # which source generated each ray, rays_per_source may change before the results are used
+        self._source_of_ray = np.repeat(
+            np.arange(len(source_rays)), [rays.shape[-1] for rays in source_rays]
+        )
         self._ray_set.id = np.arange(
             self._ray_set.n_rays
         )  # update the ID's to avoid duplicates
@@ -486,12 +492,10 @@ class RayTracer(object):
                 np.linspace(0.45, 0.65, n_colors)
             )  # generate the colors we'll use
             color = np.empty((3, self._frame.data.shape[0]))
+            source_ids = self._source_of_ray[self._frame.data["id"].astype(int)]
             for n, this_color in enumerate(colors):
                 color = np.where(
-                    np.logical_and(
-                        self._frame.data["id"] >= n * self._rays_per_source,
-                        self._frame.data["id"] < (n + 1) * self._rays_per_source,
-                    ),
+                    source_ids == n,
                     np.atleast_2d(this_color).T,
                     color,
                 )
-- 
2.43.0


From 67020c6a9b03680fdd860ed8450b17d12e5fba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 13/33] fix: restore pinned members of pinned containers

Restoring a container moves its members, so a member that was listed before
its pinned container was moved away again when the pin was released.
---
 pyrayt/_pyrayt.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 4f9ee5a..3212eb6 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -577,7 +577,12 @@ class pin(object):
 
     def __exit__(self, exception_type, exception_value, traceback):
 
-        for this_object, starting_matrix in zip(self._obj_set, self._starting_matrices):
-            final_matrix = this_object.get_world_transform()
-            matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
-            this_object.transform(np.linalg.inv(matrix_change))
+        # restoring a container also moves its members, repeat so that pinned members of pinned containers end up
+        # restored no matter what order they were passed in
+        for _ in self._obj_set:
+            for this_object, starting_matrix in zip(
+                self._obj_set, self._starting_matrices
+            ):
+                final_matrix = this_object.get_world_transform()
+                matrix_change = np.matmul(final_matrix, np.linalg.inv(starting_matrix))
+                this_object.transform(np.linalg.inv(matrix_change))
-- 
2.43.0


From ef1e65daaea65ed59003e7e5234f844e9afba6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 14/33] fix: reject a scale factor of zero before applying it

The singular matrix was stored and only then rejected, which left the object
without a usable pose.
---
 tinygfx/g3d/world_objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index e894652..230e97a 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -218,8 +218,10 @@ class WorldObject(CountedObject):
     # Scale operations
     def scale(self, x=1, y=1, z=1):
         # for now we're only going to allow positive scaling
-        if x < 0 or y < 0 or z < 0:
-            raise ValueError("Negative values for scale operations are prohibited")
+        if x <= 0 or y <= 0 or z <= 0:
+            raise ValueError(
+                "Negative or zero values for scale operations are prohibited"
+            )
 
         tx = np.diag((x, y, z, 1))
         self._append_world_transform(tx)
-- 
2.43.0


From e9dcd7a5ea38372b9475a03d62574a8a4eb4ed89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 15/33] fix: accept a single wavelength in wavelength_to_rgb

---
 pyrayt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/utils.py b/pyrayt/utils.py
index 4371ac8..65de225 100644
--- a/pyrayt/utils.py
+++ b/pyrayt/utils.py
@@ -13,7 +13,7 @@ def wavelength_to_rgb(wavelength: Tuple[float, np.ndarray], gamma=0.8) -> np.nda
     :rtype: np.ndarray
     """
 
-    wavelength = np.asarray(wavelength)  # convert the wavelength into a numpy array
+    wavelength = np.atleast_1d(wavelength)  # convert the wavelength into a numpy array
     color = np.empty((3, wavelength.shape[0]))  # an empty matrix to generate color
 
     # calculate the color for 380 -> 440 nm
-- 
2.43.0


From 49c8cced6b5eede67aa1fc4dbed0828a7b1fc8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 16/33] fix: average the shading of several lights

The light vectors were subtracted with mismatched axes and normalised along
the wrong one: three lights gave wrong colors, any other count an error.
---
 tinygfx/g3d/materials/gooch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinygfx/g3d/materials/gooch.py b/tinygfx/g3d/materials/gooch.py
index 2b03e64..e4bb3af 100644
--- a/tinygfx/g3d/materials/gooch.py
+++ b/tinygfx/g3d/materials/gooch.py
@@ -46,12 +46,10 @@ class GoochMaterial(Material):
             ]
 
         else:
-            light_vectors = light_positions[:3, :, np.newaxis] - np.tile(
-                rays[0, :3], (light_positions.shape[-1], 1, 1)
-            )
+            light_vectors = light_positions[:3].T[:, :, np.newaxis] - rays[0, :3]
 
         # normalize the light vector
-        light_vectors /= np.linalg.norm(light_vectors, axis=1)
+        light_vectors /= np.linalg.norm(light_vectors, axis=1, keepdims=True)
         # take the dot product of each slice of the light vectors with the normal vector
         light_normal_dot = np.einsum("ijk,jk->ik", light_vectors, normals)
 
-- 
2.43.0


From f97dc7fd858ae16597d4e60672310910fd03be95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:03 +0000
Subject: [PATCH 17/33] fix: space the rays of CircleOfRays uniformly

The end of the arc coincides with its start, so two of the rays were identical
and the others were spaced as if there was one ray less.
---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index b145e1a..f60a3f7 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -546,7 +546,7 @@ class CircleOfRays(Source):
 
         rayset = pyrayt.RaySet(n_rays)
         # if we want more than one ray, linearly space them, otherwise default position is fine
-        theta = np.linspace(0, 2 * np.pi, n_rays)
+        theta = np.linspace(0, 2 * np.pi, n_rays, endpoint=False)
         rayset.rays[0, 1] = (
             self._diameter / 2 * np.sin(theta)
         )  # space rays along the y-axis
-- 
2.43.0


From 2dca34fe749641913ee0b52c25f203c493b32745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:06 +0000
Subject: [PATCH 18/33] fix: let a StaticLamp follow its pose and wavelength

The rays were cached in world space: moving the lamp or changing its
wavelength had no effect, modifying a returned ray set changed all later ones,
and the cache of ten entries was shared by all lamps.
---
 pyrayt/components.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index f60a3f7..769ac6e 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -1,5 +1,4 @@
 import abc
-from functools import lru_cache
 from functools import wraps
 from typing import Union, Tuple
 
@@ -657,6 +656,15 @@ class Lamp(Source):
 class StaticLamp(Lamp):
     """Identical to a :class:`Lamp`, except the ray generation function is cached so the same set of rays is generated across multiple simulations. Useful for running Monte-Carlo models where the random noise of the source is larger than the resolution you're trying to capture at."""
 
-    @lru_cache(10)
-    def generate_rays(self, n_rays: int) -> pyrayt.RaySet:
-        return super().generate_rays(n_rays)
+    def __init__(self, *args, **kwargs) -> None:
+        super().__init__(*args, **kwargs)
+        self._cached_rays = {}
+
+    def _local_ray_generation(self, n_rays: int) -> pyrayt.RaySet:
+        # the random rays are drawn once, callers get a copy so that it's safe to modify the returned set, and the pose
+        # and wavelength of the lamp can change between calls
+        if n_rays not in self._cached_rays:
+            self._cached_rays[n_rays] = super()._local_ray_generation(n_rays)
+        ray_set = self._cached_rays[n_rays].copy()
+        ray_set.wavelength = self._wavelength
+        return ray_set
-- 
2.43.0


From 73e6397c51cb2be9266ed751ef30d5b273374e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:32 +0000
Subject: [PATCH 19/33] fix: build biconvex and plano-convex lenses from the
 documented radii

With r1 != r2 the radii of the two sides were swapped while their centers were
not and both spheres were placed with r1. Negative and infinite radii, which
are documented as their absolute value and as a plane, were not handled.
---
 pyrayt/components.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 769ac6e..8296c4f 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -181,17 +181,18 @@ def biconvex_lens(r1: float, r2: float, thickness: float, **kwargs) -> cg.Inters
 
     # create an aperture from the aperture arguments
     aperture_shape = _create_aperture(kwargs.get("aperture"), thickness)
-    left_side = cg.Sphere(r2).move_z(r1 - thickness / 2)
-    right_side = cg.Sphere(r1).move_z(-(r1 - thickness / 2))
-
-    # assign materials from the kwargs
     material = kwargs.get("material")
     aperture_shape.material = material
-    left_side.material = material
-    right_side.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(cg.csg.intersect(left_side, right_side), aperture_shape)
+    # perform csg to get the final lens, if a radius is infinite the aperture is already planar on that side
+    lens = aperture_shape
+    r1, r2 = abs(r1), abs(r2)
+    if np.isfinite(r1):
+        left_side = cg.Sphere(r1, material=material).move_z(r1 - thickness / 2)
+        lens = cg.csg.intersect(left_side, lens)
+    if np.isfinite(r2):
+        right_side = cg.Sphere(r2, material=material).move_z(-(r2 - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
@@ -214,15 +215,17 @@ def plano_convex_lens(r: float, thickness: float, **kwargs) -> cg.csg.Intersecta
 
     # create an aperture from the aperture arguments
     aperture = _create_aperture(kwargs.get("aperture"), thickness)
-    right_side = cg.Sphere(r).move_z(-(r - thickness / 2))
 
     # assign materials from the kwargs
     material = kwargs.get("material")
     aperture.material = material
-    right_side.material = material
 
-    # perform csg to get the final lens
-    lens = cg.csg.intersect(right_side, aperture)
+    # perform csg to get the final lens, if the radius is infinite it's a planar window
+    lens = aperture
+    r = abs(r)
+    if np.isfinite(r):
+        right_side = cg.Sphere(r, material=material).move_z(-(r - thickness / 2))
+        lens = cg.csg.intersect(right_side, lens)
 
     # now we need to rotate the lens so it's orientated in the YZ plane
     return lens
-- 
2.43.0


From b8ca1828d9cfcfc54fd5a4035699da7a6c537c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:34 +0000
Subject: [PATCH 20/33] fix: place plane mirrors between x=-thickness and x=0
 as documented

---
 pyrayt/components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 8296c4f..1175c07 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -262,8 +262,8 @@ def plane_mirror(thickness: float, **kwargs) -> cg.Intersectable:
     """
     off_axis = kwargs.get("off_axis")
     mirror = _create_aperture(kwargs.get("aperture"), thickness).move(
-        *off_axis, 0
-    )  # move the mirror to it's off axis pt
+        *off_axis, -thickness / 2
+    )  # move the mirror to it's off axis pt, with the second surface at the origin
     mirror.material = kwargs.get("material")
     return mirror
 
-- 
2.43.0


From 7e1c6c50cc80bcb1aa35627adccf4d30bd6e14c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 21/33] fix: intersect rays with a cuboid of zero thickness

A rectangular plane_mirror with a thickness of zero, documented as a 2D planar
mirror, was transparent. Cylinders already count touching hits.
---
 tinygfx/g3d/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/primitives.py b/tinygfx/g3d/primitives.py
index 4f4846e..b4aa6af 100644
--- a/tinygfx/g3d/primitives.py
+++ b/tinygfx/g3d/primitives.py
@@ -569,7 +569,7 @@ class Cube(SurfacePrimitive):
         )  # second hit is the min value of the maximums
 
         # if the min is larger than the max the ray missed the cube and should be replaced with inf
-        cube_hits = np.where(cube_hits[0] < cube_hits[1], cube_hits, np.inf)
+        cube_hits = np.where(cube_hits[0] <= cube_hits[1], cube_hits, np.inf)
 
         # return the cube hits
         return cube_hits
-- 
2.43.0


From 973fb3d4a2d1df89c41cf664500a7ea313acf14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 22/33] fix: build a plane mirror from an infinite
 spherical_mirror radius

The documented radius of math.inf gave nan distances and no mirror.
---
 pyrayt/components.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index 1175c07..dab75d0 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -301,7 +301,12 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
         # otherwise if it's circular it's just the radius
         dl = aperture / 2
 
-    aperture_front_thickness = abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+    # a planar mirror is cut flat, it only needs some material in front of the cut
+    aperture_front_thickness = (
+        abs(radius) - np.sqrt(radius ** 2 - (l + dl) ** 2)
+        if np.isfinite(radius)
+        else dl
+    )
     total_thickness = (
         aperture_front_thickness + thickness
     )  # the total aperture thickness
@@ -312,8 +317,16 @@ def spherical_mirror(radius: float, thickness: float, **kwargs) -> cg.Intersecta
     aperture.material = matl.absorber
     aperture.move(*off_axis, 0)
 
+    # an infinite radius is a planar surface at the origin
+    if np.isinf(radius):
+        span = 2 * (l + dl)
+        mirror_surface = cg.Cuboid(
+            (-span, -span, 0), (span, span, 2 * dl), material=material
+        )
+        aperture.move_z(total_thickness / 2 - thickness)
+
     # a radius >0 puts the curvature on the right side of the lens
-    if radius > 0:
+    elif radius > 0:
         mirror_surface = cg.Sphere(radius, material=material).move_z(radius)
         aperture.move_z(total_thickness / 2 - thickness)
     elif radius < 0:
-- 
2.43.0


From 32b77fd0c0963688bae239dbf8cbaf4e5bba6a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 23/33] fix: size off-axis parabolic mirrors with elliptical
 apertures

The negative lengths that select an ellipse were added to the offset as they
are, so the far side of the mirror was cut off by an absorbing plane.
---
 pyrayt/components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index dab75d0..bb377ea 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -387,7 +387,7 @@ def parabolic_mirror(focus: float, thickness: float, **kwargs) -> cg.csg.Interse
     if hasattr(aperture, "__len__"):
         # if it's a rectangular aperture the dl is the norm of he rectangle
         furthest_point = np.linalg.norm(
-            np.abs(np.asarray(off_axis)) + np.asarray(aperture) / 2
+            np.abs(np.asarray(off_axis)) + np.abs(aperture) / 2
         )
     else:
         # otherwise if it's circular it's just the radius
-- 
2.43.0


From 0428714b6139a5b783e953cca7322003f46c6b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:10 +0000
Subject: [PATCH 24/33] fix: build baffles from any documented aperture
 specification

A rectangular baffle had its y and z side lengths swapped, and circles and
ellipses raised an error.
---
 pyrayt/components.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pyrayt/components.py b/pyrayt/components.py
index bb377ea..ff19aaf 100644
--- a/pyrayt/components.py
+++ b/pyrayt/components.py
@@ -451,6 +451,21 @@ def equilateral_prism(
     return prism
 
 
+def _create_stop(size: Union[float, Tuple[float, float]]) -> cg.Intersectable:
+    """
+    Creates an absorbing planar stop in the XY plane with the specified outline.
+
+    :param size: specification of the outline, as for an aperture
+    """
+    if hasattr(size, "__len__") and size[0] > 0 and size[1] > 0:
+        return cg.XYPlane(size[0], size[1], material=matl.absorber)
+
+    # any other outline is cut from the plane that encloses it
+    outline = _create_aperture(size, thickness=0.1)
+    side_lengths = np.abs(size) * np.ones(2)
+    return cg.csg.intersect(cg.XYPlane(*side_lengths, material=matl.absorber), outline)
+
+
 def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     """
     Creates a planar baffle that absorbs all intersecting rays.
@@ -460,7 +475,7 @@ def baffle(aperture: Union[float, Tuple[float, float]]) -> cg.Intersectable:
     :return: a planar baffle centered at the origin, coplanar to the YZ Plane.
     """
 
-    return cg.XYPlane(aperture[0], aperture[1], material=matl.absorber).rotate_y(90)
+    return _create_stop(aperture).rotate_y(90).rotate_x(90)
 
 
 def aperture(
@@ -477,7 +492,7 @@ def aperture(
     :rtype: cg.Intersectable
     """
 
-    aperture_stop = baffle(size).rotate_y(-90)
+    aperture_stop = _create_stop(size)
     aperture = _create_aperture(aperture_size, thickness=0.1)
 
     return cg.csg.difference(aperture_stop, aperture).rotate_y(90).rotate_x(-90)
-- 
2.43.0


From 0e221ac107711337fce7437f0d97633b3e6e99c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 25/33] fix: render the surfaces in front of the camera

Hits behind the camera were compared without masking them and won over the
ones in front of it. The xz view depended on this: its camera was behind the
scene. Both views now place the camera outside of the scene, also for scenes
that do not extend above z=0.
---
 tinygfx/g3d/renderers.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 81dd437..c325ca8 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -78,9 +78,9 @@ class EdgeRender(object):
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits that are behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -194,9 +194,9 @@ class ShadedRenderer:
         ray_hit_index = np.arange(self._rays.shape[-1])
         for n, shape in enumerate(self._shapes):
             shape_hits, shape_surfaces = shape.intersect(self._rays)
-            nearest_hit_arg = np.argmin(
-                np.where(shape_hits > 0, shape_hits, np.inf), axis=0
-            )
+            # eliminate any hits that are behind the camera
+            shape_hits = np.where(shape_hits > 0, shape_hits, np.inf)
+            nearest_hit_arg = np.argmin(shape_hits, axis=0)
             nearest_hit = shape_hits[nearest_hit_arg, ray_hit_index]
             nearest_surface = shape_surfaces[nearest_hit_arg, ray_hit_index]
             new_minima = nearest_hit < hit_distances
@@ -263,12 +263,16 @@ def draw(
     bounding_box = np.hstack(
         [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
     )
+    # the camera is placed outside of the scene, whatever bounds are drawn
+    scene_min = np.min(bounding_box, axis=1)
+    scene_max = np.max(bounding_box, axis=1)
+
     if bounds is not None:
         mins = np.asarray(bounds[0])
         maxes = np.asarray(bounds[1])
     else:
-        mins = np.min(bounding_box, axis=1)
-        maxes = np.max(bounding_box, axis=1)
+        mins = scene_min
+        maxes = scene_max
 
     if axis is None:
         axis = plt.gca()
@@ -276,15 +280,19 @@ def draw(
     # this case is for a "top" projection in the xy plane
     # the camera origin should be above the object centered over it
     if view == "xy":
-        _draw_xy(surfaces, axis, shaded, resolution, maxes, mins)
+        camera_z = scene_max[2] + 1
+        _draw_xy(surfaces, axis, shaded, resolution, maxes, mins, camera_z)
 
     elif view == "xz":
-        _draw_xz(surfaces, axis, shaded, resolution, maxes, mins)
+        camera_y = scene_min[1] - 1
+        _draw_xz(surfaces, axis, shaded, resolution, maxes, mins, camera_y)
 
 
-def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
+def _draw_xy(
+    surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins, camera_z
+):
     camera_origin = (maxes + mins) / 2
-    camera_origin[2] = 1.5 * maxes[2]
+    camera_origin[2] = camera_z
     h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
@@ -316,9 +324,11 @@ def _draw_xy(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, min
     axis.set_axisbelow(True)
 
 
-def _draw_xz(surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins):
+def _draw_xz(
+    surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins, camera_y
+):
     camera_origin = (maxes + mins) / 2
-    camera_origin[1] = 1.5 * maxes[1]
+    camera_origin[1] = camera_y
     h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
-- 
2.43.0


From 5adf8d3125adaa221cc2b133e1540b083c64d64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 26/33] fix: compute the Abbe number from the current
 coefficients

The cached value was returned after the public Sellmeier coefficients of a
glass had been changed.
---
 pyrayt/materials.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyrayt/materials.py b/pyrayt/materials.py
index d63cef5..c1c9a6c 100644
--- a/pyrayt/materials.py
+++ b/pyrayt/materials.py
@@ -4,7 +4,6 @@ from pyrayt._pyrayt import RaySet
 from tinygfx.g3d import materials as cg_matl
 import tinygfx.g3d as cg
 import abc
-from functools import lru_cache
 
 
 class TracableMaterial(cg_matl.gooch.Material):
@@ -74,7 +73,6 @@ class Glass(TracableMaterial):
         )
         return ray_set
 
-    @lru_cache(100)
     def abbe(self) -> float:
         """
         Calculates the `Abbe number <https://en.wikipedia.org/wiki/Abbe_number>`_ of the material.
-- 
2.43.0


From 87a703fb19ed51452cfbbe92716a4359e265cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 27/33] fix: sources and components given as iterators were
 used up by the first trace

---
 pyrayt/_pyrayt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index 3212eb6..bf6ab1c 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -229,14 +229,17 @@ class RayTracer(object):
         if not hasattr(sources, "__iter__"):
             self._sources = (sources,)
         else:
-            self._sources = sources
+            # an iterator could be traced only once
+            self._sources = sources if hasattr(sources, "__len__") else tuple(sources)
 
         if not hasattr(
             components, "__iter__"
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            self._components = (
+                components if hasattr(components, "__len__") else tuple(components)
+            )
 
         self._rays_per_source = rays_per_source
         self._generation_limit = (
@@ -313,7 +316,9 @@ class RayTracer(object):
         ):  # returns True if type of iterable - same problem with strings
             self._components = (components,)
         else:
-            self._components = components
+            self._components = (
+                components if hasattr(components, "__len__") else tuple(components)
+            )
 
     def get_system(self):
         """
-- 
2.43.0


From 69f354cd4cd3b265bcf54bdf480f13ff228e0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:38 +0000
Subject: [PATCH 28/33] fix: components with an empty intersection no longer
 spoil the drawing of the others

---
 tinygfx/g3d/csg.py       |  5 +++++
 tinygfx/g3d/renderers.py | 13 ++++++++-----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/tinygfx/g3d/csg.py b/tinygfx/g3d/csg.py
index afde86d..e984cab 100644
--- a/tinygfx/g3d/csg.py
+++ b/tinygfx/g3d/csg.py
@@ -99,6 +99,11 @@ class CSGSurface(Intersectable):
             # the union is bounded by the hull of both children, which may be disjoint along an axis
             l_spans = self._l_child.bounding_box.axis_spans
             r_spans = self._r_child.bounding_box.axis_spans
+            # an empty child has no finite bounds, and the union is bounded by the other one
+            if not np.all(np.isfinite(l_spans)):
+                l_spans = r_spans
+            elif not np.all(np.isfinite(r_spans)):
+                r_spans = l_spans
             local_aobb = primitives.Cube(
                 np.minimum(l_spans[:, 0], r_spans[:, 0]),
                 np.maximum(l_spans[:, 1], r_spans[:, 1]),
diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index c325ca8..95789ae 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -263,16 +263,19 @@ def draw(
     bounding_box = np.hstack(
         [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
     )
-    # the camera is placed outside of the scene, whatever bounds are drawn
-    scene_min = np.min(bounding_box, axis=1)
-    scene_max = np.max(bounding_box, axis=1)
+    # surfaces that are empty have no finite bounds, and do not affect the others
+    bounding_box = bounding_box[:, np.all(np.isfinite(bounding_box), axis=0)]
 
     if bounds is not None:
         mins = np.asarray(bounds[0])
         maxes = np.asarray(bounds[1])
     else:
-        mins = scene_min
-        maxes = scene_max
+        mins = np.min(bounding_box, axis=1)
+        maxes = np.max(bounding_box, axis=1)
+
+    # the camera is placed outside of the scene, whatever bounds are drawn
+    scene_min = np.minimum(np.min(bounding_box, axis=1, initial=np.inf), mins[:3])
+    scene_max = np.maximum(np.max(bounding_box, axis=1, initial=-np.inf), maxes[:3])
 
     if axis is None:
         axis = plt.gca()
-- 
2.43.0


From 34020c66110d6bf538c93a66956622572bbc16ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 29/33] fix: refract leaves the vectors it is given unchanged

---
 tinygfx/g3d/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 052e1af..3570510 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -123,7 +123,7 @@ def refract(vectors, normals, n1, n2, n_global=1):
     :return: a 4xn array of homogeneous vectors representing the new transmission direction of the vectors after the
         medium
     """
-    vectors /= np.linalg.norm(vectors, axis=0)
+    vectors = vectors / np.linalg.norm(vectors, axis=0)
     cos_theta1_p = element_wise_dot(
         vectors, normals, axis=0
     )  # the angle dotted with the normals
-- 
2.43.0


From 387ca586a5c90d9bfe0cb90f6c3132b0a34f0a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:30 +0000
Subject: [PATCH 30/33] fix: smallest_positive_root missed the positive root of
 polynomials with a negative leading coefficient

---
 tinygfx/g3d/operations.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/operations.py b/tinygfx/g3d/operations.py
index 3570510..dc72430 100644
--- a/tinygfx/g3d/operations.py
+++ b/tinygfx/g3d/operations.py
@@ -20,8 +20,9 @@ def smallest_positive_root(a, b, c):
         2 * a + np.isclose(a, 0)
     )  # the positive element of the polynomial root
 
-    # want to keep the smallest hit that is positive, so if hits[1]<0, just keep the positive hit
-    nearest_hit = np.where(polyroots[1] >= 0, np.amin(polyroots, axis=0), polyroots[0])
+    # want to keep the smallest hit that is positive, so if the smaller hit is negative, keep the larger one
+    smaller, larger = np.amin(polyroots, axis=0), np.amax(polyroots, axis=0)
+    nearest_hit = np.where(smaller >= 0, smaller, larger)
     return np.where(np.logical_and(disc >= 0, nearest_hit >= 0), nearest_hit, np.inf)
 
 
-- 
2.43.0


From 58061c7180af963d377cbdf910b34b7692ef5326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 31/33] fix: get_position and get_orientation handed out the
 object's own arrays

---
 tinygfx/g3d/world_objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinygfx/g3d/world_objects.py b/tinygfx/g3d/world_objects.py
index 230e97a..39ada54 100644
--- a/tinygfx/g3d/world_objects.py
+++ b/tinygfx/g3d/world_objects.py
@@ -140,7 +140,7 @@ class WorldObject(CountedObject):
                 self._world_coordinate_transform, self._obj_origin
             )
             self._pos_valid = True
-        return self._world_origin
+        return self._world_origin.copy()
 
     def get_orientation(self):
         # check if we need to update the direction vector
@@ -154,7 +154,7 @@ class WorldObject(CountedObject):
             else:
                 self._world_direction = world_dir / norm
 
-        return self._world_direction
+        return self._world_direction.copy()
 
     def get_quaternion(self):
         # make a rotation object
-- 
2.43.0


From ca1f1802c9b8f27935c7a887ac3c2d7b2073be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 32/33] fix: draw and show failed for scenes that are flat in
 the view and without anything to draw

---
 tinygfx/g3d/renderers.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/tinygfx/g3d/renderers.py b/tinygfx/g3d/renderers.py
index 95789ae..f221f4f 100644
--- a/tinygfx/g3d/renderers.py
+++ b/tinygfx/g3d/renderers.py
@@ -261,7 +261,8 @@ def draw(
 
     # draw a surface for a given projection
     bounding_box = np.hstack(
-        [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
+        [np.empty((3, 0))]
+        + [surface.bounding_volume.bounding_points[:3] for surface in surfaces]
     )
     # surfaces that are empty have no finite bounds, and do not affect the others
     bounding_box = bounding_box[:, np.all(np.isfinite(bounding_box), axis=0)]
@@ -269,6 +270,8 @@ def draw(
     if bounds is not None:
         mins = np.asarray(bounds[0])
         maxes = np.asarray(bounds[1])
+    elif bounding_box.shape[1] == 0:
+        return  # there is nothing to draw
     else:
         mins = np.min(bounding_box, axis=1)
         maxes = np.max(bounding_box, axis=1)
@@ -291,12 +294,19 @@ def draw(
         _draw_xz(surfaces, axis, shaded, resolution, maxes, mins, camera_y)
 
 
+def _view_spans(size, resolution):
+    # the camera spans: a scene that is flat in the view still gets some pixels across
+    spans = 1.5 * size
+    longest = np.max(spans) if np.max(spans) > 0 else 1.0
+    return np.maximum(spans, 4 * longest / resolution)
+
+
 def _draw_xy(
     surfaces: List[TracerSurface], axis, shaded, resolution, maxes, mins, camera_z
 ):
     camera_origin = (maxes + mins) / 2
     camera_origin[2] = camera_z
-    h_span, v_span = 1.5 * (maxes[:2] - mins[:2])  # the camera spans
+    h_span, v_span = _view_spans(maxes[:2] - mins[:2], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
@@ -332,7 +342,7 @@ def _draw_xz(
 ):
     camera_origin = (maxes + mins) / 2
     camera_origin[1] = camera_y
-    h_span, v_span = 1.5 * (maxes[[0, 2]] - mins[[0, 2]])  # the camera spans
+    h_span, v_span = _view_spans(maxes[[0, 2]] - mins[[0, 2]], resolution)
     resolution = resolution if h_span > v_span else int(resolution * h_span / v_span)
     # make the camera and move it into position
     camera = OrthographicCamera(resolution, h_span, v_span / h_span)
-- 
2.43.0


From e18c5e913cb7050e604b797baba55cb8fe5471b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:15 +0000
Subject: [PATCH 33/33] fix: a surface listed twice in a system moved and
 redirected the rays hitting it twice

---
 pyrayt/_pyrayt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrayt/_pyrayt.py b/pyrayt/_pyrayt.py
index bf6ab1c..5624efb 100644
--- a/pyrayt/_pyrayt.py
+++ b/pyrayt/_pyrayt.py
@@ -364,6 +364,9 @@ class RayTracer(object):
         self._surface_lut = tuple()
         for shape in self._components:
             self._surface_lut += shape.surface_ids
+        # a surface can be reached more than once (the same object listed twice, or also part of a CSG object), but
+        # rays only interact with it once
+        self._surface_lut = tuple(dict(self._surface_lut).items())
 
         # make a ray set from the concatenated ray sets returned by the sources
         source_rays = [
-- 
2.43.0

