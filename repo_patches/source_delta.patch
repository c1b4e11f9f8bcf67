From 36597285edfc7bf2ca04bf233d5aaa3eaf9b8797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 01/19] fix: stack clt_rectangular_section layers of unequal
 depth without gaps or overlaps

---
 src/sectionproperties/pre/library/timber_sections.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..486f36c 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -63,6 +63,7 @@ def clt_rectangular_section(
             Section(geometry=geom).plot_mesh()
     """
     layer_geom: list[geometry.Geometry] = []
+    offset = 0.0
     for idx in range(len(d)):
         di = float(d[idx])
         layer = layer_mat[idx]
@@ -71,7 +72,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset -= di
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From 507c1eb5e1305ce509caaafbf113b7ad85464b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 02/19] fix: group elements whose material is equal but not
 identical to a listed material

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From 47430440a9c6ecff584c265778282cbd1c974f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 03/19] fix: honour an absolute coordinate of zero in
 shift_points

---
 src/sectionproperties/pre/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..b45f218 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1132,8 +1132,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = current_x + dx if abs_x is None else abs_x
+            new_y = current_y + dy if abs_y is None else abs_y
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
-- 
2.43.0


From 25a215538331f17ef1a39aa365c2e14b3d7266a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 04/19] fix: mirror a compound geometry about the centre of the
 whole geometry

---
 src/sectionproperties/pre/geometry.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index b45f218..c18890c 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2146,8 +2146,14 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            mp = centre.x, centre.y
+        else:
+            mp = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
+            geom.mirror_section(axis=axis, mirror_point=mp)
             for geom in self.geoms
         ]
 
-- 
2.43.0


From 2c204b998c136697be80d98558bc88301ec26427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 05/19] fix: mirror an assigned control point about the same
 centre as its geometry

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index c18890c..73efeca 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -804,6 +804,9 @@ class Geometry:
         if mirror_point != "center" and not isinstance(mirror_point, str):
             x, y = mirror_point
             m_pt = (x, y)
+        elif mirror_point == "center":
+            centre = box(*self.geom.bounds).centroid
+            m_pt = (centre.x, centre.y)
         else:
             m_pt = mirror_point
 
@@ -828,7 +831,7 @@ class Geometry:
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
-- 
2.43.0


From 0b1fb33ff8a25833041351fddb3c9b7dbd044173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 06/19] fix: check the magnitude of the Lagrange multiplier in
 solve_cgs_lagrange

---
 src/sectionproperties/analysis/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 449c58f..9589951 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -88,7 +88,7 @@ def solve_cgs_lagrange(
         raise RuntimeError(msg)
 
     # compute error
-    err = u[-1] / max(np.absolute(u))
+    err = abs(u[-1]) / max(np.absolute(u))
 
     if err > tol:
         msg = "Lagrangian multiplier method error exceeds tolerance."
-- 
2.43.0


From eacdc184395c66c10a9992ddba744e30f8a5bc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 07/19] fix: a single polygon is not disjoint geometry

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 73efeca..ef2b58d 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2859,7 +2859,7 @@ def check_geometry_disjoint(
     # Traverse polygon connectivity network
     nodes_visited = [0]
     walk_network(0, network, nodes_visited)
-    return set(nodes_visited) != set(network.keys())
+    return set(nodes_visited) != set(range(len(lop)))
 
 
 def build_geometry_network(
-- 
2.43.0


From b1b0b518afc94ffde475b19b6197d18a4c6f3118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 08/19] fix: map fibre material names to tags cell by cell
 instead of by text replacement

---
 src/sectionproperties/post/fibre.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..8527f80 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,11 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        tags = {"-".join(name.split()): tag for name, tag in material_mapping.items()}
+        for cell in cells:
+            cell.material = str(tags.get(cell.material, cell.material))
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -211,10 +216,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From dc94c109a61c7473e92b81aee1071ef7f259835a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 09/19] fix: place hole points outside regions nested within a
 void

---
 src/sectionproperties/pre/geometry.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index ef2b58d..789a677 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2451,10 +2451,15 @@ class CompoundGeometry(Geometry):
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-            for poly in unionized_poly.geoms:
-                for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
-                    coords = rp.coords[0]
+            # find the voids, which exclude any regions nested within them
+            filled_poly = unary_union(
+                [Polygon(poly.exterior) for poly in unionized_poly.geoms]
+            )
+            voids = filled_poly - unionized_poly
+
+            for void in getattr(voids, "geoms", [voids]):
+                if isinstance(void, Polygon) and not void.is_empty:
+                    coords = void.representative_point().coords[0]
                     resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
         elif isinstance(unionized_poly, Polygon):  # pyright: ignore [reportUnnecessaryIsInstance]
-- 
2.43.0


From 0e0a8bf4f832241bffd378eb8357082d953bf51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:54 +0000
Subject: [PATCH 10/19] fix: keep the control point inside a geometry after
 shifting its points

---
 src/sectionproperties/pre/geometry.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 789a677..030d030 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1146,17 +1146,22 @@ class Geometry:
             holes=current_holes,
             material=current_material,
         )
+
+        # keep an assigned control point that is still within the geometry, otherwise
+        # find a new control point
+        new_control_point = None
+
         if self.assigned_control_point and new_geom.geom.contains(
             self.assigned_control_point
         ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
-                material=current_material,
-            )
-        return new_geom
+            new_control_point = self.assigned_control_point
+
+        return Geometry(
+            geom=new_geom.geom,
+            material=current_material,
+            control_points=new_control_point,
+            tol=self.tol,
+        )
 
     def plot_geometry(
         self,
-- 
2.43.0


From 52aa0d6c1ff98be5612d725f4e003cdca887a92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:45 +0000
Subject: [PATCH 11/19] fix: align the matching edge when aligning inside of a
 point

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 030d030..a7baeed 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -589,7 +589,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From edd168cfec1660329b065ea34ce1f70c23324aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 12/19] fix: polygon_hollow_section failed when the inner
 corners merge into a circle

---
 src/sectionproperties/pre/library/steel_sections.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..47afb69 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -318,7 +318,9 @@ def polygon_hollow_section(
     side_length_in = a_in / a_out * side_length_out
 
     # check limit on internal radii, if exceeded then radii merge to circle
-    if r_in > a_in:
+    merged = r_in >= a_in
+
+    if merged:
         r_in = a_in
 
     # calculate external radius, if r_in is zero, r_out also is zero
@@ -328,6 +330,9 @@ def polygon_hollow_section(
     else:
         r_out = r_in + t
 
+    # on a circle the last point of a corner is the first point of the next corner
+    n_pts = max(1, n_r - 1) if merged else n_r
+
     # equivalent side length of half the corner radii triangular segment
     c_out = r_out * (side_length_out / 2) / a_out
     c_in = r_in * (side_length_in / 2) / a_in
@@ -345,7 +350,7 @@ def polygon_hollow_section(
     # perimeter
 
     # construct the first radius (bottom right)
-    for i in range(n_r):
+    for i in range(n_pts):
         # determine polar angle
         theta = 1 / 2 * np.pi + i * 1.0 / max(1, n_r - 1) * alpha
 
-- 
2.43.0


From 4f40894d446bb699ef9b0a978525fed454a68ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:24 +0000
Subject: [PATCH 13/19] fix: inner pier bars of double_lift_core_b exceeded the
 maximum spacing

---
 src/sectionproperties/pre/library/concrete_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..7090b6d 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2105,15 +2105,15 @@ def double_lift_core_b(
             ys.append(y)
 
         # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
+        y_pier = nib
         n_pier = ceil(y_pier / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From 728792d32bebee94b9ed6fde12b1879b622b1a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:23 +0000
Subject: [PATCH 14/19] fix: doors of lift cores and stairwells stayed closed
 by a sliver

---
 .../pre/library/concrete_sections.py          | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 7090b6d..1e41202 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -1313,10 +1313,11 @@ def single_lift_core(
     geom_inner = primitive_sections.rectangular_section(
         d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
     ).align_center(align_to=geom_outer)
+    # the door is cut from within the room to beyond the outer face
     geom_door = (
-        primitive_sections.rectangular_section(d=a, b=t2, material=conc_mat)
+        primitive_sections.rectangular_section(d=a, b=b, material=conc_mat)
         .align_center(align_to=geom_outer)
-        .align_to(other=geom_outer, on="right", inner=True)
+        .shift_section(x_offset=0.5 * b)
     )
     geom = geom_outer - geom_inner - geom_door
 
@@ -1595,10 +1596,11 @@ def double_lift_core_a(
     geom_inner = primitive_sections.rectangular_section(
         d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
     ).align_center(align_to=geom_outer)
-    geom_door = primitive_sections.rectangular_section(d=a1, b=t2, material=conc_mat)
+    # the doors are cut from within the room to beyond the outer face
+    geom_door = primitive_sections.rectangular_section(d=a1, b=b, material=conc_mat)
     nib = 0.5 * (d - 2 * a1 - a2 - 2 * t1)
-    geom_door_t = geom_door.shift_section(x_offset=b - t2, y_offset=d - t1 - nib - a1)
-    geom_door_b = geom_door.shift_section(x_offset=b - t2, y_offset=t1 + nib)
+    geom_door_t = geom_door.shift_section(x_offset=0.5 * b, y_offset=d - t1 - nib - a1)
+    geom_door_b = geom_door.shift_section(x_offset=0.5 * b, y_offset=t1 + nib)
     geom = geom_outer - geom_inner - geom_door_t - geom_door_b
 
     # positions of bars to add
@@ -1906,13 +1908,14 @@ def double_lift_core_b(
     geom_inner = primitive_sections.rectangular_section(
         d=0.5 * (d - 2 * t1 - t3), b=b - 2 * t2, material=conc_mat
     )
-    geom_door = primitive_sections.rectangular_section(d=a, b=t2, material=conc_mat)
+    # the doors are cut from within the room to beyond the outer face
+    geom_door = primitive_sections.rectangular_section(d=a, b=b, material=conc_mat)
     geom = (
         geom_outer
         - geom_inner.shift_section(x_offset=t2, y_offset=t1)
         - geom_inner.shift_section(x_offset=t2, y_offset=0.5 * (d + t3))
-        - geom_door.shift_section(x_offset=b - t2, y_offset=d - t1 - nib - a)
-        - geom_door.shift_section(x_offset=b - t2, y_offset=t1 + nib)
+        - geom_door.shift_section(x_offset=0.5 * b, y_offset=d - t1 - nib - a)
+        - geom_door.shift_section(x_offset=0.5 * b, y_offset=t1 + nib)
     )
 
     # positions of bars to add
@@ -2236,12 +2239,13 @@ def stairwell(
     """
     # create stairwell geometry
     geom_outer = primitive_sections.rectangular_section(d=d, b=b, material=conc_mat)
+    # the door is cut together with the upper part of the room to beyond the outer face
     geom_inner = primitive_sections.rectangular_section(
-        d=d - 2 * t1, b=b - 2 * t2, material=conc_mat
-    ).align_center(align_to=geom_outer)
+        d=d - 2 * t1 - 0.5 * a, b=b - 2 * t2, material=conc_mat
+    ).shift_section(x_offset=t2, y_offset=t1)
     geom_door = primitive_sections.rectangular_section(
-        d=a, b=t2, material=conc_mat
-    ).shift_section(x_offset=b - t2, y_offset=d - t1 - a)
+        d=a, b=b, material=conc_mat
+    ).shift_section(x_offset=t2, y_offset=d - t1 - a)
     geom = geom_outer - geom_inner - geom_door
 
     # positions of bars to add
-- 
2.43.0


From f370fb7e26c9daed7006062e8ecae5dfe354dfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 15/19] fix: refuse nastran section dimensions whose outline
 crosses itself

---
 src/sectionproperties/pre/library/nastran_sections.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..e598267 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -524,6 +524,10 @@ def nastran_fcross(
         or not dim_5 < dim_2
         or not dim_8 < (0.5 * dim_2 - 0.5 * dim_3)
         or not dim_6 < (0.5 * dim_1 - 0.5 * dim_4)
+        or (
+            not 0.5 * dim_5 < (0.5 * dim_2 - dim_8)
+            and not 0.5 * dim_7 < (0.5 * dim_1 - dim_6)
+        )
     ):
         msg = "Invalid geometry specified."
         raise ValueError(msg)
@@ -628,6 +632,7 @@ def nastran_dbox(
     if (
         not (dim_4 + dim_5 + dim_6) < dim_1
         or not (dim_4 + 0.5 * dim_5) < dim_3
+        or not (dim_3 + 0.5 * dim_5 + dim_6) < dim_1
         or not (dim_7 + dim_8) < dim_2
         or not (dim_9 + dim_10) < dim_2
     ):
@@ -870,7 +875,7 @@ def nastran_hat(
             nastran_hat(dim_1=1.25, dim_2=0.25, dim_3=1.5, dim_4=0.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not 2.0 * dim_2 < dim_1:
+    if not 2.0 * dim_2 < dim_1 or not 2.0 * dim_2 < dim_3:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
@@ -1009,7 +1014,7 @@ def nastran_hexa(
             nastran_hexa(dim_1=0.5, dim_2=2.0, dim_3=1.5).plot_geometry()
     """
     # Ensure dimensions are physically relevant
-    if not dim_2 > dim_1:
+    if not dim_2 > 2.0 * dim_1:
         msg = "Invalid geometry specified."
         raise ValueError(msg)
 
-- 
2.43.0


From e841e8b82db004f01aaea33418892994f5dac3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:06 +0000
Subject: [PATCH 16/19] fix: webs of super T girders follow the web slope and
 thickness

---
 src/sectionproperties/pre/library/bridge_sections.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/library/bridge_sections.py b/src/sectionproperties/pre/library/bridge_sections.py
index e84dfbf..8dd6dcd 100644
--- a/src/sectionproperties/pre/library/bridge_sections.py
+++ b/src/sectionproperties/pre/library/bridge_sections.py
@@ -85,8 +85,8 @@ def super_t_girder_section(
     # Origin is middle at level of bottom of top flange
     # Some geometrics of the slope
     web_hyp = np.sqrt(1 + web_slope**2)
-    web_horiz = t_w * web_slope / web_hyp
-    x_fillet = w_nom / 2 - d_fillet * 1 / web_hyp
+    web_horiz = t_w * web_hyp / web_slope
+    x_fillet = w_nom / 2 - d_fillet / web_slope
 
     # initialise points variable
     points: list[tuple[float, float]] = []
@@ -106,7 +106,7 @@ def super_t_girder_section(
     points.append((x_fillet, -d_fillet))
 
     # Bottom outer
-    btm_corner = x_fillet - d / web_slope
+    btm_corner = w_nom / 2 - d / web_slope
     points.append((btm_corner + d_chamfer / web_slope, -(d - d_chamfer)))
     points.append((btm_corner - b_chamfer, -d))
     points.append((-btm_corner + b_chamfer, -d))
-- 
2.43.0


From 1b85450d6f6710c57544127300099aacf1bf78ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 17/19] fix: intersections along several lines or points are
 empty geometries

---
 src/sectionproperties/pre/geometry.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index a7baeed..5d10e37 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,6 +15,7 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
@@ -1609,7 +1610,13 @@ class Geometry:
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | Point
+                | MultiPoint
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
@@ -2708,7 +2715,13 @@ def buffer_polygon(
 
 
 def filter_non_polygons(
-    input_geom: GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+    input_geom: GeometryCollection
+    | LineString
+    | MultiLineString
+    | Point
+    | MultiPoint
+    | Polygon
+    | MultiPolygon,
 ) -> Polygon | MultiPolygon:
     """Filters shapely geometries to return only polygons.
 
-- 
2.43.0


From 0f8e1efda404095f80aea082112313a12f426d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:38 +0000
Subject: [PATCH 18/19] fix: drop parts of a compound geometry that have no
 area

---
 src/sectionproperties/pre/geometry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 5d10e37..f9dd9cf 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1679,6 +1679,9 @@ class CompoundGeometry(Geometry):
                 elif isinstance(item, Geometry):  # pyright: ignore [reportUnnecessaryIsInstance]
                     processed_geoms.append(item)
 
+            # regions without area have no control point and cannot be meshed
+            processed_geoms = [g for g in processed_geoms if not g.geom.is_empty]
+
             self.geoms = processed_geoms
             self.geom = MultiPolygon([geom.geom for geom in processed_geoms])
 
-- 
2.43.0


From a45b36984b992d53dccbbe1fc01b53aa82957e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:30 +0000
Subject: [PATCH 19/19] fix: plot_mesh keeps each element's material colour
 when elements are masked

---
 src/sectionproperties/analysis/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..822cf4e 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -1646,6 +1646,8 @@ class Section:
                     triang,
                     c,
                     cmap=cmap,
+                    vmin=0,
+                    vmax=len(c) - 1,
                 )
 
                 # display the legend
-- 
2.43.0

