From 6cb6311a1927f3a91612886d2e4bfe1881f86152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 01/28] fix: align_to() an inner edge to a point uses the edge
 that was asked for

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 1b62548..cf7388e 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -589,7 +589,7 @@ class Geometry:
         self_align_coord = self_extents[self_align_idx]
 
         if inner:
-            self_align_coord = self_extents[align_to_idx]
+            self_align_coord = self_extents[other_as_geom_map[on]]
 
         offset = align_to_coord - self_align_coord
         arg = "x_offset"
-- 
2.43.0


From b3417aa66b51c4ca8bd64ea298880c8de63d2eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 02/28] fix: mirror_section() about "center" mirrors an
 assigned control point with the geometry

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index cf7388e..0e4ff49 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -804,6 +804,9 @@ class Geometry:
         if mirror_point != "center" and not isinstance(mirror_point, str):
             x, y = mirror_point
             m_pt = (x, y)
+        elif mirror_point == "center":
+            centre = box(*self.geom.bounds).centroid
+            m_pt = (centre.x, centre.y)
         else:
             m_pt = mirror_point
 
@@ -828,7 +831,7 @@ class Geometry:
                 xfact=y_mirror,
                 yfact=x_mirror,
                 zfact=1.0,
-                origin=mirror_point,  # pyright: ignore [reportArgumentType]
+                origin=m_pt,  # pyright: ignore [reportArgumentType]
             )
             new_ctrl_point = new_ctrl_point_geom.x, new_ctrl_point_geom.y
 
-- 
2.43.0


From d1bcedfc430683cb7c76bfeca6f5fbd0f4f384e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 03/28] fix: shift_points() accepts an absolute location of
 zero

---
 src/sectionproperties/pre/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 0e4ff49..65b29e7 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1135,8 +1135,8 @@ class Geometry:
 
         for point_idx in point_idxs:
             current_x, current_y = current_points[point_idx]
-            new_x = abs_x if abs_x else current_x + dx
-            new_y = abs_y if abs_y else current_y + dy
+            new_x = abs_x if abs_x is not None else current_x + dx
+            new_y = abs_y if abs_y is not None else current_y + dy
             current_points[point_idx] = (new_x, new_y)
 
         new_geom = Geometry.from_points(
-- 
2.43.0


From 669a3d354aab18d3a6857bd4f6696c9bf3bcde57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 04/28] fix: elements of equal materials all join their
 material group

---
 src/sectionproperties/analysis/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index cee7965..1e32607 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -158,7 +158,7 @@ class Section:
 
             # add element to relevant MaterialGroup
             for group in self.material_groups:
-                if material is group.material:
+                if material == group.material:
                     group.add_element(element=new_element)
                     break
 
-- 
2.43.0


From fd18545dd22308aa95a209657d5e81f10e90006e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 05/28] fix: clt_rectangular_section() stacks layers of unequal
 thickness

---
 src/sectionproperties/pre/library/timber_sections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/library/timber_sections.py b/src/sectionproperties/pre/library/timber_sections.py
index e5d3922..90ede2f 100644
--- a/src/sectionproperties/pre/library/timber_sections.py
+++ b/src/sectionproperties/pre/library/timber_sections.py
@@ -71,7 +71,7 @@ def clt_rectangular_section(
 
         # create rectangular timber geometry
         layer = primitive_sections.rectangular_section(d=di, b=b, material=timb_mat)
-        offset = -d[idx] * (idx + 1)
+        offset = -float(sum(d[: idx + 1]))
         layer = layer.shift_section(y_offset=offset)
 
         layer_geom.append(layer)
-- 
2.43.0


From 300416753ae3ea9627ce4146c89d9de6914fdc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:28 +0000
Subject: [PATCH 06/28] fix: mirror_section() of a compound about "center"
 mirrors about its own center

---
 src/sectionproperties/pre/geometry.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 65b29e7..bcde0c2 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2149,9 +2149,16 @@ class CompoundGeometry(Geometry):
                 )
                 compound.mirror_section(axis="y", mirror_point=(0,0)).plot_geometry()
         """
+        m_pt: tuple[float, float] | str
+
+        if mirror_point == "center":
+            centre = box(*MultiPolygon(self.geom).bounds).centroid
+            m_pt = (centre.x, centre.y)
+        else:
+            m_pt = mirror_point
+
         geoms_acc = [
-            geom.mirror_section(axis=axis, mirror_point=mirror_point)
-            for geom in self.geoms
+            geom.mirror_section(axis=axis, mirror_point=m_pt) for geom in self.geoms
         ]
 
         return CompoundGeometry(geoms=geoms_acc)
-- 
2.43.0


From 2df0c7a499c544f1fb5f23bee7f3e7bc4e09e411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 07/28] fix: subtracting a whole region of a compound leaves no
 empty geometry behind

---
 src/sectionproperties/pre/geometry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index bcde0c2..709d891 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1473,7 +1473,10 @@ class Geometry:
 
             for geom in self.geoms:
                 new_geom = geom - other
-                subs_geom_acc.append(new_geom)
+
+                # a region that is removed entirely leaves no geometry behind
+                if not new_geom.geom.is_empty:
+                    subs_geom_acc.append(new_geom)
 
             return CompoundGeometry(geoms=subs_geom_acc)
         else:
-- 
2.43.0


From 8c5d9caba58590df15c69b594062ed68cf298f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 08/28] fix: hole points of a compound lie in the void when a
 hole contains another region

---
 src/sectionproperties/pre/geometry.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 709d891..fc4c172 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2455,9 +2455,22 @@ class CompoundGeometry(Geometry):
         unionized_poly = unionized_poly.buffer(buffer_amount)
 
         if isinstance(unionized_poly, MultiPolygon):
-            for poly in unionized_poly.geoms:
-                for interior in poly.interiors:
-                    rp: Point = Polygon(interior).representative_point()
+            # a hole may contain another region, only mark the part that is void
+            voids = (
+                unary_union(
+                    [
+                        Polygon(interior)
+                        for poly in unionized_poly.geoms
+                        for interior in poly.interiors
+                    ]
+                )
+                - unionized_poly
+            )
+            void_polys = voids.geoms if isinstance(voids, MultiPolygon) else [voids]
+
+            for void in void_polys:
+                if not void.is_empty:
+                    rp: Point = void.representative_point()
                     coords = rp.coords[0]
                     resultant_holes.append(coords)  # pyright: ignore [reportArgumentType]
 
-- 
2.43.0


From a745217fc51b36b1a5b96ec4cde9091bd98be8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:52 +0000
Subject: [PATCH 09/28] fix: a single region is not disjoint

---
 src/sectionproperties/pre/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index fc4c172..12fc1cc 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -2876,7 +2876,7 @@ def check_geometry_disjoint(
     # Traverse polygon connectivity network
     nodes_visited = [0]
     walk_network(0, network, nodes_visited)
-    return set(nodes_visited) != set(network.keys())
+    return set(nodes_visited) != set(range(len(lop)))
 
 
 def build_geometry_network(
-- 
2.43.0


From 24e0e7f2e19dfca9dd0c861a32ace51ab4c0c9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 10/28] fix: a compound has recovery points, empty until they
 are set

---
 src/sectionproperties/pre/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 12fc1cc..810aeb7 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1677,6 +1677,7 @@ class CompoundGeometry(Geometry):
         self.points = []
         self.facets = []
         self.holes = []
+        self._recovery_points = []
         self.material = None
         self.compile_geometry()
         self.tol = 12
-- 
2.43.0


From 8f3006a35816535599d2a5e2ff89b13c344eb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 11/28] fix: fibre material mapping replaces whole material
 names of cells only

---
 src/sectionproperties/post/fibre.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 9310bdd..1d2270a 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -190,6 +190,14 @@ def to_fibre_section(
 
     cells = [cell_class(ele, omega) for ele in section.elements]
 
+    if material_mapping is not None:
+        mapping = {
+            "-".join(name.split()): str(tag) for name, tag in material_mapping.items()
+        }
+
+        for cell in cells:
+            cell.material = mapping.get(cell.material, cell.material)
+
     commands = """# This is generated by sectionproperties library.
 # Please note the following:
 #   1. The warping function and its derivatives (if present) are computed in the
@@ -211,10 +219,6 @@ def to_fibre_section(
     commands += "\n".join(cell.export() for cell in cells)
     commands += "\n\n"
 
-    if material_mapping is not None:
-        for name, tag in material_mapping.items():
-            commands = commands.replace("-".join(name.split()), str(tag))
-
     if isinstance(save_to, str):
         with open(save_to, "w") as f:
             f.write(commands)
-- 
2.43.0


From 43a527972977e27b6a19d78dee290322636be6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 12/28] fix: warping analysis after only a frame analysis is
 refused before it stores anything

---
 src/sectionproperties/analysis/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 1e32607..8ea6101 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -410,6 +410,7 @@ class Section:
             self.section_props.area,
             self.section_props.ixx_c,
             self.section_props.cx,
+            self.section_props.i11_c,
         ]:
             err = "Calculate geometric properties before performing a warping analysis."
             raise RuntimeError(err)
-- 
2.43.0


From 28b4977e531964db78a07bb67fe8fd8a62867aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:41 +0000
Subject: [PATCH 13/28] fix: a failing frame analysis does not store a zero
 torsion constant

---
 src/sectionproperties/analysis/section.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 8ea6101..9ebdc86 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -913,6 +913,11 @@ class Section:
           - Principal axis angle
         """
 
+        # check the solver type before any results are stored
+        if solver_type not in ["direct", "cgs"]:
+            msg = "solver_type must be 'cgs' or 'direct'."
+            raise ValueError(msg)
+
         def calculate_geom(progress: Progress | None = None) -> None:
             # initialise geometric properties
             self.section_props.area = 0.0
@@ -925,7 +930,6 @@ class Section:
             self.section_props.ixx_c = 0.0
             self.section_props.iyy_c = 0.0
             self.section_props.ixy_c = 0.0
-            self.section_props.j = 0.0
             self.section_props.phi = 0.0
 
             if progress:
-- 
2.43.0


From 678dbbf15abc83cb47333eb3410c6058f273386a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:59 +0000
Subject: [PATCH 14/28] fix: a section keeps the mesh it was made from when its
 geometry is meshed again

---
 src/sectionproperties/analysis/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index 9ebdc86..c0ef1ba 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -6,6 +6,7 @@ properties.
 
 from __future__ import annotations
 
+import copy
 import warnings
 from dataclasses import dataclass, field
 from typing import TYPE_CHECKING, Any, cast
@@ -86,7 +87,8 @@ class Section:
             msg += "Section object for analysis."
             raise ValueError(msg)
 
-        self.geometry = geometry
+        # keep this mesh, even if the geometry is meshed again for another section
+        self.geometry = copy.copy(geometry)
         self.time_info = time_info
         self.mesh = geometry.mesh
         self.materials: list[pre.Material] = []
-- 
2.43.0


From 79d65d61e3427721cfbef252d5f13b2f94a62293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:21 +0000
Subject: [PATCH 15/28] fix: splitting along a line that only touches the
 boundary keeps the geometry

---
 src/sectionproperties/pre/geometry.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 810aeb7..0831959 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -913,8 +913,20 @@ class Geometry:
             vector=vector,
             bounds=bounds,
         )
+
+        # a line that only touches the boundary leaves the geometry in one piece
+        coords = np.array(self.geom.exterior.coords)
+        dist = vector[0] * (coords[:, 1] - point_i[1])
+        dist -= vector[1] * (coords[:, 0] - point_i[0])
+        tol = 1e-14 * np.hypot(*vector) * np.ptp(bounds)
+
+        if dist.min() >= -tol or dist.max() <= tol:
+            polys = GeometryCollection([self.geom])
+        else:
+            polys = split(self.geom, line_segment)
+
         top_right_polys, bottom_left_polys = bisect.group_top_and_bottom_polys(
-            polys=split(self.geom, line_segment),
+            polys=polys,
             line=line_segment,
         )
 
-- 
2.43.0


From 4a2d15740da32e0182c467c5cec531d7082d6693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 16/28] fix: intersection of geometries that only touch in
 several places is empty

---
 src/sectionproperties/pre/geometry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 0831959..4715609 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -15,6 +15,7 @@ from shapely import (
     LinearRing,
     LineString,
     MultiLineString,
+    MultiPoint,
     MultiPolygon,
     Point,
     Polygon,
@@ -1619,7 +1620,13 @@ class Geometry:
 
             if isinstance(
                 and_poly,
-                GeometryCollection | LineString | Point | Polygon | MultiPolygon,
+                GeometryCollection
+                | LineString
+                | MultiLineString
+                | Point
+                | MultiPoint
+                | Polygon
+                | MultiPolygon,
             ):
                 new_polygon = filter_non_polygons(and_poly)  # pyright: ignore [reportUnknownArgumentType]
             else:
-- 
2.43.0


From 5b7c97c7dbd54142e1a791ef1137e4dcf514a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 17/28] fix: merge coincident points before meshing

A hole that touches the exterior or another hole at a vertex left a duplicate
point in the mesher's input: the mesh had a node without elements (all warping
results nan) or the mesher crashed.
---
 src/sectionproperties/pre/pre.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sectionproperties/pre/pre.py b/src/sectionproperties/pre/pre.py
index 38e284b..6e7b568 100644
--- a/src/sectionproperties/pre/pre.py
+++ b/src/sectionproperties/pre/pre.py
@@ -122,6 +122,16 @@ def create_mesh(
         mesh_sizes = [mesh_sizes]
 
     tri: dict[str, Any] = {}  # create tri dictionary
+
+    # merge coincident points, e.g. where a hole touches the exterior at a point
+    unique = list(dict.fromkeys((x, y) for x, y in points))
+
+    if len(unique) < len(points):
+        index = {point: idx for idx, point in enumerate(unique)}
+        new_idx = [index[(x, y)] for x, y in points]
+        points = unique
+        facets = [(new_idx[i], new_idx[j]) for i, j in facets]
+
     tri["vertices"] = points  # set point
     tri["segments"] = facets  # set facets
 
-- 
2.43.0


From 1301e99b2a887d78b06fb648c098679d5ae23d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 18/28] fix: shift_points() keeps a control point only while it
 is inside the geometry

---
 src/sectionproperties/pre/geometry.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 4715609..54a58e2 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -1159,16 +1159,11 @@ class Geometry:
             holes=current_holes,
             material=current_material,
         )
-        if self.assigned_control_point and new_geom.geom.contains(
-            self.assigned_control_point
-        ):
-            new_geom = Geometry.from_points(
-                points=current_points,
-                facets=current_facets,
-                control_points=current_control_points,
-                holes=current_holes,
-                material=current_material,
-            )
+
+        # a control point that is no longer inside the geometry is replaced
+        if not new_geom.geom.contains(Point(current_control_points[0])):
+            new_geom = Geometry(geom=new_geom.geom, material=current_material)
+
         return new_geom
 
     def plot_geometry(
-- 
2.43.0


From 1b44aab84900b3c42bf30b6e7e2f91198abd3453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:02 +0000
Subject: [PATCH 19/28] fix: from_points() ends a ring where its facets return
 to their start

---
 src/sectionproperties/pre/geometry.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 54a58e2..58f4a26 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -226,6 +226,7 @@ class Geometry:
         interiors: list[list[tuple[float, float]]] = [[] for _ in holes]
         interior_counter = 0  # To keep track of interior regions
         active_list = exterior  # The active_list is the list being accumulated on
+        start_idx = facets[0][0]  # The first vertex of the current ring
 
         for facet in facets:  # Loop through facets for graph connectivity
             i_idx, _ = facet
@@ -239,8 +240,8 @@ class Geometry:
             # Look at the last j_idx to test for a break in the chain of edges
             prev_j_idx = prev_facet[1]
 
-            # If there is a break in the chain of edges...
-            if i_idx != prev_j_idx and holes:
+            # If there is a break in the chain of edges or the ring is closed...
+            if holes and (i_idx != prev_j_idx or prev_j_idx == start_idx):
                 # ...and we are still accumulating on the exterior...
                 if active_list == exterior:
                     active_list = interiors[interior_counter]
@@ -251,6 +252,7 @@ class Geometry:
                     interior_counter += 1
                     active_list = interiors[interior_counter]
                 active_list.append(points[i_idx])
+                start_idx = i_idx
             else:
                 # Only need i_idx b/c shapely auto-closes polygons
                 active_list.append(points[i_idx])
@@ -1831,24 +1833,28 @@ class CompoundGeometry(Geometry):
 
         # initialise indices
         i_idx, j_idx = 0, 0
+        start_idx = 0  # the first vertex of the current ring
 
         for facet in facets:
             i_idx, j_idx = facet
 
             if not prev_facet:  # Add the first facet vertex to exterior and move on
                 current_polygon_points.append(points[i_idx])
+                start_idx = i_idx
                 prev_facet = facet
                 continue
 
             prev_j_idx = prev_facet[1]
 
-            if i_idx != prev_j_idx:  # If there is a break in the chain of edges...
+            # If there is a break in the chain of edges or the ring is closed...
+            if i_idx != prev_j_idx or prev_j_idx == start_idx:
                 # ... then add the last point, close off the polygon,
                 # and add the polygon to the all_polygons accumulator....
                 current_polygon_points.append(points[prev_j_idx])
                 all_polygons.append(Polygon(current_polygon_points))
                 # Then start collecting the points of the new polygon
                 current_polygon_points = [points[i_idx]]
+                start_idx = i_idx
             else:
                 current_polygon_points.append(
                     points[i_idx]
-- 
2.43.0


From c39aa03c7a73b0b80c85bb301b40b09d7fa50150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 20/28] fix: splitting along a line through vertices or edges
 keeps every piece

---
 src/sectionproperties/pre/bisect_section.py | 155 +++++++-------------
 src/sectionproperties/pre/geometry.py       |  23 +--
 2 files changed, 59 insertions(+), 119 deletions(-)

diff --git a/src/sectionproperties/pre/bisect_section.py b/src/sectionproperties/pre/bisect_section.py
index 9bfa2ca..c116f7d 100644
--- a/src/sectionproperties/pre/bisect_section.py
+++ b/src/sectionproperties/pre/bisect_section.py
@@ -4,131 +4,88 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING
 
-from shapely import GeometryCollection, LineString, Polygon
+import numpy as np
+import shapely
+from shapely import Polygon
 
 if TYPE_CHECKING:
-    import numpy as np
     import numpy.typing as npt
 
 
-def create_line_segment(
+def bisect_polygon(
+    poly: Polygon,
     point_on_line: tuple[float, float] | npt.NDArray[np.float64],
     vector: npt.NDArray[np.float64],
-    bounds: tuple[float, float, float, float],
-) -> LineString:
-    """Create a line segment given a point, vector and bounds.
-
-    Return a LineString of a line that contains ``point_on_line`` in the direction
-    of ``vector`` bounded by ``bounds``.
-
-    Args:
-        point_on_line: Point on line
-        vector: Line direction
-        bounds: Min and max ordinates of geometry
-
-    Returns:
-        Line string defined as per docstring
-    """
-    p_x, p_y = point_on_line
-    b_2 = max(bounds)
-    b_1 = min(bounds)
-
-    if abs(vector[0]) > 1e-12:  # Not a vertical line
-        scale_factor_2 = (b_2 - p_x) / vector[0]
-        y_2 = scale_factor_2 * vector[1] + p_y
-        scale_factor_1 = (b_1 - p_x) / vector[0]
-        y_1 = scale_factor_1 * vector[1] + p_y
-
-        return LineString([(b_1, y_1), (b_2, y_2)])
-    else:  # Vertical line
-        scale_factor_2 = (b_2 - p_y) / vector[1]
-        x_2 = scale_factor_2 * vector[0] + p_x
-        scale_factor_1 = (b_1 - p_y) / vector[1]
-        x_1 = scale_factor_1 * vector[0] + p_x
-
-        return LineString([(x_1, b_1), (x_2, b_2)])
-
-
-def group_top_and_bottom_polys(
-    polys: GeometryCollection,
-    line: LineString,
 ) -> tuple[list[Polygon], list[Polygon]]:
-    """Sort polygons into groups above and below a line.
-
-    Returns a tuple of two lists representing the list of polygons in ``polys`` on
-    the "top" side of ``line`` and the list of polygons on the "bottom" side of the
-    ``line`` after the original geometry has been split by ``line``.
+    """Bisects a polygon by a line given by a point and a vector.
 
-    The 0th tuple element is the "top" polygons and the 1st element is the "bottom"
-    polygons.
+    Returns a tuple of two lists representing the list of polygons on the "top" side of
+    the line and the list of polygons on the "bottom" side of the line. In the event
+    that the line is a perfectly vertical line, the "top" polys are the polygons on the
+    "right" of the line and the "bottom" polys are the polygons on the "left" of the
+    line.
 
-    In the event that ``line`` is a perfectly vertical line, the "top" polys are the
-    polygons on the "right" of the ``line`` and the "bottom" polys are the polygons on
-    the "left" of the ``line``.
+    Vertices that lie on the line to within the precision of the coordinates are taken
+    to lie on the line.
 
     Args:
-        polys: Collection of polygons to sort
-        line: Line about which polygons have been split
-
-    Raises:
-        RuntimeError: If the split operation does not generate polygons
+        poly: Polygon to bisect
+        point_on_line: Point on line
+        vector: Line direction
 
     Returns:
         List of polygons above and below the line
     """
-    top_acc: list[Polygon] = []
-    bot_acc: list[Polygon] = []
-
-    for poly in polys.geoms:
-        if not isinstance(poly, Polygon):
-            msg = "Geometry split error."
-            raise RuntimeError(msg)
+    origin = np.array(point_on_line, dtype=float)
+    u = np.array(vector, dtype=float)
+    u = u / np.hypot(*u)
 
-        m, b = line_mx_plus_b(line)
-        px, py = poly.representative_point().coords[0]
+    # normal to the line, pointing upwards (or to the right if the line is vertical)
+    n = np.array([-u[1], u[0]])
+    n *= np.sign(n[0] if abs(n[1]) <= 1e-12 else n[1])
 
-        if b is not None:  # Not a vertical line (special case)
-            y_test = m * px + b
-            if py < y_test:
-                bot_acc.append(poly)
-            elif py > y_test:
-                top_acc.append(poly)
+    # coordinates are exact to 12 decimals or to floating point precision
+    tol = max(5e-12, 1e-14 * max(np.abs([*poly.bounds, *origin])))
 
-        else:  # The special case of vertical line
-            lx, _ = line.coords[0]
-            if px < lx:
-                bot_acc.append(poly)
-            elif px > lx:
-                top_acc.append(poly)
+    def to_line(coords: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
+        """Coordinates along and normal to the line."""
+        local = np.column_stack([(coords - origin) @ u, (coords - origin) @ n])
+        local[np.abs(local[:, 1]) <= tol, 1] = 0.0
+        return local
 
-    return top_acc, bot_acc
+    local_poly = shapely.transform(poly, to_line)
 
+    if not local_poly.is_valid:
+        local_poly = shapely.make_valid(local_poly)
 
-def line_mx_plus_b(
-    line: LineString,
-) -> tuple[float, float | None]:
-    """Get the slope and y-intercept of a line.
+    # the vertices of the polygon keep their coordinates
+    xy = shapely.get_coordinates(poly)
+    vertices = {tuple(loc): c for loc, c in zip(to_line(xy), xy, strict=True)}
 
-    Returns a tuple representing the values of "m" and "b" from the definition of
-    ``line`` as "y = mx + b".
+    def from_line(coords: npt.NDArray[np.float64]) -> npt.NDArray[np.float64]:
+        """Global coordinates."""
+        return np.array(
+            [vertices.get((a, b), origin + a * u + b * n) for a, b in coords]
+        ).reshape(-1, 2)
 
-    Args:
-        line: Line to define
+    min_a, min_b, max_a, max_b = local_poly.bounds
 
-    Returns:
-        Gradient and y-intercept of line, ``(1, None)`` if vertical
-    """
-    y2, y1 = line.coords[1][1], line.coords[0][1]
-    x2, x1 = line.coords[1][0], line.coords[0][0]
+    if min_b >= 0:
+        return [poly], []
 
-    if x2 - x1 == 0:
-        return (1, None)
+    if max_b <= 0:
+        return [], [poly]
 
-    m_slope = (y2 - y1) / (x2 - x1)
-    point_on_line = line.coords[0]
-    p_x, p_y = point_on_line
+    def clip(half_plane: Polygon) -> list[Polygon]:
+        """Parts of the polygon within a half plane."""
+        return [
+            shapely.transform(part, from_line)
+            for part in shapely.get_parts(local_poly.intersection(half_plane))
+            if isinstance(part, Polygon) and not part.is_empty
+        ]
 
-    # solve line eqn for b given a known point on the line
-    b_intercept = p_y - m_slope * p_x
+    margin = max_a - min_a
+    top = shapely.box(min_a - margin, 0, max_a + margin, 2 * max_b)
+    bot = shapely.box(min_a - margin, 2 * min_b, max_a + margin, 0)
 
-    return (m_slope, b_intercept)
+    return clip(top), clip(bot)
diff --git a/src/sectionproperties/pre/geometry.py b/src/sectionproperties/pre/geometry.py
index 58f4a26..d65cf03 100644
--- a/src/sectionproperties/pre/geometry.py
+++ b/src/sectionproperties/pre/geometry.py
@@ -24,7 +24,7 @@ from shapely import (
     line_merge,  # pyright: ignore [reportUnknownVariableType]
     shared_paths,  # pyright: ignore [reportUnknownVariableType]
 )
-from shapely.ops import split, unary_union
+from shapely.ops import unary_union
 
 import sectionproperties.post.post as post
 import sectionproperties.pre.bisect_section as bisect
@@ -910,27 +910,10 @@ class Geometry:
             msg = "Either a second point or a vector must be given to define the line."
             raise ValueError(msg)
 
-        bounds = self.calculate_extents()
-        line_segment = bisect.create_line_segment(
+        top_right_polys, bottom_left_polys = bisect.bisect_polygon(
+            poly=self.geom,
             point_on_line=point_i,
             vector=vector,
-            bounds=bounds,
-        )
-
-        # a line that only touches the boundary leaves the geometry in one piece
-        coords = np.array(self.geom.exterior.coords)
-        dist = vector[0] * (coords[:, 1] - point_i[1])
-        dist -= vector[1] * (coords[:, 0] - point_i[0])
-        tol = 1e-14 * np.hypot(*vector) * np.ptp(bounds)
-
-        if dist.min() >= -tol or dist.max() <= tol:
-            polys = GeometryCollection([self.geom])
-        else:
-            polys = split(self.geom, line_segment)
-
-        top_right_polys, bottom_left_polys = bisect.group_top_and_bottom_polys(
-            polys=polys,
-            line=line_segment,
         )
 
         # Create new Geometrys from polys, preserve original material assignments
-- 
2.43.0


From ccdbb5c0995607bd469b754413cf5c83cc4b3010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 21/28] fix: iterative solver accepts a vanishing warping
 function

---
 src/sectionproperties/analysis/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/analysis/solver.py b/src/sectionproperties/analysis/solver.py
index 449c58f..5963143 100644
--- a/src/sectionproperties/analysis/solver.py
+++ b/src/sectionproperties/analysis/solver.py
@@ -90,7 +90,8 @@ def solve_cgs_lagrange(
     # compute error
     err = u[-1] / max(np.absolute(u))
 
-    if err > tol:
+    # a vanishing multiplier is accepted if the solution itself vanishes (e.g. no warping)
+    if err > tol and u[-1] > 10.0 * np.finfo(float).eps:
         msg = "Lagrangian multiplier method error exceeds tolerance."
         raise RuntimeError(msg)
 
-- 
2.43.0


From dc6e58d15e54352a3599ccb0e643a1c05a2b7d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:58 +0000
Subject: [PATCH 22/28] fix: fibre export keeps the list of cells within
 max_width

---
 src/sectionproperties/post/fibre.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sectionproperties/post/fibre.py b/src/sectionproperties/post/fibre.py
index 1d2270a..687ff74 100644
--- a/src/sectionproperties/post/fibre.py
+++ b/src/sectionproperties/post/fibre.py
@@ -210,10 +210,11 @@ def to_fibre_section(
     part = f"section {fibre_class} {main_section_tag} "
     for cell in cells:
         cell.tag += main_section_tag
-        part += f"{cell.tag} "
-        if len(part) > max_width:
+        # start a new line (leaving room for the continuation) before it gets too long
+        if part and len(part) + len(f"{cell.tag} \\") > max_width:
             commands += part + "\\\n"
             part = ""
+        part += f"{cell.tag} "
 
     commands += part + "\n\n"
     commands += "\n".join(cell.export() for cell in cells)
-- 
2.43.0


From f7612e02ccb42be354319b1ea4edbfb07e5f8f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 23/28] fix: hollow sections whose corner radii leave no
 straight sides

---
 .../pre/library/steel_sections.py                  | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sectionproperties/pre/library/steel_sections.py b/src/sectionproperties/pre/library/steel_sections.py
index d2b9037..0c7ef55 100644
--- a/src/sectionproperties/pre/library/steel_sections.py
+++ b/src/sectionproperties/pre/library/steel_sections.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 import numpy as np
-from shapely import Polygon
+from shapely import Polygon, remove_repeated_points
 
 import sectionproperties.pre.geometry as geometry
 import sectionproperties.pre.library.utils as sp_utils
@@ -233,8 +233,10 @@ def rectangular_hollow_section(
         n_r,
     )
 
-    outer_polygon = Polygon(points_outer)
-    inner_polygon = Polygon(points_inner)
+    # corners that meet share a point, only approximately so in floating point
+    tol = 1e-9 * d
+    outer_polygon = remove_repeated_points(Polygon(points_outer), tolerance=tol)
+    inner_polygon = remove_repeated_points(Polygon(points_inner), tolerance=tol)
     poly_sub = outer_polygon - inner_polygon
 
     if isinstance(poly_sub, Polygon):
@@ -368,8 +370,10 @@ def polygon_hollow_section(
             point_new = sp_utils.rotate(point, alpha * i + rot)
             inner_points.append(point_new)
 
-    outer_polygon = Polygon(outer_points)
-    inner_polygon = Polygon(inner_points)
+    # corners that meet share a point, only approximately so in floating point
+    tol = 1e-9 * d
+    outer_polygon = remove_repeated_points(Polygon(outer_points), tolerance=tol)
+    inner_polygon = remove_repeated_points(Polygon(inner_points), tolerance=tol)
     poly_sub = outer_polygon - inner_polygon
 
     if isinstance(poly_sub, Polygon):
-- 
2.43.0


From cb23728e5a04ed53c8284c2e3a37f2a822db983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 24/28] fix: nastran_box1() left wall has thickness dim_5,
 right wall dim_6

---
 src/sectionproperties/pre/library/nastran_sections.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index f4d3495..c657301 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -190,10 +190,10 @@ def nastran_box1(
         (0.0, dim_2),
     ]
     interior_points = [
-        (dim_6, dim_4),
-        (dim_1 - dim_5, dim_4),
-        (dim_1 - dim_5, dim_2 - dim_3),
-        (dim_6, dim_2 - dim_3),
+        (dim_5, dim_4),
+        (dim_1 - dim_6, dim_4),
+        (dim_1 - dim_6, dim_2 - dim_3),
+        (dim_5, dim_2 - dim_3),
     ]
     poly_sub = Polygon(exterior_points) - Polygon(interior_points)
 
-- 
2.43.0


From 6118faf5ef41812f0762e3629835588fd9821dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:21 +0000
Subject: [PATCH 25/28] fix: recovery points of nastran_chan() and nastran_i()
 lie at the section's corners

---
 .../pre/library/nastran_sections.py              | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sectionproperties/pre/library/nastran_sections.py b/src/sectionproperties/pre/library/nastran_sections.py
index c657301..4c9b5b6 100644
--- a/src/sectionproperties/pre/library/nastran_sections.py
+++ b/src/sectionproperties/pre/library/nastran_sections.py
@@ -266,10 +266,10 @@ def nastran_chan(
 
     geom = geometry.Geometry(geom=Polygon(points), material=material)
 
-    c = (0.5 * dim_1, 0.5 * dim_2)
-    d = (0.5 * dim_1, -0.5 * dim_2)
-    e = (-0.5 * dim_1, -0.5 * dim_2)
-    f = (-0.5 * dim_1, 0.5 * dim_2)
+    c = (dim_1 - 0.5 * dim_3, 0.5 * dim_2)
+    d = (dim_1 - 0.5 * dim_3, -0.5 * dim_2)
+    e = (-0.5 * dim_3, -0.5 * dim_2)
+    f = (-0.5 * dim_3, 0.5 * dim_2)
 
     geom.recovery_points = [c, d, e, f]
 
@@ -1098,10 +1098,10 @@ def nastran_i(
     ]
     geom = geometry.Geometry(geom=Polygon(points), material=material)
 
-    c = (0.5 * dim_3, 0.5 * dim_1)
-    d = (0.5 * dim_3, -0.5 * dim_1)
-    e = (-0.5 * dim_3, -0.5 * dim_1)
-    f = (-0.5 * dim_3, 0.5 * dim_1)
+    c = (0.5 * dim_3, dim_1 - 0.5 * dim_5)
+    d = (0.5 * dim_2, -0.5 * dim_5)
+    e = (-0.5 * dim_2, -0.5 * dim_5)
+    f = (-0.5 * dim_3, dim_1 - 0.5 * dim_5)
     geom.recovery_points = [c, d, e, f]
 
     return geom
-- 
2.43.0


From 05aa07dacb9678b9c765731b48aed7f0b16e3ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:04 +0000
Subject: [PATCH 26/28] fix: reinforce the inner pier faces of
 double_lift_core_b up to the central wall

The bars on the inner faces of the pier were spread over a length that stops
short of (or overshoots) the bars of the central wall, so that they could be
further apart than the requested spacing, and small piers raised an error.
---
 src/sectionproperties/pre/library/concrete_sections.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sectionproperties/pre/library/concrete_sections.py b/src/sectionproperties/pre/library/concrete_sections.py
index 8debb86..7b35a13 100644
--- a/src/sectionproperties/pre/library/concrete_sections.py
+++ b/src/sectionproperties/pre/library/concrete_sections.py
@@ -2105,15 +2105,14 @@ def double_lift_core_b(
             ys.append(y)
 
         # inner pier bars
-        y_pier = nib - 2 * cover - dia_bar
-        n_pier = ceil(y_pier / spacing) + 1
+        n_pier = ceil(nib / spacing) + 1
         y_pier_b = np.linspace(
             start=0.5 * (d - a2) + cover + 0.5 * dia_bar,
-            stop=0.5 * d - cover - 0.5 * dia_bar,
+            stop=0.5 * (d - t3) + cover + 0.5 * dia_bar,
             num=n_pier,
         )
         y_pier_t = np.linspace(
-            start=0.5 * d + cover + 0.5 * dia_bar,
+            start=0.5 * (d + t3) - cover - 0.5 * dia_bar,
             stop=0.5 * (d + a2) - cover - 0.5 * dia_bar,
             num=n_pier,
         )
-- 
2.43.0


From c097144bdccb5be8528804b842337e8b8bc4183b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 27/28] fix: plot masked meshes in the colours of their
 materials

The colour scale was fitted to the elements that are not masked, which shifted
their colours.
---
 src/sectionproperties/analysis/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sectionproperties/analysis/section.py b/src/sectionproperties/analysis/section.py
index c0ef1ba..de2cb64 100644
--- a/src/sectionproperties/analysis/section.py
+++ b/src/sectionproperties/analysis/section.py
@@ -1653,6 +1653,8 @@ class Section:
                     triang,
                     c,
                     cmap=cmap,
+                    vmin=0,
+                    vmax=len(c) - 1,
                 )
 
                 # display the legend
-- 
2.43.0


From abd4aa0965613a6fea759279401ffe8f6077dedf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:58:51 +0000
Subject: [PATCH 28/28] fix: colour the stress vectors of all materials on one
 scale

Each material's arrows were coloured on a scale of their own, while the colour
bar shows the scale of the last one only.
---
 src/sectionproperties/post/stress_post.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sectionproperties/post/stress_post.py b/src/sectionproperties/post/stress_post.py
index 98adff0..b367bb1 100644
--- a/src/sectionproperties/post/stress_post.py
+++ b/src/sectionproperties/post/stress_post.py
@@ -521,9 +521,10 @@ class StressPost:
                 c_min: float = min(c_min, min(c))
                 c_max: float = max(c_max, max(c))
 
-            # apply the scale
+            # apply the scale and the color limits
             for quiv_plot in quiv_list:
                 quiv_plot.scale = max_scale
+                quiv_plot.set_clim(vmin=c_min, vmax=c_max)
 
             # apply the colorbar
             v1 = np.linspace(
-- 
2.43.0

