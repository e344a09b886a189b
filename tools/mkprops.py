"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "observe_at": observe, "hook_needed": None}})
G="src/sectionproperties/pre/geometry.py"; PRE="src/sectionproperties/pre/pre.py"; S="src/sectionproperties/analysis/section.py"
F="src/sectionproperties/analysis/fea.py"; PL="src/sectionproperties/analysis/plastic_section.py"; PO="src/sectionproperties/post/post.py"
ST="src/sectionproperties/post/stress_post.py"; FI="src/sectionproperties/post/fibre.py"; SO="src/sectionproperties/analysis/solver.py"
BI="src/sectionproperties/pre/bisect_section.py"; LIB="src/sectionproperties/pre/library/"

prop("C01","Elastic section properties are the exact integrals over the cross-section",
 "For every polygonal cross-section (with holes, slanted edges, several regions, anywhere in the plane) a geometric analysis reports the area, exterior perimeter, first and second moments of area about the global and centroidal axes, centroid, radii of gyration, elastic section moduli, and the principal second moments, angle, radii and moduli that follow from exact integration over the described shape. The values do not depend on the mesh size or quality settings, nor on the order in which regions are given.",
 ["inputs","configurations"],"all polygonal sections (any position, orientation, number of regions and holes) and all mesh settings",
 "Tests compare a few named sections against published numbers; sign, quadrant, degenerate-principal-axis and multi-region cases form an infinite input space.",
 [S,F,PO,G],[("numerical integration of area properties",F+":Tri6.geometric_properties"),("accumulation over elements",S+":Section.calculate_geometric_properties"),("derived centroidal and principal values",PO+":SectionProperties.calculate_elastic_centroid ff.")],
 ["getters after a geometric analysis: area, perimeter, q, ig, c, ic, z, rc, ip, phi, zp, rp"])
prop("C02","Composite properties are modulus-weighted sums over the regions",
 "When materials are assigned, the axial, first-moment, bending, principal and section-modulus rigidities are the elastic-modulus weighted integrals over the regions, the mass is density weighted, and the centroid, radii of gyration, principal angle and effective elastic modulus, shear modulus and Poisson's ratio follow from those sums. A property requested relative to a reference modulus or reference material equals the rigidity divided by that modulus, and multiplying every modulus by one factor multiplies every rigidity by it while centroids, angles and radii stay put.",
 ["inputs","configurations"],"all assignments of materials to regions (repeated, equal, default or extreme ones), all section shapes, and all reference moduli",
 "Tests use a handful of two-material sections; which region carries which material, repeated materials and every getter's scaling are combinations they do not enumerate.",
 [S,F,PO,PRE],[("material weighting of element integrals",S+":Section.calculate_geometric_properties"),("element material from region attribute",S+":Section.__init__"),("reference modulus division",S+":get_ea .. get_eas_p")],
 ["getters after geometric and warping analyses of composite sections, with and without a reference modulus or material"])
prop("C03","The mesh is a faithful partition of the geometry",
 "A mesh generated for any valid geometry covers exactly its material regions: elements are positively oriented, do not overlap, do not enter holes or straddle region boundaries, share nodes with their neighbours, and each is analysed with the material of the region it lies in. With quality meshing no element exceeds the area limit given for its own region, whether limits are given once for all regions or one per region.",
 ["inputs","configurations"],"all geometries of one or more regions (with holes, islands in holes, regions in any order) and all mesh settings",
 "Tests look at a few node and element counts; conformity and region attribution are properties of every element of every mesh.",
 [G,PRE,S],[("points, facets, holes and control points handed to the mesher",G+":Geometry.create_facets_and_control_points, CompoundGeometry.compile_geometry"),("region attributes",PRE+":create_mesh"),("element construction",S+":Section.__init__")],
 ["geometry.mesh, and a Section's mesh nodes, mesh elements and elements"])
prop("C04","Geometry transformations are exact rigid motions of the whole description",
 "Shifting, rotating (degrees or radians, about any point or the bounding-box centre), mirroring (about any point or the bounding-box centre) and aligning (to an outer or inner edge of another geometry or of a point, or centre to centre) return a new geometry whose outline, holes, regions with their materials, and assigned control points are all moved by the one rigid motion requested, for single geometries and compounds, in any sequence. The geometries and points involved are left unchanged.",
 ["inputs","histories"],"all geometries, all transformation arguments, and all finite sequences of transformations",
 "Tests check single calls on a square or channel; sequences, compounds, control points and every side/inner/point combination are a product space.",
 [G],[("affine transformation of outline and control point",G+":shift_section, rotate_section, mirror_section"),("extent and centroid based offsets",G+":align_to, align_center")],
 ["outline, extents, area, centroid, materials, control points and holes of the returned geometry and of the operands"])
prop("C05","Set operations on geometries are exact and keep materials and descriptions",
 "Difference, union, symmetric difference, intersection and addition of geometries cover exactly the corresponding set of points: difference keeps the material of each region of the first operand, union, symmetric difference and intersection of single geometries carry the first operand's material, and addition keeps every region with its own material. In the result every region has exactly one control point, which lies inside it, every hole point lies in a void and every void has one, so that it can be meshed to exactly its area (parts that merely touch each other in points aside), and the operands are unchanged. A result of one region keeps the first operand's coordinate precision.",
 ["inputs","histories"],"all pairs of geometries (overlapping, touching, nested, disjoint, single or compound) and all finite sequences of operations on them",
 "Tests use one or two operand pairs per operator; touching, nesting, vanishing and splitting results arise only from particular operand combinations and sequences.",
 [G],[("operators",G+":Geometry.__or__, __xor__, __sub__, __add__, __and__"),("compound flattening and hole detection",G+":CompoundGeometry.__init__, compile_geometry")],
 ["regions, materials, control points, holes, area and mesh of the result; the operands afterwards"])
prop("C06","Point, facet and vertex-level descriptions round-trip to the same region",
 "A geometry's points, facets, holes and control points describe exactly its region, and building a geometry (single or compound) from such lists yields exactly the described outline less its holes with each region's material. Moving one or several vertices, by a relative amount or to an absolute location, yields exactly the polygon with those vertices replaced and everything else (holes, other vertices, material) kept.",
 ["inputs"],"all polygons with holes, all compounds that the point/facet form can express, all vertex selections and displacements",
 "Tests rebuild three fixed shapes; the assignment of facet loops to exteriors, holes and materials depends on counts and orders they do not vary.",
 [G],[("facet generation",G+":create_points_and_facets, create_facets"),("loop recognition",G+":Geometry.from_points, CompoundGeometry.from_points"),("vertex moves",G+":Geometry.shift_points")],
 ["points, facets, holes, control points of a geometry; region and material of a rebuilt one"])
prop("C07","Splitting and offsetting give exactly the pieces and outlines requested",
 "Splitting a geometry (single or compound) by a line given by two points or a point and a direction returns two groups of pieces that lie entirely above (for a vertical line: right of) and below (left of) the line, overlap nowhere, and together cover the geometry exactly, each piece with its region's material. Offsetting the exterior, interior or both perimeters of a single geometry moves exactly those outlines by the given amount and keeps the others (a positive amount grows the outline it moves: the outer boundary, or each hole's own outline), with rounded outside corners, and eroding a compound removes exactly that margin from the outside of its union while each remaining region keeps its material. In the result each region is designated by one point inside it, which is the geometry's assigned point if that is still inside.",
 ["inputs"],"all geometries, all splitting lines (through vertices, along edges, missing the geometry, either direction), all offsets that leave a valid shape",
 "Tests split a unit square and offset a few rectangles; line direction, position and hole handling combine.",
 [G,BI],[("line construction and grouping",BI+":create_line_segment, group_top_and_bottom_polys"),("buffering",G+":offset_perimeter, buffer_polygon")],
 ["regions and materials of returned geometries"])
prop("C08","Results are available exactly when their analysis has been performed",
 "A result can be retrieved only after an analysis that produces it has completed on that section and in the form (geometric-only or composite, shear or torsion stress only after a warping analysis) that the section's materials call for; otherwise the request raises an error and changes nothing. Analyses that need a prior analysis refuse to run without it, sections without a mesh are refused, and every result that should be available is returned.",
 ["histories","configurations"],"all finite sequences of analyses, stress queries and retrievals, on geometric-only and composite sections",
 "Tests try single missing-prerequisite calls; the set of available results is a function of the whole call history, of which there are infinitely many.",
 [S,PO,ST],[("prerequisite checks",S+":calculate_* and get_* methods"),("composite gate",S+":Section.is_composite")],
 ["return or exception of every public analysis and getter after every call"],
 [("performed analyses","which result groups exist",S+":Section.section_props")])
prop("C09","Results do not depend on the history of analyses",
 "The value of every result is a function of the geometry, materials and mesh alone: repeating an analysis, running analyses in any valid order, interleaving stress calculations, displays, exports, plots or analyses of other sections, or turning on progress information never changes any result already or later obtained. Stress results returned earlier keep their values, and no analysis modifies the geometry or the mesh it was given.",
 ["histories"],"all finite sequences of analyses, stress calculations, displays and exports on one or several sections sharing geometry",
 "Tests run each analysis once in one order; accumulation or aliasing errors show only in longer or interleaved histories.",
 [S,PO,ST,PL,FI],[("result reset and accumulation",S+":calculate_geometric_properties, calculate_frame_properties, calculate_plastic_properties"),("copy of material groups",ST+":StressPost.__init__")],
 ["all getters, stress arrays and geometry data after every call"])
prop("C10","All results transform covariantly with the section",
 "Shifting, rotating, mirroring or uniformly scaling a section, or multiplying all elastic moduli or all yield strengths by one factor, changes every elastic, plastic, torsion, shear and monosymmetry result only in the way its physical dimension and direction prescribe. In particular results taken relative to centroidal or principal axes are unaffected by position, and principal results are unaffected by orientation.",
 ["inputs","histories"],"all sections and all finite compositions of rigid motions, reflections, scalings and material scalings",
 "Tests compare a section with published values in one position; covariance relates infinitely many placements of the same section.",
 [S,F,PL,PO],[("warping and shear functions about the centroid",S+":calculate_warping_properties"),("principal axis transformations",F+":principal_coordinate, global_coordinate"),("plastic axis search",PL+":PlasticSection")],
 ["all getters after geometric, warping and plastic analyses of the original and the transformed section"])
prop("C11","Plastic axes balance the yield forces and plastic moduli are exact",
 "For every section the plastic centroid lies on the axes that divide it into two parts carrying equal yield force, about the centroidal and the principal axes alike, and the reported plastic section moduli (geometric-only) or plastic moments (composite, yield-strength weighted over the regions) equal the first moments of the yield force on both sides about those axes.",
 ["inputs"],"all polygonal sections, symmetric or not, in any position and orientation, with any assignment of yield strengths to regions",
 "Tests check a few standard shapes; unsymmetric and hybrid sections have their axis anywhere, and each case takes a different route through the search.",
 [PL,S,BI],[("axis search and force summation",PL+":PlasticSection.pc_algorithm, evaluate_force_eq, pc_force"),("moment summation",PL+":PlasticSection.calculate_plastic_properties")],
 ["pc, pc_p, s, sp, mp, mp_p getters"])
prop("C12","Yield moments and shape factors follow from first yield and full plasticity",
 "For composite sections the yield moment about each centroidal and principal axis is the smallest moment at which any point of any region reaches that region's own yield strength. The shape factors are the ratios of plastic to elastic moduli (geometric-only, for the top/bottom or right/left extreme fibre) or of plastic to yield moment (composite).",
 ["inputs","configurations"],"all sections and all assignments of elastic moduli and yield strengths to regions, including repeated and equal materials",
 "Tests check symmetric two-material examples where the governing fibre is obvious; which region governs depends on every modulus, strength and distance.",
 [S,PL,PO],[("first yield search",S+":calculate_geometric_properties (yield moments)"),("shape factors",PL+":PlasticSection.calculate_plastic_properties")],
 ["my, my_p, sf, sf_p getters"])
prop("C13","Normal stresses are those of linear elastic bending in each material",
 "For any axial force and bending moments (about centroidal or principal axes) the normal stress reported at every node of every region, and at any point of the section, equals the region's modulus times the strain of plane bending computed from the section's rigidities, so that it is linear in position and in the actions, superposes over them, and its resultants are the applied actions. Points outside the section have no stress, and every material's result covers exactly its own region.",
 ["inputs","configurations"],"all sections, material assignments, combinations of actions and evaluation points",
 "Tests check a few extreme-fibre values on simple sections; coupling through the product moment, per-material weighting and each action's sign are a product space.",
 [S,F,ST],[("element stress recovery",F+":Tri6.element_stress, local_element_stress"),("nodal averaging per material",S+":calculate_stress"),("point evaluation",S+":get_stress_at_points")],
 ["get_stress() and get_stress_at_points()"])
prop("C14","Stress results superpose, combine and integrate back to the actions",
 "Every reported stress is the sum of the reported contributions of the individual actions and scales linearly with them; resultant shear, principal and von Mises stresses are the ones given by the reported components at the same place; and the shear stresses due to shear forces and torsion integrate over the section to those forces and that torque, and are at every point the ones belonging to the torsion and shear functions of the theory. Stresses at points agree with the reported nodal stresses there; a point shared by several elements has the requested aggregate of their values.",
 ["inputs"],"all sections, material assignments and combinations of the eight actions",
 "Tests check individual values for single actions; the identities must hold for each combination at each node of each mesh.",
 [S,F,ST],[("combination of components",PO.replace('post.py','stress_post.py')+":StressResult.calculate_combined_stresses"),("element shear stress recovery",F+":Tri6.element_stress")],
 ["get_stress() and get_stress_at_points()"])
prop("C15","Torsion, shear and warping results obey the theory's laws on every section",
 "The torsion constant, warping constant, shear centre, shear areas and monosymmetry constants of every connected section are those of the elastic theory: they satisfy its symmetry rules, bounds and known solutions, converge under mesh refinement, do not depend on the choice of solver, and agree between the full warping analysis and the frame analysis. A section made of one material, or of several with equal moduli, has that modulus times the geometric-only values (for those results that depend on Poisson's ratio: when it is zero, the value of the geometric-only analysis).",
 ["inputs","configurations"],"all connected sections, Poisson's ratios, materials, solver choices and mesh settings",
 "Tests compare several textbook sections to within per cents; symmetry, bounds, solver and path agreement are universal statements.",
 [S,F,SO,PO],[("assembly and solution of the torsion and shear problems",S+":calculate_warping_properties, calculate_frame_properties, assemble_torsion"),("solvers",SO),("element matrices",F+":Tri6.torsion_properties, shear_load_vectors, shear_coefficients, monosymmetry_integrals")],
 ["j, sc, sc_p, sc_t, gamma, as, as_p, beta, beta_p getters; frame results"])
prop("C16","Library sections have exactly the shape their dimensions describe",
 "Every parametric section of the primitive, steel, timber, bridge and NASTRAN libraries has the outline, size, position, hole pattern, material and stress recovery points that its documented parameters describe, for every admissible set of parameters (including zero radii, unequal flanges or layers, and missing lips), and inadmissible parameters that are documented as errors are refused.",
 ["inputs"],"all section functions and all admissible parameter values",
 "Tests build a few sections with one set of dimensions; many branches depend on relations between parameters.",
 [LIB+"primitive_sections.py",LIB+"steel_sections.py",LIB+"nastran_sections.py",LIB+"bridge_sections.py",LIB+"timber_sections.py",LIB+"utils.py"],
 [("section constructors",LIB+"*.py"),("arc generation",LIB+"utils.py:draw_radius")],
 ["outline, area, extents, materials of the returned geometry"])
prop("C17","Concrete sections contain exactly the reinforcement that was requested",
 "Every reinforced concrete library section consists of the concrete outline its dimensions describe with the bars cut out and replaced by steel: the requested number of bars, each of the requested area and at the requested cover and spacing, inside the outline and not overlapping, with concrete and steel materials as given, so that concrete plus steel area equals the gross area. Wall-type sections never space bars along a wall further apart than requested.",
 ["inputs"],"all concrete section functions and all admissible dimensions, bar layouts and discretisations",
 "Tests build one or two layouts per function; the layout branches on bar counts, covers, layers and wall shape.",
 [LIB+"concrete_sections.py",G],[("bar placement",LIB+"concrete_sections.py"),("bar insertion",LIB+"concrete_sections.py:add_bar, add_bars")],
 ["regions, materials and areas of the returned geometry"])
prop("C18","Exported fibre sections reproduce the analysed section",
 "The exported fibre section lists every element of the mesh once, with consistent tags starting from the requested one, the element's area, centroid and material, in the two- or three-dimensional form and within the line width asked for, so that area, first moments and per-material areas equal the section's and the warping data equal those of the section's torsion analysis. A material mapping replaces exactly the mapped material names of cells and nothing else.",
 ["inputs","configurations"],"all meshed geometries and sections, all analysis types, tags, line widths and material mappings",
 "Tests only check that the export runs and rejects bad types; the content is never read back.",
 [FI],[("cell creation and formatting",FI+":Cell, to_fibre_section"),("material mapping",FI+":to_fibre_section")],
 ["the returned text and the saved file"])
prop("C19","Displayed and stored results state the analysed values",
 "For every section and every set of performed analyses, the displayed result tables (including transformed results with a reference modulus) and the stored property dictionary contain every property that is available in that state and no other, each exactly once, under its own label, with the value that the corresponding retrieval returns, in the requested number format.",
 ["histories","configurations"],"all sets of performed analyses, geometric-only and composite sections, reference moduli and formats",
 "Tests only check that display functions do not fail; nothing compares the printed numbers with the retrieved ones.",
 [PO,S],[("result table",PO+":print_results, print_transformed_results"),("dictionary",PO+":SectionProperties.asdict")],
 ["printed tables and stored values"])
prop("C20","Plots show the geometry, mesh and values of what they are drawn for",
 "A stress contour plot colours each element of the requested materials, and no other, by the band that holds the reported value of the requested stress; a vector plot has the reported arrow at every node, on one length and one colour scale for all materials; Mohr's circles are those of the stress state interpolated at the point. The warping plot shows the warping function; the mesh plot shows every (unmasked) element in the colour of its material with a legend of the materials; the centroid plot marks exactly the available centroids and the principal axes where they are; the geometry plot shows every facet, hole, control point and requested number. A plot without its analysis is refused, and drawing changes neither geometry, mesh nor results.",
 ["inputs","configurations","histories"],"all sections, materials, loads, plot requests (stress names, material lists, limits, masks, labels) and sets of performed analyses",
 "Tests only check that plot functions do not fail; what a figure shows is never compared with the values it stands for.",
 [ST,S,G,PO],[("contours, vectors, Mohr's circles",ST+":StressPost.plot_stress, plot_stress_vector, plot_mohrs_circles"),("mesh, centroids, warping function",S+":Section.plot_mesh, plot_centroids, plot_warping_function"),("principal axes",PO+":draw_principal_axis"),("geometry",G+":Geometry.plot_geometry")],
 ["the artists of the returned matplotlib axes"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
