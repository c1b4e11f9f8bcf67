#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/sectionproperties/"
FEA, SEC, POST, STR, PL, SOL = (S + "analysis/fea.py", S + "analysis/section.py", S + "post/post.py",
    S + "post/stress_post.py", S + "analysis/plastic_section.py", S + "analysis/solver.py")
GEO, BIS, PRE, LIB, FIB = (S + "pre/geometry.py", S + "pre/bisect_section.py", S + "pre/pre.py",
    S + "pre/library/", S + "post/fibre.py")

# id, title, statement, quantifier text, over, why tests can't, files, mechanisms
P = []


def p(i, title, st, qt, why, files, mech, over=("inputs",)):
    P.append(dict(id=i, title=title, statement=st,
                  quantifier={"over": list(over), "text": qt}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}))


p("C01", "Area properties equal the exact integrals over the mesh",
  "Area, mass, axial rigidity, shear rigidity, first and second moments of area reported by the geometric analysis equal the exact (modulus- or density-weighted) integrals over the meshed regions, for every mesh and every material. The elastic centroid, the effective modulus, shear modulus and Poisson's ratio follow from those sums.",
  "all straight six-noded triangles, all positive material constants, all assignments of materials to elements",
  "Tests compare a handful of sections with tabulated values to a few digits; a wrong weight or a term that vanishes for symmetric or single-material sections passes.",
  [FEA, SEC, POST], [("four-point quadrature of 1, x, y, x^2, y^2, xy", FEA + ":Tri6.geometric_properties"),
   ("element summation with E and density weights", SEC + ":Section.calculate_geometric_properties")])
p("C02", "Every element carries its own region's material, in exactly one group",
  "Building an analysis section gives every mesh triangle the material of the region it was meshed from and places it in exactly one material group, with one group per distinct material. Node numbers and coordinates are those of the mesh with each mid-side node between its two corners, and a missing mesh or a mismatch between the number of materials and regions is refused with a ValueError.",
  "all region numberings and all patterns of equal and distinct materials, including equal materials held by different objects",
  "Tests use a few composite sections with materials shared by identity; equal-by-value materials and permuted region numbering are not covered.",
  [SEC], [("region attribute lookup, node reordering, group search", SEC + ":Section.__init__")],
  ("inputs", "configurations"))
p("C03", "Centroidal and principal properties follow from the integrals for any section",
  "Centroidal second moments obey the parallel-axis theorem, principal moments and angle diagonalise them with I11 >= I22, and section moduli and radii of gyration use the true extreme fibres measured from the elastic centroid along the corresponding axes.",
  "all integrals with positive definite second moments, all node sets, all orientations",
  "Tests check symmetric or tabulated shapes; sign conventions of the principal angle and of extreme fibres are only wrong for unsymmetric sections in some orientations.",
  [POST], [("parallel-axis, arctan2 of principal axis, extreme fibre search", POST + ":SectionProperties.calculate_centroidal_properties")])
p("C04", "Principal and global coordinates are inverse rotations; side test is exact",
  "Converting coordinates to principal axes rotates them by the given angle, the opposite conversion undoes it, and both preserve lengths and orientation. A point counts as above a line exactly when it lies strictly on the clockwise side of the line's direction.",
  "all angles and all points, including angles beyond a full turn and negative angles",
  "Tests sample one or two angles; a sign error is invisible at 0 or 180 degrees or on the axes.",
  [FEA], [("rotation by phi", FEA + ":principal_coordinate, global_coordinate"), ("cross product sign", FEA + ":point_above_line")])
p("C05", "Element interpolation, quadrature and point location are exact",
  "On every non-degenerate element the interpolation reproduces every quadratic field and its gradient exactly, each quadrature rule integrates every polynomial of its order exactly, and area coordinates map any point back to itself. A point is reported inside an element exactly when it is, and unsupported rule sizes are refused.",
  "all triangles, all points, all polynomials of the stated degree",
  "Tests check shape functions on one reference triangle and a few points.",
  [FEA], [("shape functions and derivatives", FEA + ":shape_function"), ("quadrature tables", FEA + ":gauss_points"), ("area coordinates", FEA + ":Tri6.local_coord, Tri6.point_within_element")])
p("C06", "Torsion stiffness, load and constraint are exact and assembled completely",
  "The torsion stiffness, load and mean-value constraint of every element equal the exact modulus-weighted integrals, rigid fields get no stiffness, and the assembled bordered system is symmetric and equals the sum of all element contributions at their own nodes.",
  "all triangles, all materials, all element connectivities within the bound",
  "Tests only see the torsion constant of a few shapes, to loose tolerances.",
  [FEA, SEC], [("element integrals", FEA + ":Tri6.torsion_properties"), ("scatter into the bordered matrix", SEC + ":Section.assemble_torsion")])
p("C07", "Warping results follow from the solved warping and shear functions",
  "The torsion constant, elastic and Trefftz shear centres, warping constant, shear areas (also about principal axes) and monosymmetry constants satisfy their defining formulas in terms of the solved warping and shear functions and integrals about the elastic centroid, with either linear solver. The loads given to the solver are the exact ones, warping analysis without geometric analysis or with an unknown solver is refused, and disjoint regions cause a warning.",
  "any answer of the linear solver, single-material and composite sections, any element shape and position",
  "Tests compare the final numbers of symmetric sections where many terms vanish (product moment, Poisson terms, off-axis shear centre), so a dropped or sign-flipped term is not seen.",
  [SEC, FEA], [("warping analysis", SEC + ":Section.calculate_warping_properties"), ("element integrals", FEA + ":Tri6.shear_load_vectors, shear_warping_integrals, shear_coefficients, monosymmetry_integrals")],
  ("inputs", "configurations"))
p("C08", "Frame analysis returns the same values as the full analyses",
  "The area, second moments, torsion constant and principal angle returned by the quick frame analysis are those of the geometric and warping analyses of the same section, with either linear solver, for single-material and composite sections. Unknown solvers are refused.",
  "all element integrals, all moduli, any answer of the linear solver",
  "Tests compare the two analyses on a few sections with fixed materials.",
  [SEC], [("second implementation of the geometric and torsion analysis", SEC + ":Section.calculate_frame_properties")],
  ("inputs", "configurations"))
p("C09", "Stress fields are the closed-form fields of the applied actions",
  "Stresses of every action vary over the section as their defining formula (axial, bending about global and principal axes, torsion, shear) in each element's own material, scale linearly with the action, and vanish when the action is zero. Axial and bending stresses integrate back to exactly the applied axial force and moments, and torsion stresses to the applied torque.",
  "all actions, all elements and positions, all moduli, any warping and shear functions",
  "Tests check selected points of selected sections with one action; unsymmetric bending with several materials is outside them.",
  [FEA, SEC], [("element stresses", FEA + ":Tri6.element_stress"), ("driver", SEC + ":Section.calculate_stress")])
p("C10", "Combined, principal and von Mises stresses are the defined functions",
  "At every node the combined stresses are the sums and resultants of their components, the principal stresses are the eigenvalues of the stress state with the larger first, and the von Mises stress is the documented function of normal and shear stress.",
  "all component values of either sign, at every node",
  "Tests read a few plots and one or two values.",
  [STR], [("combination formulas", STR + ":StressResult.calculate_combined_stresses")])
p("C11", "Nodal and point stresses interpolate the element fields",
  "Extrapolating quadrature values to nodes reproduces every quadratic field; nodal stresses average the contributions of the elements of one material only. Stresses at points interpolate the elements of the section that contain each point, are combined by the given aggregation on material boundaries, and are absent outside.",
  "all nodal fields, all points inside, on edges of, or outside the mesh, all aggregations",
  "Tests query a few interior points.",
  [FEA, SEC, STR], [("extrapolation matrix", FEA + ":extrapolate_to_nodes"), ("weights", SEC + ":Section.calculate_stress"), ("point stresses", SEC + ":Section.get_stress_at_points")])
p("C12", "Yield moments put the most stressed fibre exactly at yield",
  "Under the reported yield moment about each global or principal axis, the largest ratio of bending stress to yield strength over all nodes of all elements is exactly one, with each element using its own material.",
  "all materials and node positions, unsymmetric and composite sections",
  "Tests compare a few sections with hand values; the governing material and fibre are always the obvious ones.",
  [SEC], [("yield index search", SEC + ":Section.calculate_geometric_properties")])
p("C13", "Plastic centroids split the yield force equally; moduli are the lever-arm sums",
  "Every reported plastic axis divides the section into two parts of equal yield force, the plastic centroid lies on both axes, and the plastic moment (or modulus) equals the sum over the parts of yield force times distance from the axis, in both axis systems. Shape factors are the plastic over the elastic moduli, and plastic analysis before geometric analysis is refused.",
  "any root returned by the root finder, all part areas, centroids and yield strengths",
  "Tests check plastic moduli of standard shapes where both halves are mirror images.",
  [PL], [("force equilibrium and moduli", PL + ":PlasticSection")])
p("C14", "Splitting a geometry keeps every part on its own side",
  "Splitting by a line (two points, or a point and a vector of either sense) cuts along the whole section on exactly that line and returns the parts above it (to its right for a vertical line) and the parts below it (to its left), together making up the original, each keeping its material; compounds are split part by part. A single point is refused.",
  "all lines and all arrangements of parts",
  "Tests split a few centred shapes by axis-aligned lines.",
  [BIS, GEO], [("top/bottom grouping, line through section", BIS), ("split_section", GEO + ":Geometry.split_section")])
p("C15", "Compiled outlines reproduce the polygons that will be meshed",
  "Compiling a geometry produces points, facets, holes and control points that describe exactly its polygons: every boundary edge of every region is a facet connecting the right points, no point is stored twice, each void gets exactly one hole point inside it (also when a region lies within the void) and each region a control point inside it, in the order of the regions. Building from points and facets keeps the given control points and materials, vertices are rounded to the tolerance, and the mesher is given exactly this outline with one region number and mesh size per control point.",
  "all polygons with holes and compounds sharing vertices within the bound",
  "Tests check counts for a few shapes.",
  [GEO], [("create_points_and_facets, create_facets, compile_geometry", GEO)])
p("C16", "Transformations move a geometry exactly and keep its material",
  "Shifting, rotating, mirroring and aligning a geometry (or compound) applies the stated rigid motion to every vertex and to assigned control points, preserves materials and mesh tolerance, and puts the aligned edges or centres where requested. Opposite motions cancel.",
  "all coordinates, offsets, angles, axes and mirror points, single and compound geometries",
  "Tests compare extents or centroids after a few motions with round numbers.",
  [GEO], [("shift_section, rotate_section, mirror_section, align_to, align_center, shift_points", GEO)])
p("C17", "Library sections have exactly the requested dimensions",
  "Parametric primitive, steel, concrete, timber and bridge outlines contain exactly the corner points and radii implied by their dimensions, so that overall dimensions and thicknesses match the arguments. Curved outlines lie on the requested circles and ellipses.",
  "all admissible dimension values",
  "Tests build each shape for one set of dimensions and rely on published areas.",
  [LIB + "primitive_sections.py", LIB + "steel_sections.py", LIB + "utils.py"], [("outline points", LIB)])
p("C18", "Reinforcement is placed at the requested cover, count and area",
  "Concrete sections get the requested number of bars at each face, with the requested area, at the requested clear cover from the faces, evenly spaced, and the concrete has a hole exactly where each bar is.",
  "all dimensions, covers, bar diameters and counts",
  "Tests check bar counts and total areas for a few layouts.",
  [LIB + "concrete_sections.py"], [("bar layout", LIB + "concrete_sections.py"), ("rebar insertion", GEO + ":add_bar")])
p("C19", "Nastran, bridge and timber sections match their dimension definitions",
  "Nastran-style sections have the area and extents implied by their dimension arguments, laminated timber has its layers stacked from the bottom in the given order with the given materials and thicknesses, and inadmissible dimensions are refused.",
  "all admissible dimension values; layer lists with unequal thicknesses",
  "Tests cover a single dimension set for each and equal layers.",
  [LIB + "nastran_sections.py", LIB + "timber_sections.py", LIB + "bridge_sections.py"], [("outline points", LIB)])
p("C20", "Getters refuse missing analyses and scale by the reference modulus",
  "Every property getter raises a RuntimeError before the analysis it needs, returns the value of that analysis afterwards, and for composite sections returns rigidity divided by the reference modulus or material when one is given. Geometric-only getters are refused for composite sections and rigidity getters for plain ones.",
  "all stored values, all reference moduli, all analysis states",
  "Tests call the getters after full analyses with one reference value.",
  [SEC], [("getter guards and division by e_ref", SEC + ":Section.get_*")], ("inputs", "histories"))
p("C21", "Linear solves return the constrained solution or refuse",
  "The direct and iterative solver wrappers return the solution of the bordered system without its multiplier, and refuse when the solve fails or when the multiplier is not negligible relative to the solution, whatever its sign.",
  "all solutions and multipliers returned by the underlying solver",
  "Tests always see consistent loads, for which the multiplier is zero.",
  [SOL], [("multiplier check", SOL + ":solve_direct_lagrange, solve_cgs_lagrange")])
p("C22", "Disjoint and overlapping regions are detected for every arrangement",
  "A set of regions is reported disjoint exactly when it is not connected through contact (a shared point, edge or area), and overlapping exactly when at least two regions share area, regardless of the number and order of regions. Warping analysis warns about disjoint regions and plastic analysis about overlapping ones, and neither warns otherwise.",
  "all contact and overlap patterns between up to five regions",
  "Tests use two or three regions.",
  [GEO], [("check_geometry_disjoint, build_geometry_network, check_geometry_overlaps", GEO), ("warnings", SEC + ":Section.calculate_warping_properties, calculate_plastic_properties")], ("inputs", "configurations"))
p("C23", "Exported fibres carry each cell's own area, centroid and material",
  "The fibre export lists one cell per mesh triangle with that triangle's area, centroid and warping value and its own material's tag, for any material names.",
  "all meshes, materials and name patterns",
  "Tests export one or two sections whose names do not overlap.",
  [FIB], [("cell list and name-to-tag mapping", FIB)])
p("C24", "Progress reporting never changes a result",
  "Running any analysis with progress reporting turned on gives exactly the results, warnings and errors that it gives with reporting turned off.",
  "all analyses, solver types and section types; any solver answer",
  "Tests run with progress reporting off, or only check that it does not crash.",
  [SEC, PL], [("duplicated progress branches", SEC)], ("configurations", "inputs"))
p("C25", "Stress results are exported and plotted under their own names and values",
  "Exported and plotted stress fields carry, for each material group, exactly the values of the requested stress, colour limits span all plotted groups, vector plots show the two components of the requested resultant, and Mohr's circles show the principal stresses at the requested point. The results of a load case do not depend on load cases evaluated before or after it, nor on exports or plots made in between.",
  "all stress fields, material groups, points and orders of load cases",
  "Tests check one or two fields of one load case and never look at plotted values.",
  [STR], [("get_stress, plot_stress, plot_stress_vector, plot_mohrs_circles", STR + ":StressPost")], ("inputs", "histories"))
p("C26", "Displayed result tables show the values of the getters",
  "Each row of the displayed results table shows the value that the corresponding property getter returns, in the stated units, and rows are present only when the analysis was done.",
  "all stored values, plain and composite sections",
  "Tests only check that the table prints.",
  [POST], [("table rows", POST + ":print_results")])

p("C27", "Operations leave their operands unchanged and analyses can be repeated",
  "Transforming, combining, offsetting, splitting or measuring a geometry returns new objects and leaves the operands as they were. Building a section and running analyses leaves the meshed geometry, the mesh and the elements unchanged. An analysis repeated on the same section, or run after another analysis, gives the same results, and results already handed out do not change.",
  "all geometries within the bound and all operations on them, all orders and repetitions of analyses within the bound, any answer of the linear solver",
  "Tests build a fresh section per check; a shared list or array that is modified in place only shows when an operand, a mesh or an earlier result is used again.",
  [GEO, SEC, PL], [("copies in transformations and booleans", GEO + ":Geometry.shift_points, CompoundGeometry.__init__"),
   ("copy of the mesh, separate centroidal section", SEC + ":Section.__init__, Section.calculate_warping_properties")], ("inputs", "histories"))
p("C28", "Boolean operations, offsets and measures give the described region",
  "Union, intersection, difference and symmetric difference of geometries give exactly the region the operation describes, also when regions only touch or nothing is left, with the left operand's material, an assigned control point kept where it still lies in the result, and one control point inside every region; regions without area are dropped from compounds. Offsetting moves exactly the chosen edges by the amount and keeps material and tolerance; extents, area, perimeter and centroid are those of the region.",
  "all rectilinear regions on grids with arbitrary spacing in thirteen mutual positions, any offset amount within the bound",
  "Tests use a few fixed shapes; regions that touch along several edges, parts consumed by a cut and control points cut away are not covered.",
  [GEO], [("operators", GEO + ":Geometry.__or__, __and__, __sub__, __xor__, __add__"), ("offsets", GEO + ":Geometry.offset_perimeter, CompoundGeometry.offset_perimeter"),
   ("non-polygon results dropped", GEO + ":filter_non_polygons")], ("inputs", "configurations"))
p("C29", "Drawings of geometry, mesh and centroids show the model's own data",
  "The drawn geometry has exactly the facets, holes and control points of the geometry and labels each with its own index at its own place. The mesh drawing has exactly the unmasked elements, each in its own material's colour, with one legend entry per material. Centroids, shear centre and plastic centroids are marked at their global positions when and only when they are available, the principal axes pass through the centroid at the principal angle within the drawn area, the warping drawing carries the value of each node, and the mesh statistics are the mesh's own counts.",
  "all coordinates, stored results, axis limits and angles in the stated ranges, all element masks and material arrangements listed",
  "Tests only check that plotting does not raise; a wrong colour, label, position or axis goes unnoticed.",
  [GEO, SEC, POST], [("geometry drawing", GEO + ":Geometry.plot_geometry"), ("mesh, centroid and warping drawings", SEC + ":Section.plot_mesh, plot_centroids, plot_warping_function, display_mesh_info"),
   ("principal axes", POST + ":draw_principal_axis")], ("inputs", "configurations"))

LEVEL_NOTE = ("Bounded symbolic execution of the real functions with every assertion discharged by z3 over all real "
              "values in the stated ranges; counterexamples are replayed on the unmodified library. Real arithmetic "
              "stands for floating point; the stubs named in the evidence file are trusted.")


def main():
    import importlib, sys
    sys.path.insert(0, H)
    with open(H + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if os.path.exists(f"{H}/props/{i.lower()}.py"):
            checks.append({
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python check.py {i} quick",
                "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "symbolic execution of the real functions over exact reals, assertions decided by z3",
                "level": "other",
                "level_note": LEVEL_NOTE,
            })
        else:
            na.append({"property": i, "reason": NOTDONE.get(i, "check not built yet")})
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python tools/setup.py",
         "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Checks load /repo/src directly on every run; no build products are used."}
    with open(H + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), len(checks), len(na))


NOTDONE = {}
if __name__ == "__main__":
    main()
