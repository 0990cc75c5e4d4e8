#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the compact table below."""
import json, os
G = "src/gpytoolbox/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": [G + f + ".py" for f in files],
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [{"name": n, "where": os.path.normpath(G + w)} for n, w in mech],
            "observe_at": observe, "hook_needed": None}})

prop("P01", "Halfedge, edge and face incidence tables are exact",
 """For every triangle list, `halfedges` lists for each face the three oriented sides opposite corners 0,1,2; `edges`
 (and `faces`/`halffaces` for tets) lists every unordered side exactly once, boundary sides carrying the orientation of their
 only face, and `halfedge_edge_map` and `adjacency_matrix` describe exactly that incidence (the two maps of
 `halfedge_edge_map` are mutually inverse, with and without `assume_manifold`). `edge_indices(n, closed)` chains 0..n-1 in order, closing the chain iff asked.""",
 ["inputs"], "all non-empty integer triangle (k=3), tet (k=4) and edge lists: closed, with boundary, non-manifold, inconsistently oriented, unreferenced indices, any integer dtype",
 "The tests use a handful of meshes; incidence must hold for every face list, including non-manifold and unordered ones, which no fixed mesh set enumerates.",
 ["halfedges", "edges", "halffaces", "faces", "halfedge_edge_map", "adjacency_matrix", "edge_indices"],
 [("unique over sorted half-edges", "edges.py"), ("unflatten / scatter maps", "halfedge_edge_map.py")],
 ["return values of the named functions"])

prop("P02", "Boundary, interior and non-manifold classification is exact",
 """An edge (face of a tet) is reported as boundary, interior or non-manifold exactly when it is incident to one, at least two, or
 more than two faces (tets): this holds for the index lists returned by `edges` and `faces` (which index the rows of the very list they are returned with) and for
 `boundary_edges`, `boundary_faces`, `boundary_vertices` and `non_manifold_edges`.""",
 ["inputs"], "all non-empty triangle and tet lists, all combinations of the optional return flags",
 "Tests check closed meshes or single triangles, where the index lists are trivial; the classification has to hold for each mixture of boundary, interior and non-manifold edges.",
 ["edges", "faces", "boundary_edges", "boundary_faces", "boundary_vertices", "non_manifold_edges"],
 [("unique_count thresholds and reordering", "edges.py"), ("unique_count thresholds and reordering", "faces.py")],
 ["return values of the named functions"])

prop("P03", "Triangle adjacency is the symmetric pairing of opposite half-edges",
 """For every manifold oriented triangle mesh `triangle_triangle_adjacency` returns, for side i of face f, the unique other face and side that
 traverses the same edge in the opposite direction, or -1 in both tables if there is none; following a link twice returns to the start.
 `dihedral_angles` and `angle_defect` being built on it, boundary sides never receive a neighbour.""",
 ["inputs"], "all edge-manifold consistently oriented triangle meshes with or without boundary, any face order and vertex labelling",
 "Involution over all labelled meshes cannot be sampled by the six meshes in the tests.",
 ["triangle_triangle_adjacency", "array_correspondence"],
 [("array_correspondence of half-edges with flipped half-edges", "triangle_triangle_adjacency.py")],
 ["TT, TTi"])

prop("P04", "Boundary loops partition the oriented boundary",
 """`boundary_loops` returns a list of vertex cycles whose consecutive pairs (cyclically) are exactly the oriented boundary edges of the mesh,
 each used exactly once, no cycle visiting a vertex twice; a closed mesh gives the empty list.
 When wrongly oriented faces are allowed, the loops still cover exactly the unordered boundary edges, each once.""",
 ["inputs"], "all manifold oriented triangle meshes with any number of boundary components; with allow_wrong_orientations, manifold meshes with flipped faces",
 "Tests look at few meshes with one or two loops of convenient numbering; the walk must end correctly for every boundary graph.",
 ["boundary_loops", "boundary_edges"], [("walk along boundary edges", "boundary_loops.py")], ["returned loops"],
 [("unvisited boundary edges", "edges not yet consumed by a loop", G + "boundary_loops.py")])

prop("P05", "Connected components equal graph reachability",
 """`connected_components` assigns two vertices the same label exactly when a path of edges of the face (or edge) list joins them, uses
 labels 0..c-1 with none unused, and labels each face with the label of its vertices.""",
 ["inputs"], "all simplicial index lists with k=2 or 3 columns including unreferenced vertices, many components, non-manifold contacts",
 "Reachability is a property of all graphs; the tests use unions of a few standard meshes.",
 ["connected_components", "adjacency_matrix"], [("graph traversal", "connected_components.py")], ["C, CF"])

prop("P06", "Cutting along edges separates exactly what the cut separates",
 """`cut_edges(F,E)` keeps the faces' order and corner order and maps every new vertex back to the original one; two face corners at the same original vertex share a
 new vertex exactly when they are connected through faces around that vertex across edges that are not cut. New indices are 0..n-1 without gaps, and cutting nothing returns the mesh unchanged.""",
 ["inputs"], "all triangle meshes and all lists of mesh edges to cut (any order, orientation and repetition), including the empty list and boundary edges",
 "Tests cut a few hand-picked paths; the number of corner classes depends on each combination of cut edges around each vertex.",
 ["cut_edges"], [("gluing of corners across uncut edges", "cut_edges.py")], ["G, I"])

prop("P07", "Index maps of array and vertex deduplication are exact",
 """`array_correspondence(A,B)` gives for every entry/row of A an index of an equal entry/row in B and -1 exactly when there is none.
 `remove_unreferenced` and `remove_duplicate_vertices` keep exactly one vertex per referenced (respectively distinct up to epsilon) vertex, and their index maps send every face corner and every
 old vertex to a vertex with the same position, so the geometry of each face is unchanged.""",
 ["inputs"], "all arrays (0, 1 or more duplicates, flattened or by row/column, any numeric dtype) and all meshes or point sets with unreferenced or duplicated vertices, any epsilon",
 "Tests compare with NumPy on random arrays of one shape; duplicates, absent entries, axis and dtype combinations are an open set.",
 ["array_correspondence", "remove_unreferenced", "remove_duplicate_vertices"],
 [("dictionary of bytes/sorted unique", "array_correspondence.py"), ("relabeling map", "remove_unreferenced.py"), ("rounding + unique", "remove_duplicate_vertices.py")],
 ["returned arrays and maps"])

prop("P08", "Subdivision preserves topology and follows its averaging rule",
 """`subdivide` with `upsample` or `loop` replaces each triangle (or each segment of a polyline) by four (two) whose corners are old vertices and one new vertex per edge, so
 orientation, boundary, Euler characteristic and manifoldness are preserved for any number of iterations, `iters=n` equals n single calls, and old vertices keep their indices.
 The returned matrix S satisfies S@V = new vertices, has rows summing to one with non-negative entries, and equals midpoint averaging (upsample) or the Loop/curve-corner-free stencil, boundary included (loop).""",
 ["inputs", "histories"], "all oriented manifold triangle meshes in which every vertex is referenced and no two faces have the same three vertices (and polylines), methods upsample and loop (loop: interior valences of at least three), every iteration count, with and without vertex positions and matrix",
 "Stencils differ by valence and boundary position; tests compare areas of a few meshes and one stored result.",
 ["subdivide"], [("edge numbering and stencil assembly", "subdivide.py"), ("halfedge_edge_map", "halfedge_edge_map.py")], ["Vu, Fu, S"],
 [("mesh", "current mesh between iterations", G + "subdivide.py")])

prop("P09", "Generated primitive meshes are valid oriented manifolds",
 """For all admissible sizes (at least two per axis, three around), `regular_square_mesh`, `regular_cube_mesh`, `cone`, `cylinder`, `torus`, `icosphere` and `regular_circle_polyline` return indices that are in range and
 reference every vertex, a consistently oriented manifold mesh with the Euler characteristic and boundary of the named shape, no degenerate or inverted elements (outward orientation, positive tets), and vertices lying on the stated surface or grid with the stated extent. The cube type 'five' tiles the cube, but its cells are not claimed to conform across their common faces.""",
 ["inputs", "configurations"], "all size arguments (equal and different per axis), all cube mesh types, all refinement levels",
 "Tests try few sizes and mostly compare with stored meshes or volumes; index arithmetic must work for all sizes, particularly unequal and minimal ones.",
 ["regular_square_mesh", "regular_cube_mesh", "cone", "cylinder", "torus", "icosphere", "regular_circle_polyline"],
 [("grid index arithmetic", "regular_cube_mesh.py"), ("ring stitching", "cylinder.py")], ["V, F, T, EC"])

prop("P10", "Discrete exterior calculus is a cochain complex with inverse Hodge stars",
 """For every triangle mesh with its edge list, `dec_d0` is the vertex-to-edge incidence (+1 at the edge's first vertex, -1 at its second), `dec_d1` the edge-to-face incidence with signs relative to the stored edge
 orientation, and d1*d0 = 0. The Hodge stars are diagonal: `dec_h0` holds the barycentric vertex areas, `dec_h1` the sums of half-cotangents opposite each edge, `dec_h2` the face areas, each `*inv` is the inverse of its star wherever that is not zero,
 and the `_intrinsic` version on edge lengths equals the extrinsic one.""",
 ["inputs"], "all triangle meshes (boundary, closed, several components), any labelling and any edge orientation from the library's edge list",
 "Tests check a few meshes and only single-triangle intrinsic inverses; the complex identities are algebraic facts for all meshes.",
 ["dec_d0", "dec_d1", "dec_h0", "dec_h1", "dec_h2", "dec_h0inv", "dec_h1inv", "dec_h2inv", "dec_h0_intrinsic", "dec_h1_intrinsic", "dec_h2_intrinsic", "dec_h0inv_intrinsic", "dec_h1inv_intrinsic", "dec_h2inv_intrinsic"],
 [("signs from halfedge_edge_map", "dec_d1.py"), ("diagonal assembly", "dec_h0_intrinsic.py")], ["returned sparse matrices"])

prop("P11", "Finite-element operators have their defining structure",
 """`grad` maps every linear function to its exact constant gradient on each element; `cotangent_laplacian` is the symmetric matrix whose quadratic form is the Dirichlet energy of that gradient (constants in its kernel),
 with `cotangent_weights` its halfedge entries; `massmatrix` (barycentric, voronoi, full) is symmetric positive with total equal to the mesh measure; `biharmonic_energy` quadratic forms are symmetric, non-negative and vanish on constants (and on linear functions for the Hessian variants where documented).
 Every `_intrinsic` variant fed the mesh's squared edge lengths equals its extrinsic counterpart, and n-vertex options only pad with zeros.""",
 ["inputs"], "all non-degenerate polylines and triangle meshes (2D and 3D embeddings), every documented type/bc option, unreferenced trailing vertices",
 "Operators are assembled by index arithmetic; correctness for each element and dimension is a universally quantified identity, tests compare convergence or few stored values.",
 ["grad", "grad_intrinsic", "cotangent_laplacian", "cotangent_laplacian_intrinsic", "cotangent_weights", "cotangent_weights_intrinsic", "massmatrix", "massmatrix_intrinsic", "biharmonic_energy", "biharmonic_energy_intrinsic"],
 [("sparse triplet assembly", "cotangent_laplacian_intrinsic.py"), ("sparse triplet assembly", "grad.py")], ["returned sparse matrices"])

prop("P12", "Per-element metric quantities equal their exact geometric values",
 """`halfedge_lengths(_squared)`, `doublearea(_intrinsic)`, `volume`, `barycenters`, `per_face_normals`, `per_vertex_normals`, `tip_angles(_intrinsic)`, `dihedral_angles` and `angle_defect(_intrinsic)` return, element by element and corner by corner, the exact
 geometric quantity of that element up to rounding, whatever the scale, position or orientation of the mesh; signed variants carry the orientation sign.
 Triangle angles sum to pi, angle defects sum to 2*pi times the Euler characteristic on closed meshes and vanish where documented at the boundary.""",
 ["inputs"], "all non-degenerate polylines, triangles and tets in every supported dimension, all scales and orientations, options signed/unit_norm included",
 "Tests compare sums or single shapes, so permuted corners, wrong signs for particular configurations and scale dependence pass.",
 ["halfedge_lengths", "halfedge_lengths_squared", "doublearea", "doublearea_intrinsic", "volume", "barycenters", "per_face_normals", "per_vertex_normals", "tip_angles", "tip_angles_intrinsic", "dihedral_angles", "angle_defect", "angle_defect_intrinsic"],
 [("per-corner formulas", "tip_angles_intrinsic.py"), ("Heron formula", "doublearea_intrinsic.py")], ["returned arrays"])

prop("P13", "Quadtrees and octrees stay consistent through every refinement",
 """After `initialize_quadtree` and any sequence of `subdivide_quad` calls on leaves, the cells form a tree of exact 2^d bisections of the root (centres, widths, parents, children, depths consistent), the leaves tile the root box,
 existing cells keep their indices, and the adjacency matrix records, for exactly the pairs of cells that share a face of positive measure, the correct direction code; a `graded` tree never has side-neighbouring leaves differing by more than one level, extra splits happening only where a neighbour two levels finer presses.
 `initialize_quadtree` never splits a cell with no input point nearby nor beyond the maximum depth, honours the minimum depth, and covers all input points; the function arguments are not modified.""",
 ["histories", "inputs"], "all sequences of leaf refinements in 2D and 3D, graded or not, and all point sets and depth limits",
 "Consistency is an invariant over refinement histories; tests check only a few clouds via plots and derivative convergence.",
 ["initialize_quadtree", "subdivide_quad"],
 [("children creation and adjacency update", "subdivide_quad.py"), ("refinement loop", "initialize_quadtree.py")], ["C, W, CH, PAR, D, A"],
 [("tree arrays", "C centres, W widths, CH children, PAR parents, D depths, A adjacency", G + "subdivide_quad.py")])

prop("P14", "Quadtree queries and operators agree with the tree geometry",
 """`quadtree_children` returns exactly the childless cells, `in_quadtree` returns the leaf containing each query point (and a negative answer outside the box), `quadtree_boundary` exactly the leaf cells touching the root box boundary, and
 `bad_quad_mesh_from_quadtree` one axis-aligned square (cube) per leaf with the right corners.
 `quadtree_gradient` and `quadtree_laplacian` (graded 2D trees with at least one split) have one row block per leaf whose stencils are exact on constants (gradient also on linear functions where its one-neighbour-per-side stencil applies), are the centred-difference weights of the adjacent leaves, and touch only those.""",
 ["inputs", "histories"], "all 2D and 3D trees reachable by refinement, all query points including those on cell borders",
 "Point location and stencils depend on each tree shape; tests use a few random trees and visual checks.",
 ["quadtree_children", "in_quadtree", "quadtree_boundary", "bad_quad_mesh_from_quadtree", "quadtree_gradient", "quadtree_laplacian"],
 [("tree descent", "in_quadtree.py"), ("neighbour direction codes", "quadtree_gradient.py")], ["returned values"])

prop("P15", "AABB trees bound their subtrees and traversal visits what it promises",
 """`initialize_aabbtree` builds a binary tree over all input elements in which each element is in exactly one leaf, parent/child/split records agree, and each node's box is exactly the bounding box of the elements below it (the root's that of all vertices), for any element kind and coordinate range; the recorded split direction of an inner node is a direction of its largest extent and -1 at leaves.
 `traverse_aabbtree` visits the root first, expands a node only if the traversal predicate says so, visits each node at most once and every node whose ancestors all allow descent exactly once.""",
 ["inputs", "histories"], "all element lists (points, segments, triangles, tets, boxes; single element, coincident elements, huge coordinates) and all traversal predicates",
 "Box containment is quantified over each node and element, and traversal over all predicates; tests traverse random trees with one predicate.",
 ["initialize_aabbtree", "traverse_aabbtree"],
 [("recursive median split", "initialize_aabbtree.py"), ("queue loop", "traverse_aabbtree.py")], ["C, W, CH, PAR, D, tri_ind, leaves, visited nodes"],
 [("queue", "nodes still to visit", G + "traverse_aabbtree.py")])

prop("P16", "Point-to-element distance queries return the true closest distance",
 """`squared_distance` and `squared_distance_to_element` return the exact squared Euclidean distance from each query point to the closest point, segment or triangle, the index of an element attaining it, and barycentric coordinates (non-negative, summing to one) of a closest point,
 with and without the bounding-volume tree, and with the compiled tree built on the spot or kept in a `squared_distance_precompute`, which answers for the mesh it was built from; `unsigned_distance` is its square root. `barycentric_coordinates` reproduces each query point in the plane of its triangle.""",
 ["inputs"], "all non-degenerate element sets and query points in 2D and 3D: on vertices, edges, faces, inside, far away, ties, negative coordinates, tree on or off",
 "Each Voronoi region of each element kind is a different code path, and pruning must be safe for all tree shapes; tests sample a few.",
 ["squared_distance", "squared_distance_to_element", "squared_distance_precompute", "unsigned_distance", "barycentric_coordinates"],
 [("closest-point case analysis", "squared_distance_to_element.py"), ("pruned traversal", "squared_distance.py")], ["d2, index, lambda"])

prop("P17", "Set-to-set distances are exact minima over pairs",
 """`edge_edge_distance` and `triangle_triangle_distance` return the exact minimum Euclidean distance between two segments or triangles, zero iff they touch, independent of argument order and vertex order, `triangle_triangle_distance` returning the distance alone; `minimum_distance` equals the minimum over all element pairs, and
 `approximate_hausdorff_distance` (either path) the maximum over both meshes' vertices of their distance to the other mesh.""",
 ["inputs"], "all segment and triangle pairs (parallel, coplanar, crossing, touching, nested, far) and all mesh or point-cloud pairs in 2D and 3D",
 "The closest features of two triangles fall into many cases; random tests in general position never meet parallel, coplanar or containment cases.",
 ["edge_edge_distance", "triangle_triangle_distance", "minimum_distance", "approximate_hausdorff_distance"],
 [("edge and face case analysis", "triangle_triangle_distance.py"), ("tree-pair pruning", "minimum_distance.py")], ["returned distances"])

prop("P18", "Ray casts report the first hit and nothing else",
 """`ray_triangle_intersect`, `ray_mesh_intersect` (either path, or through a `ray_mesh_intersect_precompute`), `ray_box_intersect` and `ray_polyline_intersect` report a hit exactly when the half-line from the origin meets the object, with the smallest non-negative parameter t, the element hit, and the point origin+t*direction (barycentric coordinates reproduce it); misses are reported as such. `ray_box_intersect` reports the first contact, the origin itself if it lies inside; polyline hits beyond `max_distance` are misses. Where rounding alone decides whether the boundary of an element is hit, either answer is right.""",
 ["inputs"], "all rays and objects in general position and axis-aligned positions: origin inside, behind, beyond the far element (off the polyline), parallel to faces or slabs, direction unnormalised",
 "Sign and ordering cases of rays against boxes and triangles are combinatorially many; tests use random rays against one mesh.",
 ["ray_triangle_intersect", "ray_mesh_intersect", "ray_mesh_intersect_precompute", "ray_box_intersect", "ray_polyline_intersect"],
 [("slab test", "ray_box_intersect.py"), ("first-hit selection over traversal", "ray_mesh_intersect.py")], ["t, ids, lambdas, hit points"])

prop("P19", "Inside/outside classification and signed distance agree with winding",
 """For closed oriented 2D polygons (any number of components, either orientation) `winding_number` equals the integer winding number of the curve around the point away from the curve (for a polyline that does not close, the signed angle it subtends there divided by a full turn); `signed_distance` has the magnitude of the exact distance and is negative exactly where the winding number exceeds one half (where it is positive, for closed curves),
 with the index and barycentric coordinates of a closest segment; `signed_distance_polygon` agrees in magnitude for the simple polygon of either orientation, negative exactly inside by the parity of crossings. The same holds of `winding_number`, `fast_winding_number` and `signed_distance` for closed oriented triangle meshes in space, also with a `fast_winding_number_precompute` and a `squared_distance_precompute` kept from before.""",
 ["inputs"], "all closed polygons and open polylines, convex or not, nested or multiple components, clockwise or counter-clockwise, all query points off the curve",
 "Crossing-sign cases depend on where each edge lies around the point; the tests use circles and one image polygon.",
 ["winding_number", "fast_winding_number", "fast_winding_number_precompute", "signed_distance", "signed_distance_polygon", "squared_distance"],
 [("signed solid angle sum", "winding_number.py"), ("sign from winding", "signed_distance.py")], ["returned values"])

prop("P20", "Marching squares separates signs with closed oriented contours",
 """`marching_squares` places a contour vertex on exactly those grid edges whose end values straddle zero, at the linear-interpolation point, and joins them inside each cell so that the contour separates the inside from the outside corners of every cell; away from the grid border every contour vertex has
 exactly one incoming and one outgoing segment, with the positive side always on its right; at saddle cells the contour cuts off opposite corners.""",
 ["inputs"], "all scalar grids, including all 16 sign cases per cell, ambiguous saddles, unequal grid sizes and any node values that are not zero or extremely close to it",
 "Sixteen cases per cell times neighbours; tests compare areas of smooth shapes whose ambiguous cells never occur.",
 ["marching_squares"], [("case table", "marching_squares.py")], ["verts, edge_list"])

prop("P21", "Grid finite-difference and interpolation operators are exact where they must be",
 """`fd_partial_derivative` and `fd_grad` differentiate linear grid functions exactly on the staggered grid in the requested direction, with one row per staggered node; `fd_interpolate` has rows of non-negative weights summing to one on the cell containing each point, reproduces multilinear functions and node values exactly; and
 `grid_neighbors` lists for each cell its neighbours within the requested order, marking out-of-grid ones, never wrapping around, the cell itself included exactly when asked at order one (it may reappear at higher orders). Rows of the difference operators follow the first-axis-fastest node order.""",
 ["inputs", "configurations"], "all grid sizes (unequal per axis, minimal), spacings, corners, directions, orders and query points inside the grid including nodes and cell borders, 2D and 3D",
 "Index strides mix up silently when axis sizes are equal or the grid is large; tests use few sizes.",
 ["fd_partial_derivative", "fd_grad", "fd_interpolate", "grid_neighbors"],
 [("lexicographic index arithmetic", "fd_interpolate.py"), ("offset lists", "grid_neighbors.py")], ["returned matrices and index lists"])

prop("P22", "Constrained quadratic solves return the constrained minimiser on every history",
 """`min_quad_with_fixed` and `fixed_dof_solve` return a vector that takes the prescribed values at the fixed indices, satisfies the linear equality constraints and makes the residual vanish in all remaining directions.
 A precomputed solver object reused over any sequence of right-hand sides, fixed values and constraint values gives at each step the same answer as a fresh one-shot call, unaffected by earlier calls or by later changes to arrays the caller passed in.""",
 ["histories", "inputs"], "all regular systems (the reduced optimality system is nonsingular), fixed index sets (empty, unsorted, all), constraint matrices, vector and matrix right-hand sides, and all interleavings of solves on shared precomputed objects",
 "A wrong cached factor or argument alias only shows in particular reuse sequences; tests call each object once or twice.",
 ["min_quad_with_fixed", "fixed_dof_solve"],
 [("precompute objects", "min_quad_with_fixed.py"), ("precompute objects", "fixed_dof_solve.py")], ["solution vectors"],
 [("precomputed factorisation", "reduced system and its factor", G + "min_quad_with_fixed.py")])

prop("P23", "L1 minimisation returns a feasible vector no worse than any competitor",
 """`min_l1_with_fixed` returns a vector that satisfies all fixed values and linear constraints and whose weighted L1 (plus linear) objective is, within solver tolerance, not larger than that of any other feasible vector. The quadratic term is given by a factor L of any width (Q = L L^T); random give-ups of the conic solver (a raised ValueError) may be retried.""",
 ["inputs"], "all feasible bounded L1 problems with and without fixed indices, equality constraints and linear terms",
 "Optimality is against all competitors; tests compare a few problems with a known answer.",
 ["min_l1_with_fixed"], [("ADMM / conic solve", "min_l1_with_fixed.py")], ["solution vector"])

prop("P24", "Mesh files round-trip",
 """Writing any mesh with `write_mesh` as OBJ and reading it back with `read_mesh` (Python reader/writer) returns the same vertices (at least one vertex and face, double-precision coordinates) to full double precision, the same faces, texture coordinates and normals with their face indices, in order; reading is independent of earlier file contents and of comments, blank lines and unrelated directives, and the `fmt` argument is equivalent to the extension.
 `read_dmat` returns the stored matrix in its column-major layout.""",
 ["inputs", "histories"], "all meshes with any vertex count, value range (subnormal to huge, negative zero), optional UV/normal attributes, all positive face index syntaxes of OBJ (v, v/t, v//n, v/t/n), ascii and binary dmat files, and any write/overwrite/read sequence in a directory",
 "The tests round-trip three stored meshes; index syntaxes, precision and overwriting histories form an unbounded set.",
 ["write_mesh", "read_mesh", "read_dmat"], [("line formatter", "write_mesh.py"), ("line parser", "read_mesh.py"), ("parser", "read_dmat.py")], ["file contents, returned arrays"])

prop("P25", "Particle swarm reports the best admissible point it evaluated",
 """In every run of `particle_swarm`, every evaluated point lies within the bounds, the returned point was evaluated, the returned value is its function value and the minimum over all evaluations of the run; each move is the momentum times the last step plus random fractions of phi towards the particle's own best and its topology's best, clamped to the bounds, the per-iteration best never increases, the number of evaluations is bounded by the requested iterations, and equal generators (of the Python engine) give equal runs. All but the last also for the compiled engine.""",
 ["histories", "inputs"], "all objective functions (NaN-free, infinities allowed), bounds, swarm sizes from one, iteration limits, topologies and random streams",
 "The trace property quantifies over random streams and objective landscapes; tests only look at convergence of a few seeded runs.",
 ["particle_swarm"], [("personal/global best updates and clamping", "particle_swarm.py")], ["objective calls, returned x and f"],
 [("personal and global bests", "best positions and values so far", G + "particle_swarm.py")])

prop("P26", "Metropolis-Hastings chains obey the acceptance rule",
 """Given its random draws, `metropolis_hastings` accepts a proposal exactly when the uniform draw does not exceed the density ratio, moves only to accepted proposals, repeats the current sample when it rejects one (so that the target is stationary), never records a point of zero density after starting at positive density (draws equal to the ratio may go either way), and the values recorded beside each sample are the density at that sample.""",
 ["histories", "inputs"], "all unnormalised densities, proposal functions, initial points and random streams",
 "Tests check histograms of long chains statistically, which tolerates individual wrong transitions.",
 ["metropolis_hastings"], [("accept/reject loop", "metropolis_hastings.py")], ["density calls, recorded samples and values"],
 [("current sample", "chain state", G + "metropolis_hastings.py")])

prop("P27", "Calls never modify their arguments and repeated calls agree",
 """No public function that runs without the C++ extension changes an array, sparse matrix or list the caller passed; overwriting a returned array changes neither an argument nor any later result, and overwriting an argument changes no result
 returned before; and calling the same function twice with equal arguments (and equally seeded generators) gives equal results, up to rounding, regardless of which other calls and writes happened between and equal to what a fresh process returns.""",
 ["histories", "inputs"], "all sequences of public calls sharing argument objects, and caller writes to arguments and results in between (objects that hold a precomputation are not looked into)",
 "Tests pass fresh arrays per call and compare only the result, never arguments afterwards or call sequences.",
 ["__init__"], [("local copies before writing", "__init__.py")], ["argument bytes before and after each call, repeated results"],
 [("caller's arrays", "objects shared between calls", G + "__init__.py")])

prop("P28", "Surface sampling stays on the mesh and follows the weights",
 """`random_points_on_mesh` returns the requested number of points, each equal to the barycentric combination (non-negative, summing to one) it reports of the element it reports; elements of zero area or zero weight are never chosen, each element is chosen with probability proportional to its size times its weight, evenly inside the element, as the consumed random draws decide, and equal generators give equal samples.""",
 ["inputs", "histories"], "all segment and triangle meshes, sample counts from one, weights with positive total, and random streams",
 "Tests check a histogram of one mesh; boundary draws (0, values next to cumulative sums) and zero-area elements are not sampled.",
 ["random_points_on_mesh"], [("inverse-CDF lookup and barycentric draw", "random_points_on_mesh.py")], ["points, indices, barycentric coordinates"])

prop("P29", "Deformations and rigid maps satisfy their defining identities",
 """`linear_blend_skinning` moves each vertex by the weighted sum of its handles' affine maps; `catmull_rom_spline` is the interpolating Catmull-Rom spline of its keyframes on [0,1], passing through them at their parameters and staying C1; `rotation_matrix_from_vectors` returns a proper rotation taking the direction of the first vector to that of the second, antiparallel pairs included;
 `normalize_points` maps the bounding box uniformly into the unit box centred as requested without changing its argument (points that do not all coincide).""",
 ["inputs"], "all weights, rotations, translations, control points, parameters, vector pairs and point sets in the supported dimensions",
 "Degenerate directions, clamped parameters and unequal weights are measure-zero for random tests.",
 ["linear_blend_skinning", "catmull_rom_spline", "rotation_matrix_from_vectors", "normalize_points"],
 [("matrix formula", "rotation_matrix_from_vectors.py"), ("segment lookup", "catmull_rom_spline.py")], ["returned arrays"])

prop("P30", "Kernels, covariance assembly and Gaussian process state are consistent",
 """The kernels are symmetric, zero outside their support and their derivative options are the derivatives of the value (second derivatives of splines away from their jumps); `matrix_from_function` equals pairwise evaluation in dense and sparse form; and `gaussian_process` / its precomputed object interpolate noise-free data up to the solver's tolerance (regular covariances), give the same mean and covariance over any sequence of predictions, and do not depend on when they were built.""",
 ["histories", "inputs"], "all point sets, kernel parameters, sparsity masks, noise levels and prediction sequences on a shared object",
 "Sparse index filters and object reuse form histories; tests compare against one stored run.",
 ["squared_exponential_kernel", "compactly_supported_normal", "compactly_supported_normal_kernel", "matrix_from_function", "gaussian_process"],
 [("precompute class", "gaussian_process.py"), ("sparse filter", "matrix_from_function.py")], ["returned values"],
 [("precomputed factor", "training covariance factor", G + "gaussian_process.py")])

prop("P31", "Colour lookup follows the documented table and interpolation",
 """`colormap` returns the requested table or resampling with entries between 0 and 255, endpoints included (interpolation: the cubic spline through the largest table, cut off at 0 and 255), and `apply_colormap` maps every value between the given limits, clamped to them, to the table colour nearest to it, or the linear interpolant, rounded; on a log scale the nodes are spaced geometrically and values between two nodes get a colour between theirs. (Nearly) constant ranges give some colour of the table.""",
 ["inputs"], "all named maps, sample counts, values and limits", "Tests only run the functions or check one stored output.",
 ["colormap", "apply_colormap"], [("table lookup", "colormap.py")], ["returned colours"])

prop("P32", "Elasticity stiffness is symmetric, non-negative and blind to rigid motion",
 """`linear_elasticity_stiffness` returns a symmetric positive semi-definite stiffness with translations and infinitesimal rotations in its kernel and a mass matrix of the right total, all equal to the exact element integrals, and a `linear_elasticity` time step solves the corresponding implicit system (forces acting as accelerations, x components stacked before y components) with the prescribed displacements held, and returns the plane von Mises stress of its result.""",
 ["inputs", "histories"], "all non-degenerate 2D triangle meshes in which every vertex is referenced, material parameters, forces, fixed sets and sequences of time steps",
 "Assembly errors that keep one test deformation intact still break symmetry or the kernel on other meshes.",
 ["linear_elasticity_stiffness", "linear_elasticity"], [("assembly", "linear_elasticity_stiffness.py"), ("time step", "linear_elasticity.py")], ["K, C, M, displacements"],
 [("displacement and velocity", "u, v between steps", G + "linear_elasticity.py")])

prop("P34", "Grid Laplacian eigenfunctions are the lowest modes of the box",
 """`grid_laplacian_eigenfunctions(m, gs, l)` returns one column per requested mode and one row per grid node (first axis fastest): column k is the product over axes of
 cos(N_d pi x_d / l_d) at the nodes of the gs-grid on the box [0,l] for a multi-index N of non-negative integers; the columns belong to different N, ordered by the Neumann eigenvalue
 sum_d (N_d/l_d)^2, and no mode left out has a smaller eigenvalue than one returned (ties in any order).""",
 ["inputs"], "all numbers of modes, 2D and 3D grids of any size (including single-node axes), any positive side lengths",
 "The one test checks ten 2D modes for orthogonality, which any ten modes have; nothing tests 3D, the ordering, or that no lower mode is missing.",
 ["grid_laplacian_eigenfunctions"], [("candidate modes and sorting", "grid_laplacian_eigenfunctions.py")], ["the returned matrix"])

prop("P35", "Stochastic Poisson reconstruction solves its stated equations",
 """For points P with normals N in a grid (gs nodes per axis, spacing h, first node corner; 2D and 3D): the mean u of `stochastic_poisson_surface_reconstruction` satisfies (G'G + 1e-6) (u + const) = G' m up to the iterative solver's
 tolerance and averages to zero over the points, where G is `fd_grad` and m, on the staggered grid of each axis d, is prior_d(X) + sum_i k(X, P_i) (N_id - prior_d(P_i)) / (density_i + sigma_n^2) with k the product cubic-spline kernel
 (`compactly_supported_normal`, n=3, width 1.5 min h) and density the points' hat weights on the half-cell larger grid, blurred by a three-cell Gaussian, per cell volume. The variance is the diagonal of
 E G' (sigma^2 blockdiag(k(X,X) - k(X,P) D k(P,X))) G E with E the inverse of G'G + 1e-6 (restricted to the lowest modes if asked), shifted so its minimum is sigma_n^2 + 1e-6. The grid returned is the one given, or one of gs nodes starting at the lower end of a box 1.5 times that of the points around
 the same centre, or one of the given corner and spacing reaching the upper end of that box.""",
 ["inputs"], "all point sets of two or more points in the grid (also in its outermost half cells, and repeated), normals, grids of six or more nodes per axis however narrow or fine, integer or float corners, noise levels, variances, affine priors, with and without variance and subspace",
 "The tests look at one 2D and one 3D reconstruction and assert signs and locations of extrema; a wrong weight, a kernel value counted twice or a rounding-dominated variance still passes.",
 ["stochastic_poisson_surface_reconstruction", "fd_grad", "fd_interpolate", "compactly_supported_normal", "grid_neighbors", "matrix_from_function", "grid_laplacian_eigenfunctions"],
 [("sparsity pattern of the kernel matrices", "stochastic_poisson_surface_reconstruction.py"), ("staggered grids and screened solve", "stochastic_poisson_surface_reconstruction.py")], ["return values"])

prop("P36", "Answers do not depend on how arguments are stored",
 """Every public function that runs without the C++ extension gives the same answer (up to rounding, integer width of returned indices aside), and leaves its arguments as they were, whichever way the caller keeps equal array or sparse-matrix contents:
 row-major or column-major memory, every second entry of a larger array, reversed memory, inside another buffer, read-only, indices as 16-, 32- or 64-bit integers (as long as they hold the contents); sparse matrices as csr or csc, stored entries in any order within a row, with stored zeros, and numerical entries split into summands.""",
 ["inputs"], "all public calls with valid arguments, each argument or all of them kept in any such storage",
 "The tests pass freshly built C-ordered int64/float64 arrays and canonical sparse matrices.",
 ["__init__"], [("np.concatenate/reshape of arguments", "__init__.py"), ("vertex-pair keys", "halfedge_edge_map.py")], ["return values", "argument contents"])

prop("P37", "Queries answered together equal queries answered alone",
 """A function that takes many independent queries (points, rays, parameters or values as rows; elements of a mesh for per-element quantities; right-hand sides as columns) returns one answer per query, in order, and the answer to each (up to rounding) is the one it gets when asked alone,
 whatever other queries are in the batch, however many (one or more), repeated or not, and wherever it stands. Covered: squared_distance, unsigned_/signed_distance (2D), signed_distance_polygon, winding_number (2D), ray_mesh_intersect (native), barycentric_coordinates, catmull_rom_spline, linear_blend_skinning,
 apply_colormap with given limits, fd_interpolate, the kernels, matrix_from_function, gaussian_process means and variances, array_correspondence, doublearea, halfedge_lengths(_squared), tip_angles, cotangent_weights, barycenters, per_face_normals, volume, halfedges, halffaces, min_quad_with_fixed, fixed_dof_solve.
 Matrices assembled element by element (cotangent_laplacian, massmatrix and their intrinsic forms) are the sums of those of their elements.""",
 ["inputs", "histories"], "all batches of one or more queries of these functions, in any order and with repetitions",
 "The tests ask one batch and look at each answer or at an aggregate; carried-over state, block edges, batch-wide tolerances and square inputs show only in other batches.",
 ["squared_distance", "ray_mesh_intersect", "winding_number", "fd_interpolate", "array_correspondence", "min_quad_with_fixed", "catmull_rom_spline", "apply_colormap", "barycentric_coordinates"],
 [("loops over queries", "squared_distance.py"), ("loops over rays", "ray_mesh_intersect.py"), ("vectorised rows", "winding_number.py")], ["return values"])

prop("P38", "Mesh files survive the compiled readers and writers",
 """With the compiled extension, every mesh written by `write_mesh` as OBJ, PLY (ASCII or binary) or STL (ASCII or binary) is in the file as given: vertices, triangles, normals, texture coordinates and faces (OBJ), normals, per-vertex or per-face colors (PLY), facets (STL, to single precision); and `read_mesh` returns exactly what a file holds, whoever wrote it:
OBJ records in any order between comments and other directives; PLY in ASCII, little- or big-endian, with foreign elements and properties between or before the known ones, any of the usual names, number and index types; STL soups, merged into distinct, used vertices with the same facets in the same order or left apart.
The C++ and Python OBJ engines agree. Files that cannot be written or read (missing, truncated, not triangles, no vertices) raise an exception; memory is never accessed out of bounds.""",
 ["inputs", "histories"], "all triangle meshes with any choice of optional parts, all layouts of their files, all sequences of writes and reads",
 "The tests (which need the built extension) write and read back a handful of meshes with one layout each and never look at the file.",
 ["read_mesh", "write_mesh"], [("OBJ", "../cpp/read_obj.cpp"), ("OBJ", "../cpp/write_obj.cpp"), ("PLY", "../cpp/tinyply/tinyply_wrappers.cpp"), ("STL", "../cpp/microstl/microstl_wrappers.cpp"), ("argument conversion, merging", "read_mesh.py"), ("argument conversion", "write_mesh.py")], ["bytes of the files written", "values read", "exceptions"],
 [("files", "contents of each path", G + "write_mesh.py")])

prop("P39", "Reach for the Spheres takes the documented steps and keeps the mesh valid",
 """Every iteration of `reach_for_the_spheres_iteration` moves the vertices, of a polyline or a triangle mesh, by one implicit step of the constraint energy: M (V'-V) = t A^T (c - A V') / k, where A picks the closest mesh point of each of the k samples and c its place on the sample's sphere, on the side the inside-outside test and the sign of the value ask for; samples whose value is clamped, or negative with `pseudosdf_interior`, ask for nothing while the mesh stays clear of their spheres; t is `dt` without line search, else the sufficient-decrease step along steepest descent (constant 0.01) clipped to `min_t` and `max_t`; with `fix_boundary` the boundary stays where it is; batches hold the requested number of samples and all inside ones.
Bookkeeping follows the documented state: the error reported is that of the step, the target length only halves, after more than 10 rounds without progress, and never passes `min_h`; the method stops when every sample is met within `tol` or after more than 100 rounds without progress, after at most `resample` resamplings that keep all old samples and evaluate the new ones, or at `max_iter`; it always stops.
Remeshing a polyline keeps it a polyline with the same pieces and ends, on the old curve: edges longer than 1.4 h are split once, edges shorter than 0.7 h collapsed, features and everything outside the two rings around unmet elements stay; of a surface only that active part is remeshed, and it is joined to the rest along its rim only.
`reach_for_the_spheres` equals its iterations, is reproducible, returns the sample positions it used, and modifies no argument; a mesh the flow cannot continue from is returned as it last was.""",
 ["inputs", "histories"], "all meshes, samples, values and options; all sequences of iterations",
 "The tests (which need the built extension) only compare end results on a few surfaces with loose bounds; polylines are never run.",
 ["reach_for_the_spheres"], [("flow, control, remeshing of curves, resampling, merging", "reach_for_the_spheres.py"), ("constrained solve", "fixed_dof_solve.py"), ("mass of surfaces", "massmatrix_intrinsic.py")], ["state before and after each iteration", "returned mesh and samples", "exceptions"],
 [("state", "mesh, samples, counters, target length, last converged mesh", G + "reach_for_the_spheres.py")])

prop("P40", "Contours of a picture separate its light from its dark pixels",
 """`png2poly` returns, for every PNG file (gray of 1 to 16 bits; gray and alpha, colors, colors and alpha of 8 bits; palettes), polylines in a plane with x to the right and y up, pixel centers on the integers, the lower left one at the origin (row H-1 of the file is y = 0).
With brightness the luminance (0.2125 R + 0.7154 G + 0.0721 B) seen on white, every vertex lies between two neighbouring pixels where the interpolated brightness crosses half of the maximum over the picture, every such crossing is a vertex of exactly one polyline, exactly once, consecutive vertices lie on one cell of four pixels without crossing other contours, and a polyline is closed or ends on the rim of the picture. The file is left as it was; missing files raise.""",
 ["inputs"], "all pictures of at least 2 x 2 pixels", "The tests count the contours of three pictures.",
 ["png2poly"], [("rotation, brightness, normalisation, level", "png2poly.py")], ["returned polylines", "exceptions"],
 [("file", "pixels", G + "png2poly.py")])

prop("P41", "A nested copy fits, can be freed, and is as large as its pose allows",
 """`matryoshka` returns a scale s in [0, 1], a rotation R, a center c, the mean B_center of B's vertices, a unit cut normal and unit removal directions with a_plus on its positive and a_minus on its negative side, such that (for s > 0) every vertex of c + s R (B - B_center) lies inside A, and the lines from it against a_plus and a_minus leave A below and above the cut plane.
For convex A no scale more than `scale_tol` larger (up to 1) does so in the returned pose. Fixed quantities are returned as given (directions normalised), by default the horizontal plane through the mean of A's vertices and its normals; 'scale_only' keeps the given or default pose, and returns 0 only when the copy scaled by 1/1000 does not fit.
The same seed gives the same result, more swarm iterations never a smaller one, and `warm_start` never loses more than `scale_tol` of the scale it starts from. No argument is modified.""",
 ["inputs", "schedules"], "all outer meshes (maximality: convex), all inner meshes, poses, cuts, directions, tolerances, seeds and budgets", "The tests need the compiled extension and look at the sphere and the cube.",
 ["matryoshka"], [("feasibility, scale search, encoding of poses, seeds", "matryoshka.py")], ["returned dictionary"])

prop("P42", "An upper envelope follows the largest of the functions",
 """`upper_envelope(V, T, D)` subdivides every positively oriented tet of the mesh so that its pieces have positive volume, lie in it, are disjoint and fill it, the input vertices staying where they were; new vertices lie on edges of the tets. Each piece carries exactly one material,
 and the piecewise linear function of that material is, up to a fixed small tolerance, nowhere below another one in the piece. With two materials the pieces of neighbouring tets meet face to face. No argument is modified, and every mesh, large or small, gives such a result.""",
 ["inputs"], "all tet meshes with positive volumes, any number of materials, any values including ties, exact zeros and materials that never win", "The test needs the compiled extension and looks at one grid; which tets are cut, and how often the arrays must grow, depends on the values.",
 ["upper_envelope"], [("cutting, labels, growth of arrays", "../cpp/upper_envelope.cpp"), ("conversion", "upper_envelope.py")], ["U, G, LT"])

prop("P43", "Inputs reach the compiled algorithms, and results the caller, as documented",
 """What the Python side adds to the compiled algorithms is right whatever these return. `remesh_botsch` hands over the same mesh renumbered so that the distinct feature vertices come first in the given order and the boundary follows, with the given and detected feature edges (dihedral angle above the threshold) in that numbering,
 and the average edge length as default; a non-manifold mesh raises ValueError. `lazy_cage` bisects the offset between 0 and half the largest extent for `max_iter` steps on whether the decimated offset meets the mesh, and returns the tightest cage found, None without any if `force_output` is false. `decimate` asks for `num_faces`, else `face_ratio` of the faces, by the named method and returns its four results in the documented order;
 `mesh_boolean` performs the named operation; `do_meshes_intersect` returns whether there are pairs, and them. `swept_volume` sweeps through the given transformations, or those composed of translations, rotations (or the velocity's direction) and scales. `in_element_aabb`, `offset_surface`, `marching_cubes`, `point_cloud_to_mesh` and `dual_contouring_of_signed_distance_data` hand over exactly their arguments or documented defaults, refuse inconsistent ones, and return what comes back. No argument is modified.""",
 ["inputs", "histories"], "all meshes, options and answers of the compiled part", "The tests need the compiled extension and call each function with one or two sets of arguments; an intersection-free search or a repeated feature vertex is never reached.",
 ["remesh_botsch", "copyleft/lazy_cage", "decimate", "copyleft/mesh_boolean", "copyleft/do_meshes_intersect", "swept_volume", "in_element_aabb", "offset_surface", "marching_cubes", "point_cloud_to_mesh", "dual_contouring_of_signed_distance_data"],
 [("renumbering and feature edges", "remesh_botsch.py"), ("bisection", "copyleft/lazy_cage.py"), ("composition of keyframes", "swept_volume.py")], ["arguments of the compiled functions", "return values"])

prop("P44", "A cloud reached from signed distances lies on their spheres, in none",
 """The compiled steps of `reach_for_the_arcs` keep their contracts in 2D and 3D. The rasterization returns points of the unit box, one per cell of a grid, outside every (slightly shrunk) sphere of the samples; the narrow-band form returns only cells beside occupied ones and misses none of these. Making a batch feasible gives every sample at most one point, in order, on that sample's own sphere, inside no other
 sphere of the batch by more than the tolerance, with the distance's gradient as its normal; clamped samples get none, and a sample whose projection of its nearest outside point is allowed keeps that. Fine tuning keeps all this for all spheres, puts at most `max_points_per_sphere` points (and one more than before) on one, keeps the points of tangent spheres, and moves a point at most `local_search_t` of its way when nothing is in the way.
 A whole call undoes its normalisation, gives the same result for the same seed, and modifies no argument.""",
 ["inputs", "histories"], "all sample sets, distances, tolerances, clamp values, batch sizes and clouds to start from", "The tests need the compiled extension and check that the final surface is roughly near a known one; a point inside a neighbour's sphere, or lost, hardly moves it.",
 ["reach_for_the_arcs"], [("rasterization", "../cpp/reach_for_the_arcs/outside_points_from_rasterization.cpp"), ("feasibility of a batch", "../cpp/reach_for_the_arcs/locally_make_feasible.cpp"), ("collisions on a sphere", "../cpp/reach_for_the_arcs/resolve_collisions_on_sphere.cpp"), ("sphere tree", "../cpp/reach_for_the_arcs/sAABB.cpp"), ("fine tuning", "../cpp/reach_for_the_arcs/fine_tune_point_cloud_iter.cpp"), ("phases, normalisation", "reach_for_the_arcs.py")], ["points, normals and sphere indices returned by each step", "V, F, P, N"])

prop("P33", "The compiled libigl and CGAL algorithms keep their contracts",
 """Given the arguments P43 speaks of, the compiled decimation, remeshing, booleans, marching cubes, offset surfaces, reconstruction, swept volumes and mesh intersection tests return valid meshes or values with the documented relation to their input.""",
 ["inputs"], "all input meshes", "These run only through the compiled extension.",
 ["decimate", "remesh_botsch", "marching_cubes", "offset_surface", "swept_volume"],
 [("bindings", "decimate.py")], ["returned meshes"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
