"""P27: every public function (Python paths) driven through the call histories emitted by MC_Purity."""
import contextlib, functools, io, json, os, pickle, tempfile
import numpy as np
import scipy.sparse as sps
import gpytoolbox as gpy
from vlib import snapshot

RNG = np.random.default_rng


def objects(x, kind=0):
    """contents number x (0 or 1) of every object a caller may pass; equal shapes for both; kind 1: small numbers, other memory order"""
    r = RNG(100 + x + 10 * kind)
    sc = 0.01 if kind else 1.
    o = {}
    V2, F = gpy.regular_square_mesh(3)
    o["F"] = (F if x == 0 else np.roll(F[::-1], 1, axis=1)).copy()
    o["V2"] = (V2 + 0.02 * r.normal(size=V2.shape)) * sc
    o["V"] = np.column_stack([V2, V2[:, 0] * V2[:, 1]]) + 0.02 * r.normal(size=(9, 3))
    o["V"] = o["V"] * sc
    o["lsq"] = gpy.halfedge_lengths_squared(o["V"], o["F"])
    Fc = np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    o["Fc"] = (Fc if x == 0 else np.roll(Fc[::-1], 1, axis=1)).copy()
    o["Vc"] = np.array([[1., 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]) + 0.03 * r.normal(size=(6, 3))
    o["Vc"] = o["Vc"] * (0.1 if kind else 1.)
    # meshes that need the special paths of remove_* : an unused vertex, two coinciding ones
    o["Fu"] = np.array([[0, 1, 2], [1, 3, 2]]) + x
    o["Vu"] = r.normal(size=(6, 3)); o["Vu"][5] = o["Vu"][3]
    Vt, T = gpy.regular_cube_mesh(2, type="five")[:2]
    o["Vt"] = Vt + 0.02 * r.normal(size=Vt.shape)
    o["T"] = (T if x == 0 else T[::-1]).copy()
    t = 2 * np.pi * np.arange(6) / 6
    o["P2"] = np.column_stack([np.cos(t), np.sin(t)]) * (1 + 0.1 * x) + 0.05 * r.normal(size=(6, 2))
    o["EC"] = np.roll(gpy.edge_indices(6, closed=True), x, axis=0).copy()
    o["OE"] = gpy.edge_indices(6, closed=False)[::-1 if x else 1].copy()
    o["Q3"] = r.normal(size=(5, 3)); o["Q2"] = r.uniform(0.05, 0.95, size=(5, 2))
    E = gpy.edges(F)
    o["Cut"] = E[[1 + x, 6 + x]].copy()
    o["E"] = (E if x == 0 else E[::-1]).copy()
    o["NoCut"] = np.zeros((0, 2), dtype=int)
    m = gpy.halfedge_edge_map(o["F"])
    o["Ehe"] = m[3]
    o["F1"] = o["F"][:1].copy()
    o["Fi"] = o["F"].astype(np.int32)
    o["ids"] = np.array([3, 1, 4, 1, 5, 9, 2, 6]) + x; o["ids2"] = np.array([1, 1, 3, 7, 5])
    o["rows"] = r.integers(0, 3, size=(6, 2)); o["rows2"] = r.integers(0, 3, size=(4, 2))
    o["vec"] = r.normal(size=9); o["W3"] = r.uniform(0.1, 1, size=(9, 2))
    o["Rs"] = np.array([np.eye(3) + 0.1 * r.normal(size=(3, 3)) for _ in range(2)]); o["Ts"] = r.normal(size=(2, 3))
    o["Keys"] = r.normal(size=(4, 3)); o["Tm"] = np.array([0., .1, .4, .7, 1.]) * (1 - 0.1 * x)
    o["u"] = r.normal(size=3); o["w"] = r.normal(size=3); o["u2"] = r.normal(size=2); o["w2"] = r.normal(size=2)
    o["p3"] = r.normal(size=(4, 3)); o["q3"] = r.normal(size=(4, 3))
    L = gpy.cotangent_laplacian(o["V"], o["F"]) + 0.5 * sps.identity(9)
    o["A"] = sps.csr_matrix(L) if x == 0 else sps.csr_matrix(L * 2)
    o["Ac"] = sps.csc_matrix(o["A"])
    o["c"] = r.normal(size=9); o["c2"] = r.normal(size=(9, 2))
    o["k"] = np.array([7, 2]) + x; o["y"] = r.normal(size=2); o["y2"] = r.normal(size=(2, 2))
    o["Aeq"] = sps.csr_matrix(np.arange(1., 10.)[None] * (1 + x)); o["beq"] = np.array([0.3 + x])
    o["Lf"] = sps.csr_matrix(np.diag(np.full(9, 1. + x)))
    # a graded quadtree, an octree, a bounding-volume tree
    pts = np.array([[0.1, 0.1], [0.12, 0.13], [0.9, 0.8], [0.4, 0.7]])
    if x: pts = pts[:, ::-1].copy()
    o["pts"] = pts
    o["qC"], o["qW"], o["qCH"], o["qPAR"], o["qD"], o["qA"] = gpy.initialize_quadtree(pts, max_depth=3, graded=True, vmin=np.array([0., 0.]), vmax=np.array([1., 1.]))
    o["qA"] = sps.csr_matrix(o["qA"]) if not sps.issparse(o["qA"]) else o["qA"]
    o["vmin"] = np.array([-0.5, -0.25]) * (1 + x); o["vmax"] = np.array([1.5, 2.]) * (1 + x)
    C, W, CH, PAR, D, tri, split = gpy.initialize_aabbtree(o["Vc"], o["Fc"])[:7]
    o["tC"], o["tW"], o["tCH"], o["tI"], o["tS"] = C, W, CH, tri, split
    o["gs"] = [4, 5] if x == 0 else [5, 4]; o["gsv"] = np.array([4, 5][:: -1 if x else 1]); o["hs"] = np.array([0.5, 0.25]) * (1 + x); o["cor"] = np.array([-0.5, -0.5]) * (1 + x)
    o["gl"] = np.array([2., 1.]) * (1 + x)
    o["S"] = r.normal(size=12)
    gx, gy_ = np.meshgrid(np.arange(4.), np.arange(3.)); o["GV"] = np.column_stack([gx.ravel(), gy_.ravel()]) * (1 + x)
    o["X"] = np.sort(r.uniform(size=(6, 1)), axis=0); o["yv"] = r.normal(size=6); o["gyv"] = r.normal(size=(6, 1)); o["Xt"] = r.uniform(size=(4, 1)); o["Xi"] = np.linspace(0, 1, 4)[:, None] * (1 - .1 * x)
    o["spat"] = (np.array([0, 1, 2, 3]), np.array([1, 2, 3, 0])) if x == 0 else (np.array([3, 1, 2, 3]), np.array([1, 2, 0, 0]))
    o["lb"] = np.array([-1., -2.]) * (1 + x); o["ub"] = np.array([1.5, 2.]) * (1 + x); o["x0"] = np.array([0.2, 0.1]) * (1 + x)
    o["f01"] = np.concatenate([r.uniform(size=5), [0.02 + 0.01 * x, 0.97]]); o["col"] = r.uniform(size=(5, 3))
    o["uv"] = r.uniform(size=(9, 2)); o["nrm"] = r.normal(size=(9, 3)); o["uvf"] = o["F"].copy(); o["bb"] = np.array([0, 3]) + x
    o["bc"] = 0.1 * r.normal(size=(2, 2)); o["U0"] = 0.01 * r.normal(size=(9, 2)); o["Ud"] = 0.01 * r.normal(size=(9, 2)); o["fx"] = r.normal(size=(9, 2))
    o["dir"] = np.array([0.3, -0.2, -1.]) * (1 + x); o["org"] = np.array([0.05, 0.02, 3.]); o["ctr"] = np.array([0.1, 0., 0.]); o["wid"] = np.array([1., 1.2, 1.4]) * (1 + x)
    o["orin"] = np.array([0.1, 0.1, 0.1]); o["org2"] = np.array([-3., 0.11 + 0.01 * x]); o["dir2"] = np.array([1., 0.05])
    o["vols"] = gpy.doublearea(o["V2"], o["F"]) / 2; o["mm"] = gpy.massmatrix(o["V2"], o["F"])
    o["dates"] = np.array([1, 2, 3])
    o["pP"] = r.uniform(-0.4, 0.4, size=(8, 2)); n = r.normal(size=(8, 2)); o["pN"] = n / np.linalg.norm(n, axis=1)[:, None]
    o["gspr"] = np.array([10, 11]) + x; o["hspr"] = np.array([0.125, 0.125]); o["cspr"] = np.array([-0.55, -0.6]) * (1 + 0.05 * x)
    o["like"] = r.uniform(0.1, 1, size=8)
    if kind:
        o["V"], o["V2"], o["Vc"] = (np.asfortranarray(o[k]) for k in ("V", "V2", "Vc"))
    return {k: np.array(v) if isinstance(v, np.ndarray) else v for k, v in o.items()}


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def gl(fn):
    """functions drawing from NumPy's global generator: seeded first"""
    def w(*a):
        np.random.seed(5)
        return fn(*a)
    return w


def files(w, rd):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "m.obj")
        w(p)
        return rd(p)


def trav(C, W, CH, tri, sp):
    seen = []
    ok = gpy.traverse_aabbtree(C, W, CH, tri, sp, lambda q, C, W, CH, tri, split, leaf: (seen.append(int(q)), True)[1])
    return [ok, np.array(seen)]


def gp(*a, **k):
    m, c = quiet(gpy.gaussian_process, *a, **k)
    return [np.asarray(m), c.toarray() if sps.issparse(c) else np.asarray(c)]


def walk(x0):
    return gpy.metropolis_hastings(lambda p: float(np.exp(-np.sum(p ** 2))), lambda p: p + 0.25, x0, num_samples=6, rng=RNG(3))


def swarm(lb, ub):
    return quiet(gpy.particle_swarm, lambda p: float(np.sum(p ** 2)), lb, ub, n_particles=4, max_iter=3, use_cpp=False)


def recipes():
    g = gpy
    R = {}
    def a(name, fn, *objs):
        assert name not in R, name
        R[name] = (fn, objs)
    for n in "halfedges edges adjacency_matrix boundary_edges boundary_vertices non_manifold_edges halfedge_edge_map connected_components triangle_triangle_adjacency dec_d0 dec_d1 boundary_loops".split():
        a(n, getattr(g, n), "F")
        a(n + "/int32", getattr(g, n), "Fi")
        a(n + "/closed", getattr(g, n), "Fc")
    a("edges/all", lambda F: g.edges(F, True, True, True), "F")
    a("halfedge_edge_map/general", lambda F: g.halfedge_edge_map(F, assume_manifold=False), "F")
    a("connected_components/faces", lambda F: g.connected_components(F, return_face_indices=True), "F")
    a("boundary_loops/strict", lambda F: g.boundary_loops(F, allow_wrong_orientations=False), "F")
    a("faces", lambda T: g.faces(T, True, True, True), "T"); a("halffaces", g.halffaces, "T"); a("boundary_faces", g.boundary_faces, "T")
    a("cut_edges", g.cut_edges, "F", "Cut"); a("cut_edges/none", g.cut_edges, "F", "NoCut")
    a("array_correspondence", g.array_correspondence, "ids", "ids2")
    for ax in (None, 0, 1):
        a("array_correspondence/%s" % ax, lambda p, q, ax=ax: g.array_correspondence(p, q, axis=ax), *(("rows", "rows2") if ax != 1 else ("rows", "rows")))
    a("remove_unreferenced", lambda V, F: g.remove_unreferenced(V, F, return_maps=True), "Vu", "Fu")
    a("remove_unreferenced/nothing", lambda V, F: g.remove_unreferenced(V, F, return_maps=True), "V", "F")
    a("remove_duplicate_vertices", lambda V, F: g.remove_duplicate_vertices(V, faces=F), "Vu", "Fu")
    a("remove_duplicate_vertices/eps", lambda V, F: g.remove_duplicate_vertices(V, epsilon=1e-3, faces=F), "V", "F")
    a("remove_duplicate_vertices/points", g.remove_duplicate_vertices, "Vu")
    for m in ("upsample", "loop"):
        for it in (0, 1, 2):
            a("subdivide/%s%d" % (m, it), lambda V, F, m=m, it=it: g.subdivide(V, F, method=m, iters=it), "V", "F")
            a("subdivide/%s%d/matrix" % (m, it), lambda V, F, m=m, it=it: g.subdivide(V, F, method=m, iters=it, return_matrix=True), "V", "F")
    a("subdivide/nov", lambda F: g.subdivide(None, F), "F"); a("subdivide/polyline", lambda V, E: g.subdivide(V, E, iters=1), "P2", "EC")
    a("subdivide/polyline0", lambda V, E: g.subdivide(V, E, iters=0), "P2", "EC")
    a("regular_square_mesh", lambda: g.regular_square_mesh(4, 3)); a("cone", lambda: g.cone(4, 3)); a("cylinder", lambda: g.cylinder(4, 3)); a("torus", lambda: g.torus(4, 5))
    for t in ("rotationally-symmetric", "reflectionally-symmetric", "five", "hex"):
        a("regular_cube_mesh/" + t, lambda t=t: g.regular_cube_mesh(3, 2, 4, type=t))
    for i in (0, 1, 2):
        a("icosphere/%d" % i, lambda i=i: g.icosphere(i))
    a("regular_circle_polyline", lambda: g.regular_circle_polyline(7)); a("edge_indices", lambda: g.edge_indices(5, closed=True))
    for n in "cotangent_laplacian cotangent_weights dec_h0 dec_h1 dec_h2 dec_h0inv dec_h1inv dec_h2inv halfedge_lengths halfedge_lengths_squared tip_angles angle_defect doublearea grad massmatrix barycenters per_face_normals biharmonic_energy".split():
        a(n, getattr(g, n), "V", "F"); a(n + "/2d", getattr(g, n), "V2", "F")
    for n in "cotangent_laplacian_intrinsic cotangent_weights_intrinsic dec_h0_intrinsic dec_h1_intrinsic dec_h2_intrinsic dec_h0inv_intrinsic dec_h1inv_intrinsic dec_h2inv_intrinsic doublearea_intrinsic tip_angles_intrinsic angle_defect_intrinsic grad_intrinsic massmatrix_intrinsic biharmonic_energy_intrinsic".split():
        a(n, getattr(g, n), "lsq", "F")
    a("dec_d0/E", lambda F, E: g.dec_d0(F, E=E, n=12), "F", "E"); a("dec_d1/map", lambda F, m: g.dec_d1(F, E_to_he=m), "F", "Ehe")
    for n in ("dec_h1", "dec_h1inv"):
        a(n + "/map", lambda V, F, m, n=n: getattr(g, n)(V, F, E_to_he=m), "V", "F", "Ehe"); a(n + "_intrinsic/map", lambda l, F, m, n=n: getattr(g, n + "_intrinsic")(l, F, E_to_he=m), "lsq", "F", "Ehe")
    for n in "cotangent_laplacian_intrinsic dec_h0_intrinsic dec_h0inv_intrinsic angle_defect_intrinsic grad_intrinsic massmatrix_intrinsic biharmonic_energy_intrinsic".split():
        a(n + "/n", lambda l, F, n=n: getattr(g, n)(l, F, n=12), "lsq", "F")
    a("tip_angles/exact", lambda V, F: g.tip_angles(V, F, use_small_angle_approx=False), "V", "F"); a("angle_defect/closed", g.angle_defect, "Vc", "Fc")
    a("doublearea/list", g.doublearea, "V", "F1")
    for t in ("voronoi", "barycentric", "full"):
        a("massmatrix/" + t, lambda V, F, t=t: g.massmatrix(V, F, type=t), "V", "F")
        a("massmatrix_intrinsic/" + t, lambda l, F, t=t: g.massmatrix_intrinsic(l, F, type=t), "lsq", "F")
    for t in ("mixedfem_zero_neumann", "hessian"):
        a("biharmonic_energy/" + t, lambda V, F, t=t: g.biharmonic_energy(V, F, bc=t), "V2" if t == "hessian" else "V", "F")
    a("massmatrix/polyline", g.massmatrix, "P2", "EC"); a("grad/polyline", g.grad, "P2", "EC"); a("massmatrix/chain", g.massmatrix, "P2"); a("grad/chain", g.grad, "P2")
    a("doublearea/signed", lambda V, F: g.doublearea(V, F, signed=True), "V2", "F"); a("doublearea/chain", g.doublearea, "P2")
    a("volume", g.volume, "Vt", "T")
    a("per_vertex_normals", g.per_vertex_normals, "V", "F"); a("per_face_normals/raw", lambda V, F: g.per_face_normals(V, F, unit_norm=False), "V", "F")
    a("per_face_normals/polyline", g.per_face_normals, "P2", "EC"); a("barycenters/tets", g.barycenters, "Vt", "T")
    a("dihedral_angles", g.dihedral_angles, "Vc", "Fc")
    for gr in (False, True):
        a("initialize_quadtree/%s" % gr, lambda p, lo, hi, gr=gr: g.initialize_quadtree(p, max_depth=4, graded=gr, vmin=lo, vmax=hi), "pts", "vmin", "vmax")
        a("initialize_quadtree/free%s" % gr, lambda p, gr=gr: g.initialize_quadtree(p, max_depth=4, graded=gr), "pts")
        a("subdivide_quad/%s" % gr, lambda C, W, CH, P, D, A, gr=gr: g.subdivide_quad(int(g.quadtree_children(CH)[-1]), C, W, CH, P, D, A, gr), "qC", "qW", "qCH", "qPAR", "qD", "qA")
    a("quadtree_children", g.quadtree_children, "qCH"); a("quadtree_boundary", g.quadtree_boundary, "qCH", "qA"); a("bad_quad_mesh_from_quadtree", g.bad_quad_mesh_from_quadtree, "qC", "qW", "qCH")
    a("quadtree_gradient", g.quadtree_gradient, "qC", "qW", "qCH", "qD", "qA"); a("quadtree_laplacian", g.quadtree_laplacian, "qC", "qW", "qCH", "qD", "qA")
    a("in_quadtree", lambda q, C, W, CH: g.in_quadtree(q[0], C, W, CH), "Q2", "qC", "qW", "qCH")
    a("initialize_aabbtree", g.initialize_aabbtree, "Vc", "Fc"); a("initialize_aabbtree/points", g.initialize_aabbtree, "Vc")
    a("initialize_aabbtree/minmax", lambda V, F, lo, hi: g.initialize_aabbtree(V, F, vmin=lo, vmax=hi), "V2", "F", "vmin", "vmax")
    a("traverse_aabbtree", trav, "tC", "tW", "tCH", "tI", "tS")
    for aabb in (False, True):
        a("squared_distance/%s" % aabb, lambda q, V, F, t=aabb: g.squared_distance(q, V, F=F, use_aabb=t), "Q3", "Vc", "Fc")
        a("squared_distance/poly%s" % aabb, lambda q, V, F, t=aabb: g.squared_distance(q, V, F=F, use_aabb=t), "Q2", "P2", "EC")
        a("squared_distance/points%s" % aabb, lambda q, V, t=aabb: g.squared_distance(q, V, use_aabb=t), "Q3", "Vc")
    a("squared_distance/tree", lambda q, V, F, C, W, CH, I, S: g.squared_distance(q, V, F=F, use_aabb=True, C=C, W=W, CH=CH, tri_ind=I, split_dir=S), "Q3", "Vc", "Fc", "tC", "tW", "tCH", "tI", "tS")
    a("squared_distance/single", lambda q, V, F: g.squared_distance(q, V, F=F), "u", "Vc", "Fc")
    a("squared_distance_to_element/tri", lambda q, V, F: g.squared_distance_to_element(q, V, F[0]), "u", "Vc", "Fc")
    a("squared_distance_to_element/seg", lambda q, V, F: g.squared_distance_to_element(q, V, F[0]), "u2", "P2", "EC")
    a("squared_distance_to_element/point", lambda q, V: g.squared_distance_to_element(q, V, np.array([1])), "u", "Vc")
    a("unsigned_distance/2d", lambda q, V, F: g.unsigned_distance(q, V, F=F, use_cpp=False), "Q2", "P2", "EC")
    a("signed_distance/2d", lambda q, V, F: g.signed_distance(q, V, F=F, use_cpp=False), "Q2", "P2", "EC")
    a("signed_distance/chain", lambda q, V: g.signed_distance(q, V, use_cpp=False), "Q2", "P2")
    a("signed_distance_polygon", g.signed_distance_polygon, "Q2", "P2"); a("winding_number", g.winding_number, "Q2", "P2", "EC")
    a("barycentric_coordinates", lambda p, q: g.barycentric_coordinates(p, q, p[::-1].copy(), p + 2 * q), "p3", "q3")
    a("edge_edge_distance", lambda p, q: g.edge_edge_distance(p[0], p[1], q[0], q[1]), "p3", "q3")
    a("triangle_triangle_distance", lambda p, q: g.triangle_triangle_distance(p[0], p[1], p[2], q[0], q[1], q[2]), "p3", "q3")
    a("minimum_distance", g.minimum_distance, "Vc", "Fc", "V", "F"); a("approximate_hausdorff_distance", lambda *x: g.approximate_hausdorff_distance(*x, use_cpp=False), "Vc", "Fc", "V", "F")
    a("ray_box_intersect", g.ray_box_intersect, "org", "dir", "ctr", "wid"); a("ray_box_intersect/inside", g.ray_box_intersect, "orin", "dir", "ctr", "wid")
    a("ray_triangle_intersect", lambda o, d, V: g.ray_triangle_intersect(o, d, V[0], V[2], V[4]), "org", "dir", "Vc")
    a("ray_mesh_intersect", lambda o, d, V, F: g.ray_mesh_intersect(np.vstack([o, o]), np.vstack([d, -d]), V, F, use_embree=False), "org", "dir", "Vc", "Fc")
    a("ray_mesh_intersect/arrays", lambda o, d, V, F: g.ray_mesh_intersect(o, d, V, F, use_embree=False), "p3", "q3", "Vc", "Fc")
    a("ray_polyline_intersect", g.ray_polyline_intersect, "org2", "dir2", "P2"); a("ray_polyline_intersect/EC", lambda o, d, V, E: g.ray_polyline_intersect(o, d, V, EC=E), "org2", "dir2", "P2", "EC")
    a("marching_squares", lambda S, GV: g.marching_squares(S, GV, 4, 3), "S", "GV")
    a("fd_grad/array", g.fd_grad, "gsv", "hs")
    for d in (0, 1):
        a("fd_partial_derivative/%d" % d, lambda gs, h, d=d: g.fd_partial_derivative(gs, h, d), "gsv", "hs")
    a("fd_interpolate", g.fd_interpolate, "Q2", "gsv", "hs", "cor"); a("fd_interpolate/origin", g.fd_interpolate, "Q2", "gs", "hs")
    for k in range(4):
        a("grid_neighbors/%d" % k, lambda gs, k=k: g.grid_neighbors(gs, order=1 + k // 2, include_diagonals=bool(k % 2), include_self=k > 1), "gsv")
    a("grid_laplacian_eigenfunctions", lambda gs, l: g.grid_laplacian_eigenfunctions(4, gs, l), "gsv", "gl")
    a("min_quad_with_fixed", lambda Q, c, k, y: g.min_quad_with_fixed(Q, c=c, k=k, y=y), "A", "c", "k", "y")
    a("min_quad_with_fixed/csc", lambda Q, c, k, y, A, b: g.min_quad_with_fixed(Q, c=c, k=k, y=y, A=A, b=b), "Ac", "c", "k", "y", "Aeq", "beq")
    a("min_quad_with_fixed/many", lambda Q, c, k, y: g.min_quad_with_fixed(Q, c=c, k=k, y=y), "A", "c2", "k", "y2"); a("min_quad_with_fixed/free", lambda Q, c: g.min_quad_with_fixed(Q, c=c), "A", "c")
    a("fixed_dof_solve", lambda Q, c, k, y: g.fixed_dof_solve(Q, b=c, k=k, y=y), "A", "c", "k", "y"); a("fixed_dof_solve/many", lambda Q, c, k, y: g.fixed_dof_solve(Q, b=c, k=k, y=y), "Ac", "c2", "k", "y2")
    a("min_quad_with_fixed_precompute", lambda Q, c, k, y: (lambda p: [p.solve(c=c, y=y), p.solve(c=2 * c, y=y)])(g.min_quad_with_fixed_precompute(Q, k=k)), "A", "c", "k", "y")
    a("fixed_dof_solve_precompute", lambda Q, c, k, y: (lambda p: [p.solve(b=c, y=y), p.solve(b=2 * c, y=y)])(g.fixed_dof_solve_precompute(Q, k=k)), "A", "c", "k", "y")
    a("write_mesh", lambda V, F: files(lambda p: g.write_mesh(p, V, F), lambda p: open(p).read()), "V", "F")
    a("write_mesh/uv", lambda V, F, u, uf, n: files(lambda p: g.write_mesh(p, V, F, UV=u, Ft=uf, N=n, Fn=uf), lambda p: open(p).read()), "V", "F", "uv", "uvf", "nrm")
    a("read_mesh", lambda V, F: files(lambda p: g.write_mesh(p, V, F), g.read_mesh), "V", "F")
    a("particle_swarm", gl(swarm), "lb", "ub"); a("metropolis_hastings", walk, "x0")
    a("random_points_on_mesh", lambda V, F: g.random_points_on_mesh(V, F, 6, rng=RNG(4), return_indices=True), "V", "F")
    a("random_points_on_mesh/weights", lambda V, F, w: g.random_points_on_mesh(V, F, 6, rng=RNG(4), per_element_likelihood=w, return_indices=True), "V", "F", "like")
    a("random_points_on_mesh/polyline", lambda V, F: g.random_points_on_mesh(V, F, 6, rng=RNG(4), return_indices=True), "P2", "EC")
    a("linear_blend_skinning", g.linear_blend_skinning, "V", "W3", "Rs", "Ts"); a("catmull_rom_spline", g.catmull_rom_spline, "Tm", "Keys")
    a("rotation_matrix_from_vectors", g.rotation_matrix_from_vectors, "u", "w"); a("rotation_matrix_from_vectors/2d", g.rotation_matrix_from_vectors, "u2", "w2"); a("rotation_matrix_from_vectors/opposite", lambda u: g.rotation_matrix_from_vectors(u, -u), "u")
    a("normalize_points", g.normalize_points, "V"); a("normalize_points/center", lambda v, c: g.normalize_points(v, center=c), "V", "u"); a("normalize_points/int", g.normalize_points, "rows")
    for d in ((-1, -1), (0, -1), (-1, 0), (0, 0)):
        a("squared_exponential_kernel/%s%s" % d, lambda p, q, d=d: g.squared_exponential_kernel(p, q, derivatives=d), "p3", "q3")
        a("compactly_supported_normal_kernel/%s%s" % d, lambda p, q, d=d: g.compactly_supported_normal_kernel(p, q, length=2., derivatives=d), "p3", "q3")
    for n in (1, 2, 3, 4):
        a("compactly_supported_normal/%d" % n, lambda p, u, n=n: g.compactly_supported_normal(p, n=n, sigma=1.5, center=u), "p3", "u")
    a("compactly_supported_normal/plain", lambda p: g.compactly_supported_normal(p, sigma=1.5), "p3")
    for s in (False, True):
        a("matrix_from_function/%s" % s, lambda p, q, s=s: g.matrix_from_function(lambda x, y: np.sum(x * y, axis=1), p, q, sparse=s), "p3", "q3")
    a("matrix_from_function/pattern", lambda p, q, sp: g.matrix_from_function(lambda x, y: np.sum(x * y, axis=1), p, q, sparsity_pattern=sp), "p3", "q3", "spat")
    a("gaussian_process", gp, "X", "yv", "Xt"); a("gaussian_process/grad", lambda X, y, t, gr: gp(X, y, t, grad_y_train=gr), "X", "yv", "Xt", "gyv"); a("gaussian_process/induced", lambda X, y, t, i: gp(X, y, t, X_induced=i), "X", "yv", "Xt", "Xi")
    a("gaussian_process/lumped", lambda X, y, t, i: gp(X, y, t, X_induced=i, lump_K3=True), "X", "yv", "Xt", "Xi")
    for n in ("Reds", "BuGn", "Set1"):
        for i in (False, True):
            a("colormap/%s/%s" % (n, i), lambda n=n, i=i: quiet(g.colormap, n, 5, interpolate=i))
    a("apply_colormap", g.apply_colormap, "col", "f01"); a("apply_colormap/linear", lambda c, f: g.apply_colormap(c, f, piecewise_linear=True, min=0.1, max=0.7), "col", "f01"); a("apply_colormap/log", lambda c, f: g.apply_colormap(c, f, log=True), "col", "f01"); a("apply_colormap/limits", lambda c, f: g.apply_colormap(c, f, min=0.2, max=0.6), "col", "f01"); a("apply_colormap/loglimits", lambda c, f: g.apply_colormap(c, f, log=True, min=0.2, max=0.6), "col", "f01")
    a("linear_elasticity_stiffness", g.linear_elasticity_stiffness, "V2", "F"); a("linear_elasticity_stiffness/given", lambda V, F, w, m: g.linear_elasticity_stiffness(V, F, volumes=w, mass=m), "V2", "F", "vols", "mm")
    a("linear_elasticity", lambda V, F, U, b, bc, ud, f: g.linear_elasticity(V, F, U, bb=b, bc=bc, Ud0=ud, fext=f), "V2", "F", "U0", "bb", "bc", "Ud", "fx"); a("linear_elasticity/free", g.linear_elasticity, "V2", "F", "U0")
    a("min_l1_with_fixed", lambda L, c, k, y: quiet(g.min_l1_with_fixed, L=L, c=c, k=k, y=y), "Lf", "c", "k", "y")
    a("stochastic_poisson_surface_reconstruction", lambda P, N, gs: quiet(g.stochastic_poisson_surface_reconstruction, P, N, gs=gs), "pP", "pN", "gspr")
    a("stochastic_poisson_surface_reconstruction/variance", lambda P, N, gs, h, c: quiet(g.stochastic_poisson_surface_reconstruction, P, N, gs=gs, h=h, corner=c, output_variance=True), "pP", "pN", "gspr", "hspr", "cspr")
    return R


# ---------------------------------------------------------------- contents
def canon(x):
    """content of a result"""
    if sps.issparse(x):
        c = sps.coo_matrix(x); c.sum_duplicates()
        return ("sp", x.shape, ("nd", c.row.shape, "i", c.row), ("nd", c.col.shape, "i", c.col), ("nd", c.data.shape, "f", np.asarray(c.data, dtype=float)))
    if isinstance(x, np.ndarray):
        return ("nd", x.shape, x.dtype.kind, x.copy()) if x.dtype.kind in "iubfc" else ("obj", [canon(y) for y in x.ravel()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(y) for y in x])
    if isinstance(x, (bool, int, float, np.generic)):
        return canon(np.array(x)) 
    if x is None or isinstance(x, str):
        return ("s", x)
    return ("opaque", type(x).__name__)


def equal(a, b):
    """equal contents; floating-point numbers up to what the order of summation may change"""
    if type(a) is not type(b): return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    if isinstance(a, np.ndarray):
        if a.shape != b.shape: return False
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            s = np.max(np.abs(a[np.isfinite(a)]), initial=0.)
            return bool(np.allclose(a, b, rtol=1e-6, atol=1e-7 * s, equal_nan=True))
        return bool(np.array_equal(a, b))
    return a == b


def leaves(x):
    if sps.issparse(x):
        return [getattr(x, "data")] if isinstance(getattr(x, "data", None), np.ndarray) else []
    if isinstance(x, np.ndarray): return [x]
    if isinstance(x, (list, tuple)): return [l for y in x for l in leaves(y)]
    return []


def scribble(x):
    for l in leaves(x):
        if l.flags.writeable and l.size and l.dtype.kind in "iubf":
            l[...] = ~l if l.dtype.kind == "b" else l * 3 + 1
    if isinstance(x, list):
        x.append("scribble")


def overwrite(o, new):
    if sps.issparse(o):
        for k in ("data", "indices", "indptr"):
            getattr(o, k)[...] = getattr(new, k)
    elif isinstance(o, np.ndarray):
        o[...] = new
    elif isinstance(o, list):
        o[:] = new
    elif isinstance(o, tuple):
        for p, q in zip(o, new): overwrite(p, q)


def clone(o):
    if sps.issparse(o): return o.copy()
    if isinstance(o, np.ndarray): return np.array(o)
    if isinstance(o, (list, tuple)): return type(o)(clone(x) for x in o)
    return o


class Fresh:
    """answers of a process in which nothing else was called"""
    def __init__(self, R, O):
        self.ans = {}
        for n, x in [(n, x) for n in R for x in (0, 1)]:
            fn, objs = R[n]
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    a = [clone(O[x][k]) for k in objs]
                    try:
                        with contextlib.redirect_stdout(io.StringIO()):
                            v = canon(fn(*a))
                    except Exception as e:
                        v = ("raised", type(e).__name__)
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(v, f)
                finally:
                    os._exit(0)
            os.close(w)
            with os.fdopen(r, "rb") as f:
                b = f.read()
            os.waitpid(pid, 0)
            self.ans[n, x] = pickle.loads(b) if b else ("died", "")


class History:
    def __init__(self, rec, O, R, names, id):
        self.rec, self.O, self.R = rec, O, R
        self.need = sorted({k for n in names for k in R[n][1]})
        self.obj = {w: {k: clone(O[x][k]) for k in self.need} for w, x in (("a", 0), ("b", 1))}
        self.side = {"a": 0, "b": 1}
        self.res, self.tok, self.reps = [], {}, {}
        rec.begin(id)

    def token(self, x):
        s = snapshot(x)
        key = json.dumps(s, default=repr) if not isinstance(s, tuple) else repr(s)
        return self.tok.setdefault(key, len(self.tok))

    def store(self):
        s = [[w + "." + k, self.token(v)] for w in "ab" for k, v in self.obj[w].items()]
        return s + [["r%d" % (i + 1), self.token(v)] for i, v in enumerate(self.res)]

    def answer(self, key, c):
        """number of the content among the answers to this call"""
        l = self.reps.setdefault(key, [])
        for i, r in enumerate(l):
            if equal(r, c): return i
        l.append(c)
        return len(l) - 1

    def start(self):
        self.rec.event("start", {"store": self.store()}, {"t": "none"})

    def fresh(self, n, fr):
        for x in (0, 1):
            self.fresh1(n, x, fr.ans[n, x])

    def fresh1(self, n, x, c):
        k = (n,) + tuple(self.token(self.O[x][o]) for o in self.R[n][1])
        self.rec.event("fresh", {"key": [n, list(k[1:])], "res": self.answer(k, c)}, {"t": "none"})

    def call(self, n, w):
        fn, objs = self.R[n]
        a = [self.obj[w][k] for k in objs]
        k = (n,) + tuple(self.token(x) for x in a)
        v, exc = self.rec.run(quiet, fn, *a)
        c = canon(v) if not exc else ("raised", exc)
        self.res.append(v)
        self.rec.event("call", {"key": [n, list(k[1:])], "args": sorted({w + "." + o for o in objs}), "new": "r%d" % len(self.res),
                                "res": self.answer(k, c), "store": self.store(), "what": n, "raised": exc}, {"t": "none"})

    def write(self, w):
        if w == "r":
            i = len(self.res)
            scribble(self.res[-1])
            may = ["r%d" % i]
        else:
            self.side[w] = 1 - self.side[w]
            for k in self.need: overwrite(self.obj[w][k], self.O[self.side[w]][k])
            may = [w + "." + k for k in self.need]
        self.rec.event("write", {"may": may, "store": self.store()}, {"t": "none"})


def p27(rec, gen):
    OO = [[objects(x, kind) for x in (0, 1)] for kind in (0, 1)]
    R = recipes()
    frs = [Fresh(R, O) for O in OO]
    pats = {}
    for e in gen["MC_Purity"]:
        q = tuple((s["do"], s["on"] if s["on"] in "ab" else "r") for s in e["q"])
        pats.setdefault(e["impl"], set()).add(q)
    # histories that expose an implementation as early as possible, merged: one that starts like another is enough
    small = set()
    for impl, qs in pats.items():
        m = min(map(len, qs))
        small |= {q for q in qs if len(q) == m}
    small = sorted(q for q in small if not any(p != q and p[:len(q)] == q for p in small))
    every = sorted({q for qs in pats.values() for q in qs})
    names = sorted(R)
    r = rec.rng("purity")
    for n in names:
        peers = [m for m in names if m != n and set(R[m][1]) & set(R[n][1])] or [m for m in names if m.split("/")[0] == n.split("/")[0] and m != n] or [m for m in names if m != n]
        todo = small if not rec.thorough else small + [every[i] for i in r.choice(len(every), 40, replace=False)]
        for j, q in enumerate(todo):
            o = peers[r.integers(len(peers))]
            O, fr = OO[j % 2], frs[j % 2]
            h = History(rec, O, R, [n, o], "%s %s %d" % (n, o, j))
            h.start()
            h.fresh(n, fr)
            h.fresh(o, fr)
            for do, on in q:
                if do == "write": h.write(on)
                else: h.call(n if do == "f" else o, on)
            rec.end()
    # long mixed histories over few objects
    for t in range(30 if not rec.thorough else 200):
        O, fr = OO[t % 2], frs[t % 2]
        ns = [names[i] for i in r.choice(len(names), 12, replace=False)]
        h = History(rec, O, R, ns, "mixed %d" % t)
        h.start()
        for n in ns: h.fresh(n, fr)
        for _ in range(30):
            u = r.random()
            if u < 0.7: h.call(ns[r.integers(len(ns))], "ab"[r.integers(2)])
            elif u < 0.85 and h.res: h.write("r")
            else: h.write("ab"[r.integers(2)])
        rec.end()
