"""P37: functions that take many queries (rows, elements, right-hand sides) at once, asked together and alone, in the batches emitted by MC_Batch."""
import itertools
import numpy as np
import scipy.sparse as sps
import gpytoolbox as gpy
import drv_purity as pure


def rows(*parts):
    """answers as one row of numbers for each query"""
    n = parts[0].shape[0]
    return [[np.asarray(p[i], dtype=float).ravel() if not sps.issparse(p) else p[i].toarray().ravel() for p in parts] for i in range(n)]


class Fn:
    """ask(*arrays of queries) -> parts with one entry for each query; pool: arrays of queries, the last `special` of them unusual ones"""
    def __init__(self, ask, pool, special=0, long=0, rtol=1e-9, floor=1.):
        self.ask, self.pool, self.special, self.long, self.rtol, self.floor = ask, [np.asarray(p) for p in pool], special, long, rtol, floor

    def size(self): return len(self.pool[0])

    def __call__(self, idx):
        v = self.ask(*[p[list(idx)].copy() for p in self.pool])
        return v if isinstance(v, (tuple, list)) else (v,)


def shaped(v, n):
    """one entry for each of n queries in every part"""
    return all((sps.issparse(p) or isinstance(p, np.ndarray)) and len(p.shape) > 0 and p.shape[0] == n for p in v)


def same(a, b, rtol, floor):
    if len(a) != len(b): return False
    for p, q in zip(a, b):
        if p.shape != q.shape or not np.allclose(p, q, rtol=rtol, atol=rtol * max(floor, np.max(np.abs(p[np.isfinite(p)]), initial=0.)), equal_nan=True): return False
    return True


def functions(r):
    g, D = gpy, {}
    sph = g.icosphere(1)
    Vc, Fc = sph[0] * np.array([1., 1.2, .8]) + .02 * r.normal(size=sph[0].shape), sph[1]
    V2, F2 = g.regular_square_mesh(5)
    V2 = V2 + .03 * r.normal(size=V2.shape)
    V = np.column_stack([V2, V2[:, 0] * V2[:, 1] + .1 * r.normal(size=len(V2))])
    t = 2 * np.pi * np.arange(11) / 11
    P = np.column_stack([np.cos(t), np.sin(t)]) * r.uniform(.6, 1.2, size=(11, 1))
    EC = g.edge_indices(11, closed=True)
    Vt, T = g.regular_cube_mesh(3, type="five")[:2]
    Vt = Vt + .03 * r.normal(size=Vt.shape)
    # queries: ordinary ones, then on the surface, far away, at the origin
    inner = g.barycenters(Vc, Fc)[:4]
    Q3 = np.vstack([r.normal(size=(14, 3)), inner, 1e3 * r.normal(size=(2, 3)), np.zeros((1, 3)) + 1e-3])
    mid = (P[EC[:3, 0]] * .3 + P[EC[:3, 1]] * .7)
    Q2 = np.vstack([r.uniform(-1.4, 1.4, size=(16, 2)), mid, 1e3 * r.normal(size=(2, 2)), [[1e-3, 2e-3]]])
    C, W, CH, _, _, I, S = g.initialize_aabbtree(Vc, Fc)[:7]
    for aabb in (False, True):
        D["squared_distance/%s" % aabb] = Fn(lambda q, a=aabb: g.squared_distance(q, Vc, F=Fc, use_aabb=a), [Q3], 7, 40)
        D["squared_distance/points%s" % aabb] = Fn(lambda q, a=aabb: g.squared_distance(q, Vc, use_aabb=a), [Q3], 7, 40)
        D["squared_distance/polyline%s" % aabb] = Fn(lambda q, a=aabb: g.squared_distance(q, P, F=EC, use_aabb=a), [Q2], 6, 150)
    D["squared_distance/tree"] = Fn(lambda q: g.squared_distance(q, Vc, F=Fc, use_aabb=True, C=C, W=W, CH=CH, tri_ind=I, split_dir=S), [Q3], 7, 150)
    D["unsigned_distance"] = Fn(lambda q: g.unsigned_distance(q, P, F=EC, use_cpp=False), [Q2], 6, 150)
    D["signed_distance"] = Fn(lambda q: g.signed_distance(q, P, F=EC, use_cpp=False), [Q2[np.r_[0:16, 19:22]]], 3, 150)
    D["signed_distance/chain"] = Fn(lambda q: g.signed_distance(q, P, use_cpp=False), [Q2[np.r_[0:16, 19:22]]], 3, 150)
    D["signed_distance_polygon"] = Fn(lambda q: g.signed_distance_polygon(q, P), [Q2[np.r_[0:16, 19:22]]], 3, 5001)
    D["winding_number"] = Fn(lambda q: g.winding_number(q, P, EC), [Q2[np.r_[0:16, 19:22]]], 3, 5001)
    D["winding_number/open"] = Fn(lambda q: g.winding_number(q, P, EC[:7]), [Q2[np.r_[0:16, 19:22]]], 3, 5001)
    D["ray_mesh_intersect"] = Fn(lambda o, d: g.ray_mesh_intersect(o, d, Vc, Fc, use_embree=False),
                                 [np.vstack([3 * Q3[:14], 3 * Q3[:3], 3 * Q3[3:6]]), np.vstack([-3 * Q3[:14] + .2 * r.normal(size=(14, 3)), 3 * Q3[:3], r.normal(size=(3, 3))])], 6, 60)
    D["ray_mesh_intersect/tree"] = Fn(lambda o, d: g.ray_mesh_intersect(o, d, Vc, Fc, use_embree=False, C=C, W=W, CH=CH, tri_ind=I),
                                      [3 * Q3[:14], np.vstack([-3 * Q3[:10], 2 * Q3[10:14]])], 4, 60)
    # one small tetrahedron, so that batches can be long
    V4, F4 = np.array([[0., 0, 0], [1.1, 0, .1], [0, 1.2, 0], [.1, 0, .9]]) - .25, np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [2, 0, 3]])
    C4, W4, CH4, _, _, I4, S4 = g.initialize_aabbtree(V4, F4)[:7]
    for aabb in (False, True):
        D["squared_distance/small%s" % aabb] = Fn(lambda q, a=aabb: g.squared_distance(q, V4, F=F4, use_aabb=a), [Q3[np.r_[:14, 18:21]]], 3, 1025)
        D["squared_distance/segments%s" % aabb] = Fn(lambda q, a=aabb: g.squared_distance(q, P[:3], F=EC[:2], use_aabb=a), [Q2], 6, 1025)
    D["squared_distance/smalltree"] = Fn(lambda q: g.squared_distance(q, V4, F=F4, use_aabb=True, C=C4, W=W4, CH=CH4, tri_ind=I4, split_dir=S4), [Q3[np.r_[:14, 18:21]]], 3, 1025)
    D["unsigned_distance/small"] = Fn(lambda q: g.unsigned_distance(q, P[:3], F=EC[:2], use_cpp=False), [Q2], 6, 1025)
    D["signed_distance/small"] = Fn(lambda q: g.signed_distance(q, P[:3], F=np.array([[0, 1], [1, 2], [2, 0]]), use_cpp=False), [Q2[np.r_[0:16, 19:22]]], 3, 1025)
    D["ray_mesh_intersect/small"] = Fn(lambda o, d: g.ray_mesh_intersect(o, d, V4, F4, use_embree=False),
                                       [np.vstack([3 * Q3[:14], 3 * Q3[:3]]), np.vstack([-3 * Q3[:14] + .2 * r.normal(size=(14, 3)), 3 * Q3[:3]])], 3, 1025)
    for d in (2, 3):
        D["barycentric_coordinates/%dd" % d] = Fn(lambda p, a, b, c: g.barycentric_coordinates(p, a, b, c), [r.normal(size=(20, d)) * np.r_[np.ones(16), 1e3 * np.ones(4)][:, None] for _ in range(4)], 4, 5001)
    keys = r.normal(size=(6, 3))
    D["catmull_rom_spline"] = Fn(lambda t: g.catmull_rom_spline(t, keys), [np.r_[r.uniform(size=16), 0., 1., .2, .4, .999]], 5, 5001)
    Rs, Ts = np.array([np.eye(3) + .3 * r.normal(size=(3, 3)) for _ in range(3)]), r.normal(size=(3, 3))
    D["linear_blend_skinning"] = Fn(lambda v, w: g.linear_blend_skinning(v, w, Rs, Ts), [np.vstack([r.normal(size=(16, 3)), np.zeros((2, 3)), 1e4 * np.ones((2, 3))]), np.vstack([r.uniform(size=(14, 3)), np.eye(3), np.zeros((3, 3))])], 6, 5001)
    col = r.integers(0, 255, size=(5, 3)).astype(float)
    for lin, log in itertools.product((False, True), (False, True)):
        D["apply_colormap/%s%s" % (lin, log)] = Fn(lambda f, a=lin, b=log: g.apply_colormap(col, f, min=.2, max=.8, piecewise_linear=a, log=b), [np.r_[r.uniform(.2, .8, size=14), -1., 0., .2, .8, 5., 100.]], 6, 5001)
    D["apply_colormap/one"] = Fn(lambda f: g.apply_colormap(col[:1], f), [r.normal(size=9)], 0, 501)
    grid = np.vstack([r.uniform(.1, 2.9, size=(14, 2)) * [.5, .25], [[.5, .25], [1., .5], [0., 0.]]]) + [-.5, -.5]
    D["fd_interpolate"] = Fn(lambda p: g.fd_interpolate(p, np.array([6, 7]), np.array([.5, .25]), np.array([-.5, -.5])), [grid], 3, 5001)
    g3 = np.vstack([r.uniform(.1, 2.9, size=(14, 3)), np.ones((1, 3)), np.zeros((1, 3))])
    D["fd_interpolate/3d"] = Fn(lambda p: g.fd_interpolate(p, np.array([5, 4, 6]), np.ones(3)), [g3], 2, 5001)
    X = [np.vstack([r.normal(size=(16, 3)), np.zeros((2, 3)), 50 * np.ones((2, 3))]) for _ in range(2)]
    X[1][-4:] += .1 * r.normal(size=(4, 3))
    for d in itertools.product((-1, 0, 2), (-1, 1)):
        D["squared_exponential_kernel/%s%s" % d] = Fn(lambda p, q, d=d: g.squared_exponential_kernel(p, q, derivatives=d, length=.7, scale=1.3), X, 4, 5001)
        D["compactly_supported_normal_kernel/%s%s" % d] = Fn(lambda p, q, d=d: g.compactly_supported_normal_kernel(p, q, derivatives=d, length=2.), X, 4, 5001)
    for n in (1, 2, 3, 4):
        D["compactly_supported_normal/%d" % n] = Fn(lambda p, n=n: g.compactly_supported_normal(p, n=n, sigma=1.5, center=np.array([.1, .2, -.1])), X[:1], 4, 5001)
        D["compactly_supported_normal/%dd" % n] = Fn(lambda p, n=n: g.compactly_supported_normal(p, n=n, sigma=1.5, second_derivative=n % 3, center=np.zeros(3)), X[:1], 4, 5001)
    f = lambda x, y: np.sum(x * y, axis=1) + x[:, 0]
    for s in (False, True):
        D["matrix_from_function/%s" % s] = Fn(lambda p, s=s: g.matrix_from_function(f, p, X[1][:5], sparse=s), X[:1], 4, 2001)
        D["matrix_from_function/columns%s" % s] = Fn(lambda p, s=s: g.matrix_from_function(f, X[1][:5], p, sparse=s).T, X[:1], 4, 2001)
    xt, yt = np.sort(r.uniform(size=(7, 1)), axis=0), r.normal(size=7)
    D["gaussian_process"] = Fn(lambda p: pure.gp(xt, yt, p)[:1] + [np.diag(pure.gp(xt, yt, p)[1])], [np.vstack([r.uniform(size=(12, 1)), xt[:2], [[50.]]])], 3, 257, rtol=1e-7)
    B = np.arange(40)[r.permutation(40)] * 3
    D["array_correspondence"] = Fn(lambda a: g.array_correspondence(a, B), [np.r_[B[:12], 1, 4, -1, 10 ** 6]], 4, 5001)
    Br = r.permutation(64)[:40]; Br = np.column_stack([Br // 8, Br % 8])
    D["array_correspondence/rows"] = Fn(lambda a: g.array_correspondence(a, Br, axis=0), [np.vstack([Br[:12], [[9, 9], [-1, 0], [0, 99]]])], 3, 5001)
    D["array_correspondence/columns"] = Fn(lambda a: g.array_correspondence(a.T, Br.T, axis=1), [np.vstack([Br[:12], [[9, 9], [-1, 0], [0, 99]]])], 3, 5001)
    # elements of a mesh; the special ones are slivers (or repeated corners where that is meaningful)
    sl = np.vstack([V[0], V[0] + 1e-3, V[0] + [0, 1., 0], 1e-8 * r.normal(size=(3, 3)), 1e6 * r.normal(size=(3, 3))])
    Vs, Fs = np.vstack([V, sl]), np.vstack([F2[:18], len(V) + np.array([[0, 1, 2], [1, 2, 0], [3, 4, 5], [6, 7, 8]])])
    for n in "doublearea halfedge_lengths halfedge_lengths_squared tip_angles cotangent_weights barycenters per_face_normals".split():
        D[n] = Fn(lambda F, n=n: getattr(g, n)(Vs, F), [Fs], 4, 5001, 1e-8, 0.)
    for n in "doublearea tip_angles cotangent_weights".split():
        D[n + "_intrinsic"] = Fn(lambda l, F, n=n: getattr(g, n + "_intrinsic")(l, F), [g.halfedge_lengths_squared(Vs, Fs), Fs], 4, 5001, 1e-8, 0.)
    D["doublearea/signed"] = Fn(lambda F: g.doublearea(V2, F, signed=True), [np.vstack([F2[:12], F2[12:16, [1, 0, 2]]])], 4, 5001)
    D["per_face_normals/raw"] = Fn(lambda F: g.per_face_normals(Vs, F, unit_norm=False), [Fs], 4, 5001, floor=0.)
    D["per_face_normals/segments"] = Fn(lambda E: g.per_face_normals(P, E), [EC], 0, 5001)
    D["doublearea/segments"] = Fn(lambda E: g.doublearea(P, E), [EC], 0, 5001)
    D["halfedges"] = Fn(lambda F: g.halfedges(F), [F2[:20]], 0, 5001)
    D["halffaces"] = Fn(lambda F: g.halffaces(F), [T[:20]], 0, 5001)
    D["volume"] = Fn(lambda F: g.volume(Vt, F), [np.vstack([T[:14], T[14:18, [1, 0, 2, 3]]])], 4, 5001)
    D["barycenters/tets"] = Fn(lambda F: g.barycenters(Vt, F), [T[:20]], 0, 5001)
    # right-hand sides
    L = sps.csr_matrix(g.cotangent_laplacian(V, F2) + .5 * g.massmatrix(V, F2))
    n, k = len(V), np.array([3, 11])
    c, y = np.vstack([r.normal(size=(10, n)), np.zeros((2, n)), 1e4 * r.normal(size=(2, n))]), np.vstack([r.normal(size=(9, 2)), np.zeros((3, 2)), 1e4 * r.normal(size=(2, 2))])
    Aeq, b = sps.csr_matrix(r.normal(size=(2, n))), r.normal(size=(14, 2))
    cols = lambda a: a.T if a.ndim == 2 else a[None]
    D["min_quad_with_fixed"] = Fn(lambda c, y: cols(g.min_quad_with_fixed(L, c=c.T, k=k, y=y.T)), [c, y], 4, 501, rtol=1e-7)
    D["min_quad_with_fixed/equalities"] = Fn(lambda c, y, b: cols(g.min_quad_with_fixed(L, c=c.T, k=k, y=y.T, A=Aeq, b=b.T)), [c, y, b], 4, 501, rtol=1e-6)
    D["fixed_dof_solve"] = Fn(lambda c, y: cols(g.fixed_dof_solve(L, b=c.T, k=k, y=y.T)), [c, y], 4, 501, rtol=1e-7)
    return D


def assembled(r):
    """matrices to which every element of the batch adds its own"""
    g, D = gpy, {}
    V2, F2 = g.regular_square_mesh(5)
    V2 = V2 + .03 * r.normal(size=V2.shape)
    V = np.column_stack([V2, V2[:, 0] * V2[:, 1] + .1 * r.normal(size=len(V2))])
    n = len(V)
    lsq = g.halfedge_lengths_squared(V, F2)
    D["cotangent_laplacian"] = Fn(lambda F: g.cotangent_laplacian(V, F), [F2])
    D["cotangent_laplacian_intrinsic"] = Fn(lambda l, F: g.cotangent_laplacian_intrinsic(l, F, n=n), [lsq, F2])
    for t in ("barycentric", "voronoi", "full"):
        D["massmatrix/" + t] = Fn(lambda F, t=t: g.massmatrix(V, F, type=t), [F2])
        D["massmatrix_intrinsic/" + t] = Fn(lambda l, F, t=t: g.massmatrix_intrinsic(l, F, n=n, type=t), [lsq, F2])
    D["angle_defect"] = Fn(lambda F: np.bincount(F.ravel(), weights=g.tip_angles(V, F).ravel(), minlength=n), [F2])
    return D


def p37(rec, gen):
    r = rec.rng("batch")
    qss = sorted({tuple(e["qs"]) for e in gen["MC_Batch"]})
    least = sorted({tuple(e["qs"]) for im in {e["impl"] for e in gen["MC_Batch"]} for e in gen["MC_Batch"]
                    if e["impl"] == im and len(e["qs"]) <= 1 + min(len(x["qs"]) for x in gen["MC_Batch"] if x["impl"] == im)}, key=lambda q: (len(q), q))
    D = functions(r)
    D = {k: v for k, v in D.items()}
    for name in sorted(D):
        fn = D[name]
        n = fn.size()
        alone, tok, reps = {}, {}, []

        def token(a):
            k = next((i for i, b in enumerate(reps) if same(b, a, fn.rtol, fn.floor)), len(reps))
            if k == len(reps): reps.append(a)
            return k
        rec.begin(name)
        for i in range(n):
            v, exc = rec.run(fn, [i])
            alone[i] = token(rows(*v)[0]) if not exc and shaped(v, 1) else -1
            rec.event("alone", {"what": name, "q": i, "res": alone[i], "raised": exc}, {"t": "none"})
        ordinary, special = list(range(n - fn.special)), list(range(n - fn.special, n)) or list(range(n))

        def ask(qs):
            v, exc = rec.run(fn, qs)
            res = []
            if not exc:
                for i, a in enumerate(rows(*v) if shaped(v, len(qs)) else []):
                    k = alone[qs[i]]
                    res.append(k if k >= 0 and same(reps[k], a, fn.rtol, fn.floor) else token(a))
            # long batches: only the differences are written down
            if len(qs) > 64:
                w = [i for i in range(len(res)) if res[i] != alone[qs[i]]][:20] + ([0, len(res) - 1] if res else [])
                rec.event("long", {"what": name, "n": len(qs), "got": len(res), "qs": [qs[i] for i in w], "res": [res[i] for i in w], "raised": exc}, {"t": "none"})
            else:
                rec.event("batch", {"what": name, "qs": list(qs), "res": res, "raised": exc}, {"t": "none"})
        todo = qss if rec.thorough else least + [qss[i] for i in r.choice(len(qss), 40, replace=False)]
        for q in todo:
            for _ in range(1 if not rec.thorough else 3):
                pick = {1: ordinary[r.integers(len(ordinary))], 2: ordinary[r.integers(len(ordinary))], 3: special[r.integers(len(special))]}
                ask([pick[k] for k in q])
        for m in (3, 4, 9, 16, 33):
            ask([int(i) for i in r.integers(n, size=m)])
        for m in (65, 130, 257, 1025, 5001):
            if m <= max(fn.long, 65 if rec.thorough else 0):
                ask([int(i) for i in r.integers(n, size=m)])
        rec.end()
    for name, fn in sorted(assembled(r).items()):
        dense = lambda v: np.asarray(v[0].todense() if sps.issparse(v[0]) else v[0], dtype=float)
        rec.begin("sum " + name)
        one = [dense(fn([i])) for i in range(fn.size())]
        for m in (1, 2, 2, 3, 4, 7, 20, 33, 257, 1025):
            idx = [int(i) for i in r.integers(fn.size(), size=m)]
            v, exc = rec.run(fn, idx)
            want = sum(one[i] for i in idx)
            ok = not exc and dense(v).shape == want.shape and np.allclose(dense(v), want, rtol=1e-9, atol=1e-9 * np.max(np.abs(want)))
            rec.event("sum", {"what": name, "n": m, "ok": bool(ok), "raised": exc}, {"t": "none"})
        rec.end()
