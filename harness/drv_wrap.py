"""P43: the Python side of the compiled algorithms, with stand-ins for the compiled part that act by its contract."""
import sys, types
import numpy as np
import gpytoolbox as gpy
import gpytoolbox_bindings as B
from vlib import nums, num, raw, snapshot

C = types.ModuleType("gpytoolbox_bindings_copyleft")
sys.modules["gpytoolbox_bindings_copyleft"] = C
f8, i4 = np.dtype(np.float64), np.dtype(np.int32)


def strict(*pairs):
    """the conversions pybind11 refuses to make for a writeable reference"""
    for a, d in pairs:
        if not (isinstance(a, np.ndarray) and a.dtype == d):
            raise TypeError("incompatible function arguments")


def p43(rec, gen):
    X = 4 if rec.thorough else 1
    rng = rec.rng("wrap")

    def body(kind):
        if kind == 0:
            V, F = gpy.icosphere(1)
        elif kind == 1:
            V, F = gpy.regular_square_mesh(4, 3)
            V = np.concatenate((V, np.zeros((len(V), 1))), 1)
            V[:, 2] = np.maximum(0, V[:, 0]) * 1.5
        elif kind == 2:
            V, F = gpy.cone(6, 3)
        elif kind == 3:
            V, F = gpy.cylinder(5, 3)
        else:
            V = np.array([[x, y, z] for x in (0, 1) for y in (0, 1) for z in (0, 1)], dtype=float)
            F = np.array([[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])
        return np.array(V, dtype=float), np.array(F)

    # ---------------------------------------------------------------- remeshing
    def remesh(id, V, F, feature=(), edges=None, detect=False, thr=None, h=None, i=None, project=None, ftype=int, kind="array"):
        def mock(V_, F_, i_, h_, feature_, edges_, project_):
            strict((V_, f8), (F_, i4), (feature_, i4), (edges_, i4))
            if not isinstance(i_, (int, np.integer)) or edges_.ndim != 2 or edges_.shape[1] != 2 or not np.array_equal(feature_, np.arange(len(feature_))):
                raise TypeError("incompatible function arguments")
            k, n = len(feature_), len(V_)
            q = np.concatenate((np.arange(k), k + mockrng.permutation(n - k))).astype(int)     # old -> new
            W = np.empty_like(V_)
            W[q] = V_ + np.where(np.arange(n) < k, 0., 1000.)[:, None] * [0, 0, 1]
            M = [(V_[a] + V_[b]) / 2 + [0, 0, 5000.] for a, b in edges_]
            return np.vstack([W] + M + [[float(h_), float(i_), float(bool(project_))]]), q[F_].astype(np.int32)
        mockrng = np.random.default_rng(len(id))
        B._remesh_botsch_cpp_impl = mock
        kw = {}
        if len(feature) or kind == "empty":
            kw["feature"] = np.array(feature, dtype=ftype)
        for k_, v_ in (("feature_edges", edges), ("feature_dihedral_threshold", thr), ("h", h), ("i", i), ("project", project)):
            if v_ is not None:
                kw[k_] = v_
        if detect:
            kw["detect_feature_edges"] = True
        before = snapshot((V, F, kw))
        r, exc = rec.run(gpy.remesh_botsch, V, F, **kw)
        out = {}
        if not exc:
            try:
                U, G = (np.asarray(a) for a in r)
                out = dict(U=nums(U), G=G.astype(int).tolist(), same=snapshot((V, F, kw)) == before)
            except Exception:
                exc = "result"
        rec.event("remesh", dict(V=nums(V), F=raw(F), feature=[int(x) for x in feature], edges=[] if edges is None else np.asarray(edges).reshape((-1, 2)).tolist(), detect=detect,
                                 thr=num(45. if thr is None else thr), h=[] if h is None else [num(float(h))], i=num(10 if i is None else i), project=num(1 if project is None else int(project))), out, exc)

    for n, g in enumerate(gen["MC_Keep"]):
        rec.begin(f"keep{n}")
        F = np.array(g["F"], dtype=[np.int64, np.int32][n % 2])
        V = rng.normal(size=(int(F.max()) + 1, 3))
        remesh(f"keep{n}", V, F, feature=g["keep"], ftype=[int, np.int32][n % 3 == 1], edges=None if n % 2 else np.array([[0, 1], [2, 0]]))
        rec.end()
    for n in range(20 * X):
        V, F = body(n % 5)
        q = rng.permutation(len(V))
        W = np.empty_like(V)
        W[q] = V + .02 * rng.normal(size=V.shape) * (n % 2)
        V, F = W, q[F]
        k = int(rng.integers(0, 5))
        e = gpy.edges(F)
        ed = e[rng.permutation(len(e))[:int(rng.integers(0, 4))]] if n % 3 else None
        if ed is not None and len(ed) and n % 3 == 2:
            ed = np.concatenate((ed, ed[:1, ::-1]))
        rec.begin(f"remesh{n}")
        remesh(f"remesh{n}", V, F, feature=rng.integers(0, len(V), k), edges=ed, detect=n % 4 < 2, thr=[None, 20., 60., 89., 91., 100][n % 6], h=[None, .3][n % 2],
               i=[None, 3, 0][n % 3], project=[None, False, True][n % 3])
        rec.end()
    rec.begin("refuse")
    V = rng.normal(size=(5, 3))
    _, exc = rec.run(gpy.remesh_botsch, V, np.array([[0, 1, 2], [1, 0, 3], [0, 1, 4]]))
    rec.event("refuse", dict(what="a mesh with a non-manifold edge was accepted"), dict(raised=exc == "ValueError"))
    rec.end()

    # --------------------------------------------------------------------- cage
    def cage(id, ans, force=None, grid=None, faces=None, default=False):
        V, F = body(len(ans) % 5)
        V = V * rng.uniform(.3, 4, 3) + rng.normal(size=3)
        top = (V.max(0) - V.min(0)).max() / 2
        asked, made, plain, todo = [], [], [True], list(ans)
        want = dict(grid=50 if grid is None else grid, faces=100 if faces is None else faces)
        T = np.array([[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]], dtype=np.int32)

        def offset(V_, F_, d, g):
            strict((V_, f8), (F_, i4))
            plain[0] &= bool(np.array_equal(V_, V) and np.array_equal(F_, F) and g == want["grid"])
            asked.append(float(d))
            return np.array([[float(d), 1, 0], [0, 0, 0], [0, 1, 0], [0, 0, 1]]), T.copy()

        def dec(V_, F_, m, method):
            strict((V_, f8), (F_, i4))
            plain[0] &= bool(m == want["faces"])
            Z = V_.copy()
            Z[0, 1] = 2.
            return Z, F_, np.arange(4, dtype=np.int32), np.arange(4, dtype=np.int32)

        def union(V1, F1, V2, F2):
            strict((V1, f8), (F1, i4), (V2, f8), (F2, i4))
            plain[0] &= bool(np.array_equal(V1, V2) and np.array_equal(F1, F2))
            # unions differ in their numbers of vertices and faces, and in their sizes
            Z = np.concatenate((V1, rng.uniform(-9, 9, (int(rng.integers(0, 5)), 3))))
            Z[0, 2] = 3.
            G = np.concatenate((F1, rng.integers(0, len(Z), (int(rng.integers(0, 5)), 3)).astype(np.int32)))
            made.append((Z, G))
            return Z.copy(), G.copy()

        def meet(V1, F1, V2, F2):
            strict((V1, f8), (F1, i4), (V2, f8), (F2, i4))
            got = [V1, F1, V2, F2]
            ab, ba = [*made[-1], V, F], [V, F, *made[-1]]
            plain[0] &= any(all(np.array_equal(x, y) for x, y in zip(got, w)) for w in (ab, ba))
            return [[0, 1]] if todo.pop(0) else []
        B._offset_surface_cpp_impl, B._decimate_cpp_impl = offset, dec
        C._mesh_union_cpp_impl, C._do_meshes_intersect_cpp_impl = union, meet
        C._mesh_intersection_cpp_impl = C._mesh_difference_cpp_impl = None
        kw = {k: v for k, v in dict(force_output=force, grid_size=grid, num_faces=faces).items() if v is not None}
        if not default:
            kw["max_iter"] = len(ans)
        before = snapshot((V, F))
        rec.begin(id)
        r, exc = rec.run(gpy.copyleft.lazy_cage, V, F, **kw)
        out = {}
        if not exc:
            try:
                U, G = r
                d = [] if U is None and G is None else [num(float(U[0, 0]))]
                out = dict(asked=nums(np.array(asked)) if asked else [], d=d, plain=bool(plain[0] and (not d or any(np.array_equal(U, Z) and np.array_equal(G, H) and Z[0, 1] == 2. for Z, H in made))), same=snapshot((V, F)) == before)
            except Exception:
                exc = "result"
        rec.event("cage", dict(top=num(float(top)), ans=[bool(a) for a in ans], force=force is None or force), out, exc)
        rec.end()

    for n, ans in enumerate(gen["MC_Cage"]):
        cage(f"cage{n}", ans, force=[True, False, None][n % 3], grid=[None, 7][n % 2], faces=[None, 33, 5][n % 3])
        cage(f"cagef{n}", ans[:1 + n % 4], force=False)
    for n in range(4):
        cage(f"long{n}", [bool(x) for x in rng.integers(0, 2, 10)], default=n % 2 == 0)
    cage("none", [True] * 5, force=False)
    cage("none2", [True] * 3)

    # --------------------------------------------------------- counts, booleans
    rec.begin("decimate")
    for n in range(30 * X):
        V, F = body(n % 5)
        m = len(F)
        got = {}

        def dec(V_, F_, k, method):
            strict((V_, f8), (F_, i4))
            got.update(n=num(int(k)), method=["shortest_edge", "qslim"][method], same=bool(np.array_equal(V_, V) and np.array_equal(F_, F)))
            return np.full((1, 3), 1.), np.full((2, 3), 2, dtype=np.int32), np.full(3, 3, dtype=np.int32), np.full(4, 4, dtype=np.int32)
        B._decimate_cpp_impl = dec
        kw, inp = {}, dict(m=m, ratio=num(.1), num=[], method="shortest_edge")
        if n % 3 == 1:
            kw["face_ratio"] = [.5, .25, 1., .29, .07, float(rng.random())][n % 6]
            inp["ratio"] = num(kw["face_ratio"])
        if n % 3 == 2:
            kw["num_faces"] = [int(rng.integers(1, m)), 0, m][n // 3 % 3]
            inp["num"] = [num(kw["num_faces"])]
            if n % 2:
                kw["face_ratio"] = .9
        if n % 4 > 1:
            kw["method"] = inp["method"] = ["shortest_edge", "qslim"][n % 4 - 2]
        F_ = F.astype([np.int64, np.int32][n % 2])
        before = snapshot((V, F_))
        r, exc = rec.run(gpy.decimate, V if n % 5 else V.astype(np.float32).astype(float), F_, **kw)
        out = {}
        if not exc:
            out = dict(n=got.get("n", "-1"), method=got.get("method", ""), same=snapshot((V, F_)) == before,
                       order=len(r) == 4 and [np.shape(x) for x in r] == [(1, 3), (2, 3), (3,), (4,)] and (n % 5 == 0 or got["same"]))
        rec.event("decimate", inp, out, exc)
    _, exc = rec.run(gpy.decimate, V, F, method="other")
    rec.event("refuse", dict(what="an unknown method of decimation was accepted"), dict(raised=exc != ""))
    rec.end()

    rec.begin("boolean")
    for n in range(10):
        V1, F1 = body(n % 5)
        V2, F2 = body((n + 1) % 5)
        got = {}

        def op(name):
            def f(a, b, c, d):
                strict((a, f8), (b, i4), (c, f8), (d, i4))
                got.update(op=name, same=all(np.array_equal(x, y) for x, y in zip((a, b, c, d), (V1, F1, V2, F2))))
                return np.full((1, 3), 1.), np.full((2, 3), 2, dtype=np.int32)
            return f
        C._mesh_union_cpp_impl, C._mesh_intersection_cpp_impl, C._mesh_difference_cpp_impl = op("union"), op("intersection"), op("difference")
        name = ["", "union", "intersection", "difference", "minus"][n % 5]
        kw = dict(boolean_type=name) if name else {}
        before = snapshot((V1, F1, V2, F2))
        r, exc = rec.run(gpy.copyleft.mesh_boolean, V1, F1, V2, F2, **kw)
        rec.event("bool", dict(name=name), {} if exc else dict(op=got.get("op", ""), plain=bool(got.get("same") and [np.shape(x) for x in r] == [(1, 3), (2, 3)]), same=snapshot((V1, F1, V2, F2)) == before), exc)
    for n in range(6):
        pairs = [[], [[0, 1]], [[3, 2], [1, 1]]][n % 3]

        def meet(a, b, c, d):
            strict((a, f8), (b, i4), (c, f8), (d, i4))
            got.update(plain=all(np.array_equal(x, y) for x, y in zip((a, b, c, d), (V1, F1, V2, F2))))
            return [list(p) for p in pairs] if n < 3 else np.array(pairs, dtype=np.int32).reshape((-1, 2))
        C._do_meshes_intersect_cpp_impl = meet
        r, exc = rec.run(gpy.copyleft.do_meshes_intersect, V1, F1, V2, F2)
        rec.event("meet", dict(pairs=pairs), {} if exc else dict(b=bool(r[0]), none=r[1] is None, pairs=[] if r[1] is None else np.asarray(r[1]).tolist(), plain=bool(got.get("plain")),
                                                                same=True), exc)
    rec.end()

    # ------------------------------------------------ arguments handed over
    def token(x):
        """a value as the compiled code would see it"""
        if isinstance(x, np.ndarray):
            return [x.dtype.kind + str(x.dtype.itemsize), [str(s) for s in x.shape], [num(v) for v in x.ravel().tolist()]]
        if isinstance(x, str):
            return ["str", [x], []]
        return ["bool" if isinstance(x, (bool, np.bool_)) else "int" if isinstance(x, (int, np.integer)) else "num", [], [num(x)]]

    def passing(module, name, fn, args, kw, want, ret):
        got = []
        setattr(module, name, lambda *a, **k: (got.extend(list(a) + [k[x] for x in sorted(k)]), ret if len(ret) > 1 else ret[0])[1])
        before = snapshot((args, kw))
        r, exc = rec.run(fn, *args, **kw)
        rec.event("pass", dict(want=[token(x) for x in want], ret=[token(x) for x in ret]), {} if exc else dict(
            got=[token(x) for x in got], res=[token(np.asarray(x)) for x in (r if len(ret) > 1 else (r,))], same=snapshot((args, kw)) == before), exc)
    g = lambda *s: rng.normal(size=s)
    R2 = lambda: (g(2, 3), rng.integers(0, 9, (3, 3)).astype(np.int32))
    rec.begin("pass")
    for n in range(8 * X):
        V, F = body(n % 5)
        F = F.astype([np.int64, np.int32, np.int16][n % 3])
        if n % 4 == 3:
            V = np.asfortranarray(V)
        if n % 4 == 2:
            V = np.round(V * 3).astype(int)
        v, f = V.astype(float), F.astype(np.int32)
        q = g(4, 3)
        passing(B, "_in_element_aabb_cpp_impl", gpy.in_element_aabb, (q, V, F), {}, [q, v, f], (rng.integers(-1, 5, 4).astype(np.int32),))
        iso = float(g())
        passing(B, "_offset_surface_cpp_impl", gpy.offset_surface, (V, F, iso), {}, [v, f, iso, 100], R2())
        passing(B, "_offset_surface_cpp_impl", gpy.offset_surface, (V, F, iso), dict(grid_size=7 + n), [v, f, iso, 7 + n], R2())
        s, gv = g(2 * 3 * 4), g(24, 3)
        passing(B, "_marching_cubes_cpp_impl", gpy.marching_cubes, (s, gv, 2, 3, 4), {}, [s, gv, 2, 3, 4, 0.], R2())
        passing(B, "_marching_cubes_cpp_impl", gpy.marching_cubes, (s, gv, 2, 3, 4, iso), {}, [s, gv, 2, 3, 4, iso], R2())
        P, N = g(6, 2 + n % 2), g(6, 2 + n % 2)
        passing(B, "_point_cloud_to_mesh_cpp_impl", gpy.point_cloud_to_mesh, (P, N), {}, [P, N, 10., 10, "Neumann", False, False], R2())
        passing(B, "_point_cloud_to_mesh_cpp_impl", gpy.point_cloud_to_mesh, (P, N), dict(psr_screening_weight=.5, psr_depth=[5, 12, 20][n % 3], psr_outer_boundary_type="Dirichlet", verbose=True),
                [P, N, .5, [5, 12, 12][n % 3], "Dirichlet", False, True], R2())
        o = dict(isovalue=.25, outer_iters=3, inner_iters=4, batch_size=5, hermite_update=False, mu=.3, dc_weight=.4, svd_threshold=.05, new_hermite_pos_weight=.6, new_face_pos_weight=.7,
                 new_hermite_normal_weight=.8, verbose=True) if n % 2 else {}
        full = dict(dict(isovalue=0., outer_iters=100, inner_iters=100, batch_size=200000, hermite_update=True, mu=.1, dc_weight=.02, svd_threshold=.01, new_hermite_pos_weight=.2, new_face_pos_weight=.2,
                         new_hermite_normal_weight=.2, verbose=False), **o, S=s, GV=gv, nx=2, ny=3, nz=4)
        passing(B, "_dcsdd_stand_in", gpy.dual_contouring_of_signed_distance_data, (s if n % 3 else s[:, None], gv, 2, 3, 4), o, [full[k] for k in sorted(full)], R2())
    for bad, kw in (((s[1:], gv, 2, 3, 4), {}), ((s, gv[:, :2], 2, 3, 4), {}), ((s, gv, 4, 3, 4), {}), ((s[:12], gv[:12], 1, 3, 4), {}), ((s, gv, 2, 3, 4), dict(outer_iters=-1)),
                    ((s, gv, 2, 3, 4), dict(inner_iters=-1)), ((s, gv, 2, 3, 4), dict(batch_size=0))):
        _, exc = rec.run(gpy.dual_contouring_of_signed_distance_data, *bad, **kw)
        rec.event("refuse", dict(what="samples or options that do not fit together were accepted"), dict(raised=exc == "ValueError"))
    for bad, kw in (((P, N[1:]), {}), ((P[:1], N[:1]), {}), ((g(5, 4), g(5, 4)), {}), ((P, N), dict(psr_depth=0)), ((P, N), dict(psr_screening_weight=-1.)), ((P, N), dict(method="x"))):
        _, exc = rec.run(gpy.point_cloud_to_mesh, *bad, **kw)
        rec.event("refuse", dict(what="points or options that do not fit together were accepted"), dict(raised=exc == "AssertionError"))
    rec.end()

    # ------------------------------------------------------------ trajectories
    def turn():
        q = np.linalg.qr(g(3, 3))[0]
        return q * np.sign(np.linalg.det(q))
    for n in range(30 * X):
        V, F = body(n % 5)
        k = int(rng.integers(2, 6))
        pos = [np.round(g(3) * 4) / 4 if n % 2 else g(3) for _ in range(k)]
        if n % 5 == 3:                                       # forth and back along one line
            d = np.round(g(3) * 2) + [0, 0, 3]
            pos = [d * t for t in [0, 1, 3, 2.5, 1][:k]]
        if n % 3 == 2 and n // 3 % 3 == 1:                   # against the reference direction, and back; or bending a little
            pos = [np.array([x, 0, 0]) for x in [0, -1, -3, -2, 1][:k]] if n // 9 % 2 else [np.array([-x, 0.02 * x * x, .01 * x]) for x in range(k)]
        if n % 3 == 2 and n // 3 % 3 == 2:                   # turning back, nearly
            d = g(3)
            pos = [t * d + .01 * j * g(3) for j, t in enumerate([0, 2, 3, 1.5, -1][:k])]
        dirs = [pos[1] - pos[0]] + [pos[j + 1] - pos[j - 1] for j in range(1, k - 1)] + [pos[-1] - pos[-2]]
        if min(np.linalg.norm(d) for d in dirs) < 1e-3:
            continue
        rot = [turn() for _ in range(k)] if n % 3 == 1 else None
        scales = [float(x) for x in rng.uniform(.3, 3, k)] if n % 4 > 1 else None
        whole = [np.vstack((g(3, 4), [[0, 0, 0, 1]])) for _ in range(k)] if n % 6 == 5 else None
        align = n % 3 == 2
        if n % 7 == 2:
            pos = [tuple(float(x) for x in p) for p in pos] if whole is None else pos
        got, o = {}, {}
        if n % 2:
            o.update(eps=.01 * (1 + n), num_seeds=5 + n, verbose=True)
        if n % 4 == 1:
            o["num_faces"] = 17

        def sweep(V_, F_, M, eps, seeds, verbose):
            strict((V_, f8), (F_, i4), (M, f8))
            got.update(M=M.copy(), plain=bool(np.array_equal(V_, V) and np.array_equal(F_, F) and eps == o.get("eps", .05) and seeds == o.get("num_seeds", 100) and verbose == o.get("verbose", False)))
            return np.full((3, 3), 7.), np.array([[0, 1, 2]], dtype=np.int32)

        def dec(V_, F_, m, method):
            strict((V_, f8), (F_, i4))
            got.update(dec=m == 17 and bool(np.all(V_ == 7.)))
            return np.full((3, 3), 8.), F_, np.zeros(1, dtype=np.int32), np.arange(3, dtype=np.int32)
        B._swept_volume_impl, B._decimate_cpp_impl = sweep, dec
        kw = dict(o)
        for key, val in (("transformations", whole), ("rotations", rot), ("scales", scales)):
            if val is not None:
                kw[key] = val
        if whole is None or n % 12 == 5:
            kw["translations"] = pos
        if align:
            kw["align_rotations_with_velocity"] = True
        before = snapshot((V, F, kw))
        rec.begin(f"sweep{n}")
        r, exc = rec.run(gpy.swept_volume, V, F, **kw)
        out = {}
        if not exc and "M" in got:
            last = 8. if "num_faces" in o else 7.
            out = dict(M=nums(got["M"]), plain=bool(got["plain"] and len(r) == 2 and np.all(r[0] == last) and ("num_faces" not in o or got.get("dec"))), same=snapshot((V, F, kw)) == before)
        rec.event("sweep", dict(pos=nums(np.array(pos)), rot=[] if rot is None else [nums(x) for x in rot], scales=[] if scales is None else [num(x) for x in scales], align=align,
                                whole=[] if whole is None else nums(np.vstack(whole))), out, exc or ("" if out else "nothing was swept"))
        rec.end()
