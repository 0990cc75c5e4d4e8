import itertools
import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, enc, snapshot
import meshes as M


def rnd(rng, *sh, bits=6, s=1.0):
    return np.round(rng.normal(size=sh) * s * 2 ** bits) / 2 ** bits


def quality(V, F):
    if F.shape[1] == 1:
        return 1.
    if F.shape[1] == 2:
        l = np.linalg.norm(V[F[:, 0]] - V[F[:, 1]], axis=1)
        return l.min() / max(l.max(), 1e-300)
    u, v = V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]]
    a, b, c = (u * u).sum(1), (v * v).sum(1), (u * v).sum(1)
    m = max(a.max(), b.max())
    return min(((a * b - c * c) / (a * b + 1e-300)).min(), min(a.min(), b.min()) / m)


def point_cases(rec, rng, mult):
    """(id, V, F or None, P)"""
    k = n = 0
    while n < 44 * mult:
        k += 1
        d = [2, 3][k % 2]
        s = [1, 2, 3][(k // 2) % 3]
        if s == 3:
            d = 3
        nv = int(rng.integers(s, 12))
        V = rnd(rng, nv, d)
        F = np.array([rng.permutation(nv)[:s] for _ in range(int(rng.integers(1, 12)))])
        c = k % 5
        if c == 1:
            V = V * 2.0 ** int(rng.integers(8, 30))
        elif c == 2:
            V = V * 2.0 ** -int(rng.integers(4, 20))
        elif c == 3:
            V = V + rnd(rng, d, bits=2, s=100)
        elif c == 4:
            V = np.round(V * 2)
        if s == 3 and k % 4 == 0:
            V, F = M.icosa() if k % 8 else M.grid_tris(2, 2)
            V = np.hstack([V, rnd(rng, len(V), 1)]) if V.shape[1] == 2 else V + 0.
            V = np.round(V * 64) / 64
        if quality(V, F) < 1e-5 if s == 3 else quality(V, F) < 1e-6:
            continue
        ext = np.ptp(V, axis=0).max() or 1.
        P = []
        for q in range(10):
            m = q % 5
            f = F[int(rng.integers(len(F)))]
            lam = rng.dirichlet(np.ones(s))
            lam = np.round(lam * 64) / 64
            if m == 0:
                p = V[f].mean(0) + rng.normal(size=d) * ext * .1
            elif m == 1:
                p = lam @ V[f]                          # on an element
            elif m == 2:
                p = V[f[0]].copy()                      # at a vertex
            elif m == 3:
                p = V[f].mean(0) + rng.normal(size=d) * ext * 3
            else:
                p = V[f[0]] + (V[f[-1]] - V[f[0]]) * rng.uniform(-1, 2) + rng.normal(size=d) * ext * .02
            P.append(p)
        n += 1
        yield f"rnd{k}-{d}d-s{s}", V, (None if s == 1 and k % 3 else F), np.array(P)
    # one triangle / one edge: all regions of the closest-point case analysis
    for t in range(16 * mult):
        d, s = (3, 3) if t % 4 else (2 + t % 2, 2)
        V = rnd(rng, s, d)
        if s == 3 and t % 3 == 0:                       # obtuse, thin
            V = np.array([[0., 0, 0], [4, 0, 0], [rng.choice([-2, 5, 2]), rng.choice([.25, 1]), .5]])[rng.permutation(3)]
        F = np.array([rng.permutation(s)])
        if quality(V, F) < 1e-3:
            continue
        g = np.array(list(itertools.product([-2.3, -.6, .3, 1.2, 2.7], repeat=2)))
        if s == 3:
            u, v = V[1] - V[0], V[2] - V[0]
            P = V[0] + g[:, :1] * u + g[:, 1:] * v + np.cross(u, v) * rng.normal(size=(len(g), 1))
        else:
            P = V[0] + g[:, :1] * (V[1] - V[0]) + rng.normal(size=(len(g), d))
        yield f"regions{t}-s{s}", V, F, P
    # degenerate edges, duplicated points
    for d in (2, 3):
        V = rnd(rng, 4, d)
        V[3] = V[0]
        yield f"degenerate-edge-{d}d", V, np.array([[0, 3], [1, 2]]), rnd(rng, 8, d, s=2)
        yield f"duplicate-points-{d}d", V, None, rnd(rng, 8, d, s=2)


def p16(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p16")

    def q(what, fn, *a, sqrt=False, **kw):
        s = snapshot([a, kw])
        v, exc = rec.run(fn, *a, **kw)
        rec.event("query", {"what": what, "sqrt": sqrt, "same": s == snapshot([a, kw])}, enc(v), exc)
    for id, V, F, P in point_cases(rec, rng, mult):
        rec.begin(id)
        G = np.arange(len(V))[:, None] if F is None else F
        rec.event("setup", {"X": nums(V), "F": raw(G), "P": nums(P)}, enc(None))
        kw = {} if F is None else {"F": F}
        q("squared_distance", gpy.squared_distance, P, V, **kw)
        q("squared_distance (tree)", gpy.squared_distance, P, V, use_aabb=True, **kw)
        v, exc = rec.run(gpy.initialize_aabbtree, V, **kw)
        if not exc:
            C, W, CH, PAR, D, tri, sd = v
            q("squared_distance (given tree)", gpy.squared_distance, P, V, use_aabb=True, C=C, W=W, CH=CH, tri_ind=tri, split_dir=sd, **kw)
        q("squared_distance (compiled)", gpy.squared_distance, P, V, use_cpp=True, **kw)
        T, exc = rec.run(gpy.squared_distance_precompute, V, G)
        if T is not None:
            q("squared_distance (given compiled tree)", lambda: gpy.squared_distance(P, V, use_cpp=True, cpp_aabb=T, **kw))
            v, exc = rec.run(T.squared_distance, P)
            rec.event("tree", {"V": nums(T.V), "F": raw(T.F), "dim": int(T.dim)}, enc(v), exc)
        if F is not None:
            q("unsigned_distance", gpy.unsigned_distance, P, V, F, sqrt=True, use_cpp=False)
            q("unsigned_distance (compiled)", gpy.unsigned_distance, P, V, F, sqrt=True)
            q("unsigned_distance (given compiled tree)", lambda: gpy.unsigned_distance(P, V, F, cpp_aabb=T), sqrt=True)
        for j in rng.permutation(len(P))[:6]:
            for i in rng.permutation(len(G))[:3]:
                rec.call("element", {"q": int(j), "i": int(i)}, gpy.squared_distance_to_element, P[j], V, G[i])
        rec.end()
    for k in range(8 * mult):                           # ordered closed polyline without F
        n = int(rng.integers(3, 9))
        V, P = rnd(rng, n, 2), rnd(rng, 6, 2, s=1.5)
        rec.begin(f"closed{k}")
        rec.event("setup", {"X": nums(V), "F": [[i, (i + 1) % n] for i in range(n)], "P": nums(P)}, enc(None))
        q("unsigned_distance", gpy.unsigned_distance, P, V, sqrt=True, use_cpp=False)
        q("unsigned_distance (compiled)", gpy.unsigned_distance, P, V, sqrt=True)
        T, exc = rec.run(gpy.squared_distance_precompute, V)
        if T is not None:
            v, exc = rec.run(T.squared_distance, P)
            rec.event("tree", {"V": nums(T.V), "F": raw(T.F), "dim": int(T.dim)}, enc(v), exc)
        rec.end()
    for k in range(24 * mult):
        d, n = 2 + k % 2, int(rng.integers(1, 7))
        a, b, c, p = (rnd(rng, n, d) for _ in range(4))
        if quality(np.vstack([a, b, c]), np.arange(3 * n).reshape(3, n).T) < 1e-4:
            continue
        if k % 3 == 1:
            lam = rng.dirichlet(np.ones(3), n)
            p = lam[:, :1] * a + lam[:, 1:2] * b + lam[:, 2:] * c
        sc = 2.0 ** int(rng.integers(-20, 20)) if k % 4 == 0 else 1.
        a, b, c, p = a * sc, b * sc, c * sc, p * sc
        i = {"p": nums(p), "a": nums(a), "b": nums(b), "c": nums(c)}
        rec.begin(f"bary{k}-{d}d")
        rec.call("bary", i, gpy.barycentric_coordinates, p, a, b, c)
        rec.call("bary", {x: y[:1] for x, y in i.items()}, gpy.barycentric_coordinates, p[0], a[0], b[0], c[0])
        rec.end()


PERM = list(itertools.permutations(range(3)))


def p17(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p17")
    # segments
    for k in range(150 * mult):
        Q = np.round(rng.uniform(-2, 2, (4, 3))) if k % 3 == 0 else rnd(rng, 4, 3)
        c = k % 10
        if c == 1:
            Q[3] = Q[2] + (Q[1] - Q[0]) * 2              # parallel
        elif c == 2:
            Q[2], Q[3] = Q[0] + (Q[1] - Q[0]) * .25, Q[0] + (Q[1] - Q[0]) * 3      # overlapping
        elif c == 3:
            Q[2] = (Q[0] + Q[1]) / 2                     # touching
        elif c == 4:
            Q[1] = Q[0]                                  # point
        elif c == 5:
            Q[3] = Q[2]
        elif c == 6:
            Q = Q * 2.0 ** int(rng.integers(-30, 30))
        elif c == 7:
            Q[3] = Q[2] + (Q[1] - Q[0]) + rng.normal(size=3) * 1e-5   # nearly parallel
        rec.begin(f"edge{k}")
        for a, b, c_, d in ((0, 1, 2, 3), (2, 3, 0, 1), (1, 0, 3, 2)):
            rec.call("edge", dict(a=nums(Q[a]), b=nums(Q[b]), c=nums(Q[c_]), d=nums(Q[d])), gpy.edge_edge_distance, Q[a], Q[b], Q[c_], Q[d])
        rec.end()

    def tritri(id, S, T, lattice, n=3):
        rec.begin(id)
        for r in range(n):
            a, b = S[list(PERM[int(rng.integers(6))])], T[list(PERM[int(rng.integers(6))])]
            if r % 2:
                a, b = b, a
            rec.call("tritri", {"S": nums(a), "T": nums(b), "lattice": lattice}, gpy.triangle_triangle_distance, *a, *b)
        rec.end()
    g = gen.get("MC_DistGeo_tri", [])
    for i in sorted(rng.permutation(len(g))[:len(g) if rec.thorough else 450].tolist()):
        S, T = (np.array([[float(x) for x in p] for p in t]) for t in g[i])
        tritri(f"lattice{i}", S, T, True, 2)
    k = n = 0
    while n < 150 * mult:
        k += 1
        S, T = rnd(rng, 3, 3), rnd(rng, 3, 3)
        m = k % 6
        if m == 1:
            T = T + rnd(rng, 3) * 3
        elif m == 2:                                     # vertex above a face
            w = rng.dirichlet(np.ones(3) * 4) @ S
            nn = np.cross(S[1] - S[0], S[2] - S[0])
            T = np.array([w + nn * .3, w + nn * (1 + abs(rng.normal())) + rng.normal(size=3) * .3, w + nn * 1.5 + rng.normal(size=3) * .3])
        elif m == 3:                                     # parallel, stacked
            T = S * rng.choice([.5, 1., 2.]) + np.cross(S[1] - S[0], S[2] - S[0]) * rng.choice([.25, 1.])
        elif m == 4:                                     # shared vertex
            T[int(rng.integers(3))] = S[int(rng.integers(3))]
        elif m == 5:                                     # piercing
            w = rng.dirichlet(np.ones(3)) @ S
            nn = np.cross(S[1] - S[0], S[2] - S[0])
            T = np.array([w + nn * .5, w - nn * .7, w + nn + rng.normal(size=3)])
        if (k // 6) % 3 == 2:
            f = 2.0 ** int(rng.integers(-28, 28))
            S, T = S * f, T * f
        if min(quality(S, np.array([[0, 1, 2]])), quality(T, np.array([[0, 1, 2]]))) < 1e-3:
            continue
        n += 1
        tritri(f"tri{k}", S, T, False)
    # meshes
    k = n = 0
    while n < 22 * mult:
        k += 1

        def mesh():
            c = int(rng.integers(4))
            if c == 0:
                V, F = M.TET
            elif c == 1:
                V, F = M.grid_tris(int(rng.integers(1, 3)), 2)
                V = np.hstack([V, rnd(rng, len(V), 1)])
            elif c == 2:
                V, F = M.OCTA
            else:
                V = rnd(rng, 7, 3)
                F = np.array([rng.permutation(7)[:3] for _ in range(int(rng.integers(1, 7)))])
            return V + rnd(rng, *V.shape, s=.1), F
        (X1, F1), (X2, F2) = mesh(), mesh()
        X2 = X2 + rnd(rng, 3) * rng.choice([0, 1.5, 3, 8])
        if k % 4 == 1:
            f = 2.0 ** int(rng.integers(-20, 26))
            X1, X2 = X1 * f, X2 * f
        if min(quality(X1, F1), quality(X2, F2)) < 1e-3:
            continue
        n += 1
        i = dict(X1=nums(X1), F1=raw(F1), X2=nums(X2), F2=raw(F2))
        rec.begin(f"mesh{k}")
        rec.call("mindist", i, gpy.minimum_distance, X1, F1, X2, F2)
        rec.call("hausdorff", i, gpy.approximate_hausdorff_distance, X1, F1, X2, F2, use_cpp=False)
        rec.call("hausdorff", i, gpy.approximate_hausdorff_distance, X1, F1, X2, F2)
        rec.call("hausdorff", dict(X1=i["X2"], F1=i["F2"], X2=i["X1"], F2=i["F1"]), gpy.approximate_hausdorff_distance, X2, F2, X1, F1, use_cpp=False)
        rec.end()
    for k in range(24 * mult):                           # 2D polylines
        def poly():
            m = int(rng.integers(2, 9))
            V = rnd(rng, m, 2)
            E = np.stack([np.arange(m), (np.arange(m) + 1) % m], 1) if k % 2 and m > 2 else np.stack([np.arange(m - 1), np.arange(1, m)], 1)
            return V, E
        (X1, F1), (X2, F2) = poly(), poly()
        X2 = X2 * 2.0 ** int(rng.integers(-3, 4)) + rnd(rng, 2) * rng.choice([0, 2, 10])
        if min(quality(X1, F1), quality(X2, F2)) < 1e-4:
            continue
        rec.one(f"poly{k}", "hausdorff", dict(X1=nums(X1), F1=raw(F1), X2=nums(X2), F2=raw(F2)), gpy.approximate_hausdorff_distance, X1, F1, X2, F2, use_cpp=bool(k % 3))
