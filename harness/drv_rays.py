"""P18: ray casts."""
from fractions import Fraction as Fr
import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, enc, snapshot
import meshes as M
from drv_dist import rnd, quality


def pow2(x):
    x = abs(Fr(x))
    return x == 0 or (x.numerator & (x.numerator - 1) == 0 and x.denominator & (x.denominator - 1) == 0)


def det(d, T):
    d, (a, b, c) = [Fr(float(x)) for x in d], [[Fr(float(x)) for x in p] for p in T]
    u, v = [y - x for x, y in zip(a, b)], [y - x for x, y in zip(a, c)]
    p = [d[1] * v[2] - d[2] * v[1], d[2] * v[0] - d[0] * v[2], d[0] * v[1] - d[1] * v[0]]
    return sum(x * y for x, y in zip(u, p))


def coarse(*xs):
    """coordinates of few bits: sums and products of them are exact in doubles"""
    a = np.concatenate([np.ravel(x) for x in xs])
    return bool(np.all(a * 16 == np.round(a * 16)) and np.all(np.abs(a) <= 64))


def fl(x):
    return np.array([[float(Fr(y)) for y in p] for p in x]) if isinstance(x[0], list) else np.array([float(Fr(y)) for y in x])


def shift(rng, s, *pts):
    """powers of two keep lattice data exact"""
    f = 2.0 ** int(rng.integers(-12, 13)) if s else 1.
    return [p * f for p in pts]


def box(rec, o, d, c, w, exact=None):
    i = {"o": nums(o), "d": nums(d), "c": nums(c), "w": nums(w)}
    s = snapshot((o, d, c, w))
    v, exc = rec.run(gpy.ray_box_intersect, o, d, c, w)
    same = s == snapshot((o, d, c, w)) and not (not exc and any(np.shares_memory(v[1], x) for x in (o, d, c, w)))
    rec.event("box", {**i, "exact": bool(exact if exact is not None else coarse(o, c, w / 2) and all(map(pow2, d)) and coarse(d)), "same": same}, enc(v), exc)


def tri(rec, o, d, T, neg=False, ex=None):
    s = snapshot((o, d, T))
    v, exc = rec.run(gpy.ray_triangle_intersect, o, d, T[0], T[1], T[2], **({"return_negative": True} if neg else {}))
    D = det(d, T)
    ex = coarse(o, d, T) if ex is None else ex
    rec.event("tri", {"o": nums(o), "d": nums(d), "T": nums(T), "exact": bool(ex and pow2(D) and D != 0), "neg": neg, "same": s == snapshot((o, d, T))}, enc(v), exc)


def mesh(rec, id, V, F, O, D):
    ex = []
    for o, d in zip(O, D):
        e = coarse(o, d, V) and all(map(pow2, d))
        ex.append(bool(e and all(pow2(det(d, V[f])) and det(d, V[f]) != 0 for f in F)))
    rec.begin(id)
    rec.event("scene", {"V": nums(V), "F": raw(F)}, enc(None))
    t, exc = rec.run(gpy.initialize_aabbtree, V, F=F)
    for what, kw in (("ray_mesh_intersect", {}), ("ray_mesh_intersect (given tree)", {} if exc else dict(C=t[0], W=t[1], CH=t[2], tri_ind=t[5]))):
        s = snapshot((O, D, V, F, kw))
        v, exc2 = rec.run(gpy.ray_mesh_intersect, O, D, V, F, use_embree=False, **kw)
        rec.event("mesh", {"o": nums(O), "d": nums(D), "exact": ex, "what": what, "same": s == snapshot((O, D, V, F, kw))}, enc(v), exc2)
    T, _ = rec.run(gpy.ray_mesh_intersect_precompute, V, F)
    for what, fn in (("ray_mesh_intersect (compiled)", lambda: gpy.ray_mesh_intersect(O, D, V, F)), ("ray_mesh_intersect (given intersector)", lambda: gpy.ray_mesh_intersect(O, D, V, F, intersector=T)),
                     ("ray_mesh_intersect_precompute", lambda: T.intersect(O, D))):
        s = snapshot((O, D, V, F))
        v, exc2 = rec.run(fn)
        rec.event("mesh", {"o": nums(O), "d": nums(D), "exact": ex, "what": what, "same": s == snapshot((O, D, V, F))}, enc(v), exc2)
    rec.end()


def poly(rec, o, d, V, E, mx=None, closed=False):
    ex = coarse(o, d, V) and all(map(pow2, d)) and len({abs(x) for x in d if x != 0}) == 1
    G = np.array([[i, (i + 1) % len(V)] for i in range(len(V))]) if E is None else E
    s = snapshot((o, d, V, G))
    kw = {} if E is None else {"EC": E}
    if mx is not None:
        kw["max_distance"] = mx
    v, exc = rec.run(gpy.ray_polyline_intersect, o, d, V, **kw)
    rec.event("poly", {"o": nums(o), "d": nums(d), "X": nums(V), "E": raw(G), "max": nums(100. if mx is None else mx), "exact": bool(ex), "same": s == snapshot((o, d, V, G))}, enc(v), exc)


def p18(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p18")
    # lattice boxes enumerated by the model
    g = gen.get("MC_Rays_box2", [])
    for b, i in enumerate(np.array_split(rng.permutation(len(g))[:len(g) if rec.thorough else 500], 40)):
        rec.begin(f"lattice-box{b}")
        for j in i:
            o, d, lo, hi = (fl(x) for x in g[j])
            box(rec, *shift(rng, False, o), d * 2.0 ** int(rng.integers(-3, 3)), (lo + hi) / 2, hi - lo)
        rec.end()
    for b in range(25 * mult):
        rec.begin(f"box3d-{b}")
        for k in range(12):
            dim = 2 + (k % 4 > 0)
            if k % 3:                                   # axis-aligned, dyadic: every boundary case is exact
                lo = rng.integers(-2, 3, dim).astype(float)
                w = rng.integers(0, 4, dim).astype(float)
                o = lo + np.array([rng.choice([-2, -1, 0, .5 * x, x, x + 1, x + 2]) for x in w])
                d = rng.choice([-2., -1, 0, 0, 1, 2, .5], dim)
                if not d.any():
                    continue
                f, = shift(rng, False, 1.)
                box(rec, o, d, lo + w / 2, w)
            else:
                f = 2.0 ** int(rng.integers(-15, 15)) if k % 2 else 1.
                c, w = rnd(rng, dim), np.abs(rnd(rng, dim)) + .05
                o = c + rng.normal(size=dim) * w * rng.choice([.3, 1, 4])
                tgt = c + rng.uniform(-.7, .7, dim) * w
                d = (tgt - o) * rng.choice([1, 1, -1, .01, 50])
                box(rec, o * f, d * 2.0 ** int(rng.integers(-9, 9)), c * f, w * f, exact=False)
        rec.end()
    # triangles
    g = gen.get("MC_Rays_tri", [])
    for b, i in enumerate(np.array_split(rng.permutation(len(g))[:len(g) if rec.thorough else 600], 40)):
        rec.begin(f"lattice-tri{b}")
        for j in i:
            o, d, T = fl(g[j][0]), fl(g[j][1]), fl(g[j][2])
            tri(rec, o, d, np.roll(T, int(rng.integers(3)), axis=0), neg=bool(rng.integers(3) == 0))
        rec.end()
    for b in range(30 * mult):
        rec.begin(f"tri{b}")
        for k in range(6):
            T = rnd(rng, 3, 3)
            if quality(T, np.array([[0, 1, 2]])) < 1e-3:
                continue
            f = 2.0 ** int(rng.integers(-24, 20)) if k % 2 else 1.
            lam = rng.dirichlet(np.ones(3)) if k % 3 else rng.normal(size=3)
            tgt = (lam / lam.sum()) @ T if abs(lam.sum()) > .2 else T.mean(0)
            o = rnd(rng, 3, s=2)
            d = (tgt - o) * rng.choice([1, 1, 3, .1, -1]) * 2.0 ** int(rng.integers(-6, 6))
            tri(rec, o * f, d * (f if k % 4 < 2 else 1.), T * f, neg=bool(k % 3 == 1), ex=False)
        rec.end()
    # meshes
    for b in range(30 * mult):
        c = b % 6
        if c == 0:
            V, F = gpy_cube()
        elif c == 1:
            V, F = M.OCTA
        elif c == 2:
            V, F = M.grid_tris(int(rng.integers(1, 4)), 2)
            V = np.hstack([V, np.zeros((len(V), 1)) if b % 4 == 0 else rnd(rng, len(V), 1, s=.4)])
        elif c == 3:
            V, F = M.icosa()
        elif c == 4:
            V = rnd(rng, 8, 3)
            F = np.array([rng.permutation(8)[:3] for _ in range(int(rng.integers(1, 9)))])
            if quality(V, F) < 1e-4:
                continue
        else:
            V, F = M.TET
            V, F = M.disjoint((V, F), (V, F)) if b % 4 else (V, F)
            V = V * np.array([.25, 1, 1])
        lattice = c in (0, 1, 5) and b % 12 < 6
        if not lattice and c != 2:
            V = V + rnd(rng, *V.shape, s=.05)
        F = F[rng.permutation(len(F))]
        F = np.array([np.roll(f, int(rng.integers(3))) for f in F])
        n = 10
        if lattice:
            O = np.round(rng.uniform(-3, 3, (n, 3)) * 2) / 2
            D = rng.choice([-1., 0, 1, 2], (n, 3))
            D[~D.any(axis=1)] = [0, 0, -1.]
        else:
            tri_ = V[F[rng.integers(len(F), size=n)]]
            tgt = np.einsum('nk,nkd->nd', rng.dirichlet(np.ones(3), n), tri_)
            O = tgt + rng.normal(size=(n, 3)) * rng.choice([.2, 1, 5], (n, 1))
            D = (tgt - O) * rng.choice([1., 1, -1, .1, 7], (n, 1))
            if b % 2:
                f = 2.0 ** int(rng.integers(-18, 18))
                V, O, D = V * f, O * f, D * (f if b % 4 == 1 else 1.)
        for k in (0, 3, 7):                             # along the axes, both ways, at the inside of a triangle
            q = rng.dirichlet(np.ones(3) * 3) @ V[F[int(rng.integers(len(F)))]]
            D[k] = 0
            D[k, int(rng.integers(3))] = rng.choice([-1., 1, -.5])
            q = np.round(q * 64) / 64 if np.abs(V).max() > .1 else q
            O[k] = q - D[k] * float(np.abs(V).max()) * rng.choice([.5, 3])
        mesh(rec, f"mesh{b}", V, F, O, D)
    # polylines
    for b in range(60 * mult):
        m = int(rng.integers(3, 9))
        c = b % 4
        lattice = c < 2
        V = np.round(rng.uniform(-3, 3, (m, 2))) if lattice else rnd(rng, m, 2)
        if b % 8 == 0:
            V = np.array([[1., 0], [0, 1], [-1, 0], [0, -1]])
        elif b % 8 == 1:
            V = np.array([[-1., -1], [-1, 1], [1, 1], [1, -1]])
        m = len(V)
        E = None if c % 2 == 0 else np.array([rng.permutation(m)[:2] for _ in range(int(rng.integers(1, 8)))])
        G = np.array([[i, (i + 1) % m] for i in range(m)]) if E is None else E
        if (np.linalg.norm(V[G[:, 0]] - V[G[:, 1]], axis=1) < 1e-3).any():
            continue
        f = 2.0 ** int(rng.integers(-20, 5)) if c == 2 else 1.
        rec.begin(f"poly{b}")
        for k in range(8):
            if lattice:
                o = np.round(rng.uniform(-4, 4, 2) * 2) / 2
                d = rng.choice([-1., 0, 1], 2) * rng.choice([1, 2, .25])
                if not d.any():
                    d = np.array([0., 1.])
            else:
                o = rnd(rng, 2, s=1.5)
                e = G[int(rng.integers(len(G)))]
                s = rng.uniform(-.2, 1.2)
                d = (V[e[0]] * (1 - s) + V[e[1]] * s - o) * rng.choice([1., 1, .05, 9, -1])
                if k % 3 == 0:
                    d = d / np.linalg.norm(d)
            if k in (2, 5) and (lattice or k == 5):      # along an edge
                e = G[int(rng.integers(len(G)))]
                d = V[e[1]] - V[e[0]]
                o = V[e[0]] + d * rng.choice([-2., -1, -.5, 2, 1.5])
                d = d * rng.choice([1., -1, .5])
            mx = None if k % 2 else float(rng.choice([.5, 1.5, 3.])) * f
            if f > 1 or f < .01:
                d = d * f if k % 2 else d
            if k == 7 and not lattice and E is None:     # far origins: beyond the default maximal distance
                o = o * 90
                d = -o * rng.choice([.002, .02, 1])
            poly(rec, o * f, d, V * f, E, mx)
        rec.end()


def gpy_cube():
    V = np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)])
    F = np.array([[0, 1, 3], [0, 3, 2], [4, 6, 7], [4, 7, 5], [0, 4, 5], [0, 5, 1], [2, 3, 7], [2, 7, 6], [0, 2, 6], [0, 6, 4], [1, 5, 7], [1, 7, 3]])
    return V, F
