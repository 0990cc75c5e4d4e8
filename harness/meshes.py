"""Seeded mesh inputs.  Independent of the library under test."""
import itertools
import numpy as np


def relabel(rng, F, n=None, extra=0):
    """random renumbering (optionally with gaps), face order and rotation of corners"""
    F = np.asarray(F)
    n = int(F.max()) + 1 if n is None else n
    perm = rng.permutation(n + extra)[:n]
    G = perm[F]
    G = G[rng.permutation(len(G))]
    for i in range(len(G)):
        G[i] = np.roll(G[i], rng.integers(G.shape[1])) if G.shape[1] == 3 else G[i]
    return G, perm


def grid_tris(nx, ny):
    """triangulated (nx x ny cells) grid, consistently oriented"""
    v = lambda i, j: i * (ny + 1) + j
    F = []
    for i in range(nx):
        for j in range(ny):
            F += [[v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)]]
    V = [[i, j] for i in range(nx + 1) for j in range(ny + 1)]
    return np.array(V, dtype=float), np.array(F)


def torus_tris(a, b):
    v = lambda i, j: (i % a) * b + (j % b)
    F = []
    for i in range(a):
        for j in range(b):
            F += [[v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)]]
    t, s = 2 * np.pi * np.arange(a) / a, 2 * np.pi * np.arange(b) / b
    V = [[(3 + np.cos(q)) * np.cos(p), (3 + np.cos(q)) * np.sin(p), np.sin(q)] for p in t for q in s]
    return np.array(V), np.array(F)


def annulus_tris(a, b):
    """a around, b across; two boundary loops"""
    v = lambda i, j: (i % a) * (b + 1) + j
    F = []
    for i in range(a):
        for j in range(b):
            F += [[v(i, j), v(i + 1, j), v(i + 1, j + 1)], [v(i, j), v(i + 1, j + 1), v(i, j + 1)]]
    V = [[(1 + j) * np.cos(2 * np.pi * i / a), (1 + j) * np.sin(2 * np.pi * i / a), 0.0] for i in range(a) for j in range(b + 1)]
    return np.array(V), np.array(F)


TET = (np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]), np.array([[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]))
OCTA = (np.array([[1., 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]]),
        np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]))


def icosa():
    p = (1 + 5 ** .5) / 2
    V = np.array([[-1, p, 0], [1, p, 0], [-1, -p, 0], [1, -p, 0], [0, -1, p], [0, 1, p], [0, -1, -p], [0, 1, -p],
                  [p, 0, -1], [p, 0, 1], [-p, 0, -1], [-p, 0, 1]])
    F = np.array([[0, 11, 5], [0, 5, 1], [0, 1, 7], [0, 7, 10], [0, 10, 11], [1, 5, 9], [5, 11, 4], [11, 10, 2], [10, 7, 6], [7, 1, 8],
                  [3, 9, 4], [3, 4, 2], [3, 2, 6], [3, 6, 8], [3, 8, 9], [4, 9, 5], [2, 4, 11], [6, 2, 10], [8, 6, 7], [9, 8, 1]])
    return V, F


def disjoint(*ms):
    Vs, Fs, o = [], [], 0
    for V, F in ms:
        V = np.asarray(V, float)
        if V.shape[1] == 2:
            V = np.hstack([V, np.zeros((len(V), 1))])
        Vs.append(V + np.array([10.0 * len(Vs), 0, 0]))
        Fs.append(F + o)
        o += len(V)
    return np.vstack(Vs), np.vstack(Fs)


def edge_counts(F):
    d = {}
    for f in F:
        for a, b in ((f[0], f[1]), (f[1], f[2]), (f[2], f[0])):
            d.setdefault((min(a, b), max(a, b)), []).append((a, b))
    return d


def is_oriented_manifold(F, vertex=True):
    for k, v in edge_counts(F).items():
        if len(v) > 2 or (len(v) == 2 and v[0] == v[1]):
            return False
    if vertex:
        st = {}
        for i, f in enumerate(F):
            for c in f:
                st.setdefault(c, []).append(i)
        for v, fs in st.items():
            seen, todo = {fs[0]}, [fs[0]]
            while todo:
                i = todo.pop()
                for k in fs:
                    if k not in seen and len(set(F[i]) & set(F[k])) == 2:
                        seen.add(k)
                        todo.append(k)
            if len(seen) != len(fs):
                return False
    return True


def random_submesh(rng, F, keep):
    k = max(1, int(round(keep * len(F))))
    return F[np.sort(rng.permutation(len(F))[:k])]


def library(rng):
    """named (V,F): manifold oriented meshes"""
    out = [("tet", *TET), ("octa", *OCTA), ("icosa", *icosa()), ("tri", np.eye(3), np.array([[0, 1, 2]])),
           ("torus33", *torus_tris(3, 3)), ("torus45", *torus_tris(4, 5)), ("annulus", *annulus_tris(5, 2)), ("annulus31", *annulus_tris(3, 1))]
    for a, b in ((1, 1), (1, 3), (2, 3), (4, 4)):
        out.append((f"grid{a}{b}", *grid_tris(a, b)))
    out.append(("two", *disjoint(OCTA, grid_tris(2, 2))))
    out.append(("three", *disjoint(annulus_tris(4, 1), TET, grid_tris(1, 2))))
    return out


def random_manifold(rng, size=None, n_try=200):
    """random oriented edge- and vertex-manifold mesh with irregular boundary"""
    for _ in range(n_try):
        base = [grid_tris, torus_tris, annulus_tris][rng.integers(3)]
        V, F = base(int(rng.integers(3, 6)), int(rng.integers(3, 6)))
        if V.shape[1] == 2:
            V = np.hstack([V, np.zeros((len(V), 1))])
        F = random_submesh(rng, F, rng.uniform(0.3, 1.0))
        # drop faces until vertex manifold
        F = make_vertex_manifold(F)
        if len(F) and is_oriented_manifold(F):
            u, inv = np.unique(F, return_inverse=True)
            return V[u], inv.reshape(F.shape)
    return TET


def make_vertex_manifold(F):
    F = [list(map(int, f)) for f in F]
    ok = False
    while not ok and F:
        ok = True
        st = {}
        for i, f in enumerate(F):
            for c in f:
                st.setdefault(c, []).append(i)
        for v, fs in st.items():
            seen, todo = {fs[0]}, [fs[0]]
            while todo:
                i = todo.pop()
                for k in fs:
                    if k not in seen and len(set(F[i]) & set(F[k])) == 2:
                        seen.add(k)
                        todo.append(k)
            if len(seen) != len(fs):
                F = [f for i, f in enumerate(F) if i not in set(fs) - seen]
                ok = False
                break
    return np.array(F)


def cube_tets(nx, ny, nz):
    """5-free simple: 6 tets per cube, all positively oriented"""
    v = lambda i, j, k: (i * (ny + 1) + j) * (nz + 1) + k
    T = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for p in itertools.permutations(range(3)):
                    c = [i, j, k]
                    t = [v(*c)]
                    for a in p:
                        c[a] += 1
                        t.append(v(*c))
                    sign = np.linalg.det(np.eye(3)[list(p)])
                    if sign < 0:
                        t[0], t[1] = t[1], t[0]
                    T.append(t)
    V = [[i, j, k] for i in range(nx + 1) for j in range(ny + 1) for k in range(nz + 1)]
    return np.array(V, float), np.array(T)


def collide(rng, F, k=None):
    """Renumber F so that two of its edges, or two of its corners, share the integer i*K + j for a base K that one
    might take for large enough (number of faces, corners, referenced vertices, largest index)."""
    F = np.asarray(F)
    m, nu = len(F), len(np.unique(F))
    E = np.array(sorted(edge_counts(F)))
    if len(E) < 3 or nu < 5:
        return F
    for _ in range(60):
        e, f = E[rng.permutation(len(E))[:2]]
        if not set(e) & set(f):
            break
    else:
        return F
    e, f = rng.permutation(e), rng.permutation(f)
    bases = [m, 3 * m, 2 * m, nu, nu - 1, nu + 1, m + nu, len(E)]
    K = int(bases[(rng.integers(len(bases)) if k is None else k) % len(bases)])
    old = np.unique(F)
    for _ in range(200):
        j = int(rng.integers(0, K + 1))
        i = int(rng.integers(0, 2 * K))
        lab = [i + 1, j, i, j + K]
        if len(set(lab)) == 4 and (lab[0] < lab[1]) == (lab[2] < lab[3]):
            break
    else:
        return F
    new = dict(zip((*e, *f), lab))
    free = [x for x in rng.permutation(max(max(lab) + 1, nu + 4)) if x not in lab]
    for v in old:
        if v not in new:
            new[v] = int(free.pop())
    return np.vectorize(new.get)(F).reshape(F.shape)
