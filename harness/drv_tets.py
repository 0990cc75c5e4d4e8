"""P42: upper envelopes of tet meshes, with upper_envelope.cpp compiled from the sources."""
from fractions import Fraction
import numpy as np
import gpytoolbox as gpy
from vlib import nums, snapshot

EVEN = [(0, 1, 2, 3), (1, 2, 0, 3), (2, 0, 1, 3), (0, 2, 3, 1), (1, 0, 3, 2), (3, 2, 1, 0), (2, 3, 0, 1), (1, 3, 2, 0)]


def parents(V, T, U, G):
    """for each piece the input tet that holds it best"""
    A = V[T[:, 0]]
    M = np.linalg.inv(np.stack([V[T[:, j]] - A for j in (1, 2, 3)], axis=2))
    out = []
    for g in G:
        if g.min() < 0 or g.max() >= len(U):
            out.append(1)
            continue
        y = np.einsum("tij,qtj->qti", M, U[g][:, None, :] - A[None])
        b = np.concatenate([1 - y.sum(2, keepdims=True), y], axis=2)
        out.append(int(np.argmax(b.min(axis=(0, 2)))) + 1)
    return out


def p42(rec, gen):
    X = 4 if rec.thorough else 1
    rng = rec.rng("tets")

    def slice_(id, V, T, D):
        rec.begin(id)
        before = snapshot((V, T, D))
        r, exc = rec.run(gpy.upper_envelope, V, T, D)
        inp = dict(V=nums(np.asarray(V, dtype=float)), T=np.asarray(T).tolist(), D=nums(np.asarray(D, dtype=float)), k=int(D.shape[1]), par=[])
        out = {}
        if not exc:
            try:
                U, G, L = (np.asarray(a) for a in r)
                ok = U.ndim == 2 and U.shape[1] == 3 and G.ndim == 2 and G.shape[1] == 4 and G.dtype.kind in "iu" and L.shape == (G.shape[0], D.shape[1]) and L.dtype.kind in "biu" and bool(np.all(np.isfinite(U)))
                out = dict(shapes=ok, U=nums(U) if ok else [], G=G.tolist() if ok else [], L=L.astype(int).tolist() if ok else [], same=snapshot((V, T, D)) == before)
                inp["par"] = parents(np.asarray(V, dtype=float), np.asarray(T), U, G) if ok else []
            except Exception:
                exc = "result"
        rec.event("slice", inp, out, exc)
        rec.end()

    def corner():
        while True:
            V = rng.integers(-5, 6, (4, 3)).astype(float)
            v = np.linalg.det(V[1:] - V[0])
            if abs(v) > 3:
                return V if v > 0 else V[[1, 0, 2, 3]]

    # the configurations of the models: one tetrahedron, or a fan over a triangle
    for n, D in enumerate(gen["MC_Envelope"][::1 if rec.thorough else 3]):
        D = np.array(D, dtype=float)
        V = corner()
        if n % 2:
            V = V @ rng.normal(size=(3, 3))
            if np.linalg.det(V[1:] - V[0]) < 0:
                V[:, 0] *= -1
        slice_(f"model{n}", V, np.array([EVEN[n % len(EVEN)]], dtype=[np.int64, np.int32][n % 2]), D)
    for n, D in enumerate(gen["MC_Envelope3"]):
        D = np.array(D, dtype=float)
        V = np.array([[0, 0, 0], [4, 0, 0], [0, 4, 0], [1, 1, 3], [1, 1, -3]], dtype=float)
        T = np.array([[0, 1, 2, 3], [0, 2, 1, 4]])
        more = D[rng.integers(0, 3, 2)] + rng.integers(-1, 2, (2, 3))
        slice_(f"fan{n}", V, T, np.concatenate([D, more])[:, rng.permutation(3)])

    # grids of tetrahedra: integer and real values, distances, ties, unused materials
    sizes = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 2)]
    for n in range(14 * X):
        s = sizes[n % len(sizes)] if not rec.thorough or n % 5 else (3, 3, 3)
        V, T = gpy.regular_cube_mesh(*s, type=["rotationally-symmetric", "reflectionally-symmetric", "hex"][0])
        vol = np.linalg.det(V[T[:, 1:]] - V[T[:, :1]])
        T = np.where((vol < 0)[:, None], T[:, [0, 1, 3, 2]], T)
        if n % 3 == 1:
            V = V + .1 / max(s) * rng.normal(size=V.shape)
            if np.linalg.det(V[T[:, 1:]] - V[T[:, :1]]).min() < 1e-3:
                continue
        T = T[rng.permutation(len(T))]
        k = [2, 3, 2, 1, 4, 2, 5][n % 7]
        if k > 2:
            T = T[:(6 if k == 3 else 2)]
            V, T = V[np.unique(T)], np.searchsorted(np.unique(T), T)
        kind = n % 4
        D = rng.integers(-2, 3, (len(V), k)).astype(float) if kind == 0 else rng.normal(size=(len(V), k)) if kind == 1 else \
            -np.linalg.norm(V[:, None] - rng.random((k, 3))[None], axis=2) if kind == 2 else rng.integers(0, 2, (len(V), k)).astype(float)
        if k > 2 and n % 2:
            D[:, rng.integers(k)] = -5.
        slice_(f"grid{n}", V, T, D)

    # nothing to cut: constant values, one label everywhere, values that touch in corners and faces
    V, T = gpy.regular_cube_mesh(2)
    vol = np.linalg.det(V[T[:, 1:]] - V[T[:, :1]])
    T = np.where((vol < 0)[:, None], T[:, [0, 1, 3, 2]], T)
    for n in range(6):
        D = np.zeros((len(V), 2 + n % 2))
        if n in (1, 2):
            D[:, 1] = 1.
        if n == 3:
            D[:, 0] = V[:, 0]
        if n == 4:
            D[:, 0], D[:, 1] = V[:, 0], V[:, 1]
        if n == 5:
            D[:, 1] = -V[:, 2]
        slice_(f"plain{n}", V, T.astype(np.int32) if n % 2 else T, D)
    # small differences of large values (single precision would lose them), far away
    for n in range(4 * X):
        V = corner() + 0.
        slice_(f"large{n}", V + (2. ** 14 if n % 2 else 0), np.array([[0, 1, 2, 3]]), 2. ** 20 + rng.integers(-8, 9, (4, 2 + n % 2)) / 64.)
    # integer coordinates and values
    for n in range(3):
        slice_(f"int{n}", np.array([[0, 0, 0], [2, 0, 0], [0, 3, 0], [0, 0, 4]]), np.array([[0, 1, 2, 3]]), rng.integers(-3, 4, (4, 3)))
