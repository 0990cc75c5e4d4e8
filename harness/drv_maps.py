import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums
import meshes as M


def corr(rec, A, B, axis):
    kw = {} if axis is None and rec.calls % 2 else {"axis": axis}
    rec.call("array_correspondence", {"A": nums(A), "B": nums(B), "sa": list(A.shape), "sb": list(B.shape), "axis": str(axis)},
             gpy.array_correspondence, A, B, **kw)


def unref(rec, V, F, maps):
    n = int(F.max()) + 1 if V is None else len(V)
    rec.call("remove_unreferenced", {"V": "None" if V is None else nums(V), "F": raw(F), "n": n, "maps": maps, "hasV": V is not None},
             gpy.remove_unreferenced, V, F, **({"return_maps": True} if maps else {}))


def dup(rec, V, eps, F, clusters=None):
    kw = {}
    if eps is not None:
        kw["epsilon"] = eps
    if F is not None:
        kw["faces"] = F
    rec.call("remove_duplicate_vertices", {"V": nums(V), "eps": nums(eps or 0.0), "F": "None" if F is None else raw(F),
                                           "hasF": F is not None, "hasC": clusters is not None,
                                           "clusters": [] if clusters is None else raw(clusters)},
             gpy.remove_duplicate_vertices, V, **kw)


def p07(rec, gen):
    rng = rec.rng("p07")
    mult = 6 if rec.thorough else 1
    g = gen["MC_Maps"]
    # every assignment of positions the model enumerated: as scalars and as rows
    for i, p in enumerate(g):
        p = np.array(p)
        rec.begin(f"enum-{i}")
        B = rng.permutation(4)[:int(rng.integers(0, 4))] + 1
        corr(rec, p, B, None)
        rows = np.stack([p, p % 2], axis=-1)
        corr(rec, rows, np.stack([B, B % 2], axis=-1).reshape(-1, 2), 0)
        dup(rec, np.stack([p * .5, -p * 1.0], axis=-1), None, None)
        rec.end()
    for k in range(60 * mult):
        rec.begin(f"corr-{k}")
        dt = [np.int64, np.int32, np.float64, np.float32][k % 4]
        hi = int(rng.integers(2, 40))
        mk = lambda *s: (rng.integers(-hi, hi, s) / (4 if dt in (np.float64, np.float32) else 1)).astype(dt)
        a, b = int(rng.integers(0, 40)), int(rng.integers(1, 40))
        corr(rec, mk(a), mk(b), None)
        corr(rec, mk(a), mk(b), 0)
        w = int(rng.integers(1, 5))
        hi = 3
        corr(rec, mk(a + 1, w), mk(b, w), 0)
        corr(rec, mk(a + 1, w), mk(b, w), -2)
        corr(rec, mk(w, a + 1), mk(w, b), 1)
        corr(rec, mk(w, a + 1), mk(w, b), -1)
        corr(rec, mk(a + 1, w), mk(b, w), None)
        corr(rec, mk(3, 3), mk(3, 3), None)
        # permutation with repetition: everything present, every index needed
        b = np.arange(11) * 3
        corr(rec, rng.permutation(np.concatenate([b, b[:5]])), rng.permutation(b), None)
        # rows that agree in all but one column
        R = np.stack([np.arange(6) // 2, np.arange(6) % 2, np.full(6, 7)], axis=-1)
        corr(rec, rng.permutation(R), rng.permutation(R)[:4], 0)
        rec.end()
    rec.begin("corr-mixed")
    corr(rec, np.array([1, 2, 3]), np.array([3.0, 2.5, 1.0]), None)
    corr(rec, np.array([1.5, 2, 3]), np.array([3, 2, 1]), None)
    corr(rec, np.array([-1, 0, 1]), np.array([1, -1]), None)
    corr(rec, np.zeros((0, 2), dtype=int), np.array([[1, 2]]), 0)
    corr(rec, np.array([[1, 2]]), np.zeros((0, 2), dtype=int), 0)
    corr(rec, np.array([2 ** 40, 2 ** 40 + 1]), np.array([2 ** 40 + 1, 5]), None)
    corr(rec, np.array([1e-300, 0.0, -0.0]), np.array([-0.0, 1e-300, 2e-300]), None)
    rec.end()
    for k in range(60 * mult):
        rec.begin(f"unref-{k}")
        w = [2, 3, 4][k % 3]
        n, m = int(rng.integers(w, 25)), int(rng.integers(1, 12))
        F = np.array([rng.permutation(n)[:w] for _ in range(m)])
        V = rng.integers(-9, 9, (n + int(rng.integers(0, 4)), 3)) / 8
        if k % 4 == 1:
            V = V[:, :2]
        if k % 5 == 1:
            F[rng.random(F.shape) < .3] = -1
            if (F < 0).all():
                F[0, 0] = 0
        if k % 4 == 2:
            F = F.astype(np.int32)
        unref(rec, V, F, False)
        unref(rec, V, F, True)
        unref(rec, None, F, True)
        rec.end()
    for k in range(60 * mult):
        rec.begin(f"dup-{k}")
        d = [2, 3, 1][k % 3] if k % 7 else 3
        nc, n = int(rng.integers(1, 14)), int(rng.integers(1, 30))
        C = rng.integers(-5, 6, (nc, d)).astype(float)
        C = np.unique(C, axis=0)
        cl = rng.integers(0, len(C), n)
        F = rng.integers(0, n, (int(rng.integers(1, 9)), [3, 2, 4][k % 3]))
        V = C[cl] / 3
        _, canon = np.unique(cl, return_inverse=True)
        dup(rec, V, None, F if k % 2 else None, canon)
        # jitter well inside one rounding cell: the cell centres are multiples of epsilon
        eps = [0.5, 1e-3, 2.0 ** -10, 1e-8][k % 4]
        far = [0, 0, 2 ** 33, 2 ** 41][int(rng.integers(4))] * rng.integers(-1, 2, d)     # far from the origin: |V| >> epsilon
        if k % 4 != 2:
            far = np.minimum(np.abs(far), 2 ** 33) * np.sign(far)
        jit = .4 if k % 4 == 2 or not far.any() else .25
        Vj = (C[cl] * 4 + far) * eps + rng.uniform(-jit, jit, (n, d)) * eps
        dup(rec, Vj, eps, F if k % 3 else None, canon)
        # arbitrary points against a coarse tolerance
        dup(rec, rng.normal(size=(n, d)), 0.7, F)
        rec.end()
