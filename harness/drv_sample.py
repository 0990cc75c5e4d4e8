"""P28: sampling of polylines and triangle meshes."""
import numpy as np
import gpytoolbox as gpy
from vlib import nums, raw, snapshot, enc
from drv_search import Draws


def one(rec, V, F, n, w, seed, stat, script=()):
    kw = {} if w is None else {"per_element_likelihood": w}
    b = snapshot([V, F, w])
    v, exc = rec.run(gpy.random_points_on_mesh, V, F, n, rng=Draws(seed, script) if script else np.random.default_rng(seed), return_indices=True, **kw)
    rec.event("sample", {"V": nums(V), "F": raw(F), "n": n, "w": nums(np.ones(len(F)) if w is None else w), "stat": stat, "same": snapshot([V, F, w]) == b}, enc(v), exc)
    if exc:
        return
    x, exc = rec.run(gpy.random_points_on_mesh, V, F, n, rng=Draws(seed, script) if script else np.random.default_rng(seed), **kw)
    rec.event("same", {"equal": bool(not exc and isinstance(x, np.ndarray) and np.array_equal(x, v[0]))}, [], exc)


def mesh(rng, k, m, d, degenerate):
    nv = int(rng.integers(max(k, 3), 10))
    V = rng.integers(-4, 5, (nv, d)) / 2. if rng.random() < .6 else rng.standard_normal((nv, d)) * 10. ** int(rng.integers(-3, 4))
    F = []
    while len(F) < m:
        f = rng.permutation(nv)[:k]
        s = V[f[1]] - V[f[0]]
        if k == 2:
            good = np.linalg.norm(s) > 1e-3
        else:
            t = V[f[2]] - V[f[0]]
            g = (s @ s) * (t @ t) - (s @ t) ** 2
            good = g > 1e-3 * (s @ s) * (t @ t)
        if good:
            F.append(f)
        elif rng.random() < .2:
            V = rng.standard_normal((nv, d)); F = []
    F = np.array(F)
    for i in range(len(F)):
        if degenerate and i and rng.random() < .4:
            F[i, -1] = F[i, 0]
    return V, F


def p28(rec, gen):
    rng = rec.rng("p28")
    for t in range(120 if rec.thorough else 40):
        k, d = 2 + t % 2, 2 + (t // 2) % 2
        m = int(rng.integers(1, 9))
        V, F = mesh(rng, k, m, d, t % 4 == 1)
        w = None if t % 3 == 0 else rng.integers(0, 4, m).astype(float)
        if w is not None:
            if t % 5 == 1:
                w = w.astype(int)
            i = 0 if t % 4 == 1 else int(rng.integers(m))
            w[i] = 2
        n = int(rng.integers(1, 40))
        script = [] if t % 2 else list(rng.choice([0., 1 - 2. ** -53, .5, .25, 2. ** -53], 3 * n))
        rec.begin(f"small{t}")
        one(rec, V, F, n, w, int(rng.integers(1 << 30)), False, script)
        rec.end()
    for t in range(36 if rec.thorough else 12):
        k, d = 2 + t % 2, 2 + (t // 2) % 2
        m = int(rng.integers(1, 7)) if t % 4 else 1
        V, F = mesh(rng, k, m, d, t % 6 == 5)
        w = None if t % 3 == 0 else rng.integers(0, 6, m) / 2.
        if w is not None:
            w[0] = 3
        rec.begin(f"stat{t}")
        one(rec, V, F, 4000 if rec.thorough else 2500, w, int(rng.integers(1 << 30)), True)
        rec.end()
