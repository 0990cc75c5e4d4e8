import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums
import meshes as M


def min_quality(V, F):
    """4 sqrt(3) area / sum of squared sides; 1 = equilateral"""
    P = V[F]
    a, b = P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]
    g = (a ** 2).sum(1) * (b ** 2).sum(1) - (a * b).sum(1) ** 2
    s = sum(((P[:, (j + 1) % 3] - P[:, j]) ** 2).sum(1) for j in range(3))
    return (2 * np.sqrt(3) * np.sqrt(np.maximum(g, 0)) / s).min()


def geo(rng, V, F, d=3, jitter=.12, q=.2, bits=10):
    """perturbed positions on a dyadic grid, no sliver triangles"""
    V = np.asarray(V, float)
    if V.shape[1] < d:
        V = np.hstack([V, np.zeros((len(V), d - V.shape[1]))])
    if V.shape[1] > d:
        V = V[:, :d]
    for _ in range(50):
        W = V + rng.uniform(-jitter, jitter, V.shape) * np.array([1.0, 1.0, 2.0][:d])
        W = np.round(W * 2 ** bits) / 2 ** bits
        if min_quality(W, F) > q:
            return W
    return V


def geo_meshes(rec, what, n_rand, closed=True, planar=True):
    """(id, V, F) oriented manifold meshes with geometry; every vertex referenced unless id says 'pad'"""
    rng = rec.rng("geo", what)
    out = []
    for nm, V, F in M.library(rng):
        out.append((f"{nm}-3d", geo(rng, V, F, 3), F))
        if nm.startswith("grid") or nm == "tri" or nm.startswith("annulus"):
            out.append((f"{nm}-2d", geo(rng, V[:, :2], F, 2), F))
        if nm in ("grid23", "octa", "grid44"):
            out.append((f"{nm}-exact", np.asarray(V, float) if V.shape[1] == 3 else np.hstack([V, 0 * V[:, :1]]), F))
    V, F = M.grid_tris(3, 2)
    out.append(("grid32-exact2", V, F))      # right triangles
    for k in range(n_rand * (5 if rec.thorough else 1)):
        V, F = M.random_manifold(rng)
        d = 3
        if k % 3 == 0:
            V, F = M.grid_tris(int(rng.integers(1, 5)), int(rng.integers(1, 5)))
            F = M.make_vertex_manifold(M.random_submesh(rng, F, rng.uniform(.4, 1)))
            if not len(F):
                continue
            d = 2 if k % 2 else 3
        u, inv = np.unique(F, return_inverse=True)
        V, F = V[u], inv.reshape(F.shape)
        V = geo(rng, V, F, d, jitter=rng.uniform(.02, .25), q=.15)
        # rigid motion + scale
        if k % 4 == 1:
            V = V * 2.0 ** int(rng.integers(-24, 24))
        if k % 4 == 2:
            V = V + np.round(rng.uniform(-100, 100, V.shape[1]) * 8) / 8
        if k % 4 == 3:
            V = V * np.array([1.0, 2.5, 1.5])[:d]     # obtuse triangles
        G, perm = M.relabel(rng, F, n=len(V))
        W = np.empty_like(V)
        W[perm] = V
        pad = k % 5 == 0
        if pad:
            W = np.vstack([W, np.round(rng.normal(size=(2, d)) * 64) / 64])
        if k % 7 == 0:
            G = G.astype(np.int32)
        out.append((f"{'pad' if pad else 'rnd'}{k}-{d}d", W, G))
    return out


def start(rec, V, F, nu=2):
    rng = rec.rng("probes", len(V), len(F))
    n = len(V)
    U = np.vstack([np.ones(n), rng.integers(-16, 17, (nu, n))])
    E = gpy.halfedge_edge_map(F, assume_manifold=True)[1] if F.shape[1] == 3 else np.zeros((0, 2), int)
    rec.event("mesh", {"F": raw(F), "X": nums(V), "U": nums(U), "E": raw(E)}, {"t": "none"})


def p10(rec, gen):
    for id, V, F in geo_meshes(rec, "p10", 24):
        if V.shape[1] == 2 and len(F) > 30:
            continue
        n = len(V)
        nf = int(F.max()) + 1
        rec.begin(id)
        start(rec, V, F)
        he, E, h2e, e2h = gpy.halfedge_edge_map(F, assume_manifold=True)
        l = gpy.halfedge_lengths_squared(V, F)
        k = len(F) % 3
        rec.call("dec_d0", {"n": n}, gpy.dec_d0, F, E=E, n=n)
        rec.call("dec_d0", {"n": nf}, gpy.dec_d0, F)
        if k == 0:
            rec.call("dec_d0", {"n": n}, gpy.dec_d0, F, n=n)
        rec.call("dec_d1", {}, gpy.dec_d1, F)
        rec.call("dec_d1", {}, gpy.dec_d1, F, E_to_he=e2h)
        for inv in (False, True):
            s = "inv" if inv else ""
            f = lambda nm: getattr(gpy, nm)
            rec.call("star", {"which": "0", "inv": inv, "n": n}, f("dec_h0" + s), V, F)
            rec.call("star", {"which": "0", "inv": inv, "n": nf}, f(f"dec_h0{s}_intrinsic"), l, F)
            rec.call("star", {"which": "0", "inv": inv, "n": n}, f(f"dec_h0{s}_intrinsic"), l, F, n=n)
            rec.call("star", {"which": "1", "inv": inv}, f("dec_h1" + s), V, F)
            rec.call("star", {"which": "1", "inv": inv}, f("dec_h1" + s), V, F, E_to_he=e2h)
            rec.call("star", {"which": "1", "inv": inv}, f(f"dec_h1{s}_intrinsic"), l, F, E_to_he=e2h)
            rec.call("star", {"which": "1", "inv": inv}, f(f"dec_h1{s}_intrinsic"), l, F)
            rec.call("star", {"which": "2", "inv": inv}, f("dec_h2" + s), V, F)
            rec.call("star", {"which": "2", "inv": inv}, f(f"dec_h2{s}_intrinsic"), l, F)
        rec.end()


def p11(rec, gen):
    for q, (id, V, F) in enumerate(geo_meshes(rec, "p11", 40)):
        n = len(V)
        nf = int(F.max()) + 1
        rec.begin(id)
        start(rec, V, F)
        l = gpy.halfedge_lengths_squared(V, F)
        rec.call("grad", {}, gpy.grad, V, F)
        rec.call("grad_intrinsic", {"n": n}, gpy.grad_intrinsic, l, F, n=n)
        rec.call("cotangent_weights", {}, gpy.cotangent_weights, V, F)
        rec.call("cotangent_weights", {}, gpy.cotangent_weights_intrinsic, l, F)
        rec.call("cotangent_laplacian", {"n": n}, gpy.cotangent_laplacian, V, F)
        rec.call("cotangent_laplacian", {"n": n}, gpy.cotangent_laplacian_intrinsic, l, F, n=n)
        for t in ("voronoi", "barycentric", "full"):
            rec.call("massmatrix", {"n": n, "type": t}, gpy.massmatrix, V, F, **({} if t == "voronoi" else {"type": t}))
            rec.call("massmatrix", {"n": n, "type": t}, gpy.massmatrix_intrinsic, l, F, n=n, type=t)
        if len(F) <= 40 or rec.thorough:
            rec.call("biharmonic_energy", {"n": n, "bc": "mixedfem_zero_neumann"}, gpy.biharmonic_energy, V, F)
            rec.call("biharmonic_energy", {"n": n, "bc": "mixedfem_zero_neumann"}, gpy.biharmonic_energy_intrinsic, l, F, n=n)
            if not id.startswith("pad"):
                rec.call("biharmonic_energy", {"n": n, "bc": "hessian"}, gpy.biharmonic_energy, V, F, bc="hessian")
        if n == nf:   # inferred size
            rec.call("cotangent_laplacian", {"n": n}, gpy.cotangent_laplacian_intrinsic, l, F)
            rec.call("massmatrix", {"n": n, "type": "voronoi"}, gpy.massmatrix_intrinsic, l, F)
            rec.call("grad_intrinsic", {"n": n}, gpy.grad_intrinsic, l, F)
        rec.end()
    rng = rec.rng("p11lines")
    for k in range(20 * (4 if rec.thorough else 1)):
        n, d = int(rng.integers(2, 12)), [1, 2, 3][k % 3]
        V = np.round(rng.normal(size=(n, d)) * 256) / 256
        if k % 2:
            p = rng.permutation(n)
            E = np.stack([p[:-1], p[1:]], -1)
            V = np.vstack([V, V[:1] + 1]) if k % 4 == 1 else V
        else:
            E = np.stack([np.arange(n - 1), np.arange(1, n)], -1)
        if min(np.linalg.norm(V[E[:, 0]] - V[E[:, 1]], axis=1)) < .05:
            continue
        rec.begin(f"line{k}")
        start(rec, V, E)
        a = [V, E] if k % 2 else [V]
        rec.call("grad", {}, gpy.grad, *a)
        rec.call("massmatrix", {"n": len(V), "type": "lumped"}, gpy.massmatrix, *a)
        rec.end()
