"""P44: reach_for_the_arcs: its compiled steps (see native.py; stand-ins for libigl and nanoflann) and whole runs, with a stand-in for the Poisson reconstruction."""
import sys
import numpy as np
import scipy.spatial as sp
import gpytoolbox as gpy
import gpytoolbox_bindings as B
from vlib import nums, num, snapshot

A = sys.modules["gpytoolbox.reach_for_the_arcs"]


def surface(P):
    """some closed polyline or surface whose vertices are the given points"""
    if P.shape[1] == 2:
        c = P - P.mean(0)
        q = np.argsort(np.arctan2(c[:, 1], c[:, 0]), kind="stable")
        n = len(P)
        return P[q], np.stack((np.arange(n), (np.arange(n) + 1) % n), 1).astype(np.int32)
    try:
        H = sp.ConvexHull(P)
        F = H.simplices.copy()
        flip = np.einsum("ij,ij->i", np.cross(P[F[:, 1]] - P[F[:, 0]], P[F[:, 2]] - P[F[:, 0]]), P[F[:, 0]] - P[np.unique(F)].mean(0)) < 0
        F[flip] = F[flip][:, ::-1]
    except Exception:
        n = len(P)
        F = np.stack((np.zeros(n, int), np.arange(n), (np.arange(n) + 1) % n), 1)
    return P.copy(), F.astype(np.int32)


def p44(rec, gen):
    X = 4 if rec.thorough else 1
    rng = rec.rng("arcs")
    base = dict(tol=1e-4, clamp=np.inf)
    c_ = lambda x: [] if np.isinf(x) else [num(float(x))]

    def shape(n, d, k, noise=0.):
        """samples in the unit box that touch its walls, and distances to a shape inside"""
        U = rng.random((n, d))
        if k % 2:
            U = np.round(U * 8) / 8
            U = U[np.sort(np.unique(U, axis=0, return_index=True)[1])]
        U[0], U[1] = 0, 1
        if k % 3 == 0:
            S = np.linalg.norm(U - .5, axis=1) - .3
        elif k % 3 == 1:
            x = np.abs(U - .5) - .27
            S = np.linalg.norm(np.maximum(x, 0), axis=1) + np.minimum(x.max(1), 0)
        else:
            Q = .2 + .6 * rng.random((3, d))
            S = np.linalg.norm(U[:, None] - Q[None], axis=2).min(1)
        return U, S + noise * rng.normal(size=len(U))

    def raster(U, S, res, band=True, parallel=False):
        before = snapshot((U, S))
        P, exc = rec.run(A._outside_points_from_rasterization, U, S, rng_seed=int(rng.integers(1, 10**6)), res=res, narrow_band=band, parallel=parallel)
        rec.event("raster", dict(U=nums(U), S=nums(S), res=res + res % 2, band=band), {} if exc else dict(P=nums(P), same=snapshot((U, S)) == before), exc)
        return P

    def out(r, args, before):
        return dict(P=nums(r[0]), N=nums(r[1]), f=np.asarray(r[2]).ravel().astype(int).tolist(), same=snapshot(args) == before)

    def feasible(U, S, O, **o):
        got, inner = {}, B._locally_make_feasible_cpp_impl

        def spy(*a):
            got["batch"] = np.asarray(a[3]).ravel().tolist()
            return inner(*a)
        B._locally_make_feasible_cpp_impl = spy
        before = snapshot((U, S, O))
        kw = {k: v for k, v in o.items()}
        r, exc = rec.run(A._locally_make_feasible, U, S, O, **kw)
        B._locally_make_feasible_cpp_impl = inner
        rec.event("feasible", dict(U=nums(U), S=nums(S), O=nums(O), batch=got.get("batch", []), tol=num(o.get("tol", 1e-4)), clamp=c_(o.get("clamp_value", np.inf))), {} if exc else out(r, (U, S, O), before), exc)
        return None if exc else r

    def tune(U, S, V, F, P, N, f, batch, most=3, seed=1, searches=8, iters=20, t=.01, tol=1e-4, clamp=np.inf, parallel=False, quiet=False):
        args = (U, S, V, F, P, N, f, batch)
        before = snapshot(args)
        r, exc = rec.run(A._fine_tune_point_cloud_iteration, U, S, V, F, P, N, f, batch, most, seed, searches, iters, t, tol, clamp, parallel, False)
        rec.event("tune", dict(U=nums(U), S=nums(S), V=nums(V), F=np.asarray(F).tolist(), P=nums(P), f=np.asarray(f).ravel().tolist(), batch=np.asarray(batch).tolist(), most=most, t=num(t), tol=num(tol),
                               clamp=c_(clamp), quiet=quiet), {} if exc else out(r, args, before), exc)
        return None if exc else r

    # the configurations of the model: distances to one or two lattice points
    for n, g in enumerate(gen["MC_Arcs"][::1 if rec.thorough else 3]):
        Q = np.array(g["Q"], dtype=float) / 2
        U = np.array(g["U"], dtype=float) / 2
        S = np.linalg.norm(U[:, None] - Q[None], axis=2).min(1) * (1 if n % 2 else -1)
        rec.begin(f"model{n}")
        O = Q + rng.normal(size=Q.shape) * [.01, 0.][n % 2]
        r = feasible(U, S, np.vstack((O, rng.random((3, 2)) * 4 - 1.5)), rng_seed=n)
        if r is not None and len(r[0]) > 1:
            V, F = surface(Q if len(Q) > 1 else np.vstack((Q, Q + .1)))
            for k in range(2):
                r = tune(U, S, V, F, *r, np.arange(len(U)), most=1 + n % 3, seed=n + k)
                if r is None or len(r[0]) == 0:
                    break
        rec.end()

    # grids
    for n in range(14 * X):
        d = 2 + n % 2
        U, S = shape([14, 8][d - 2], d, n)
        if n % 4 == 1:
            S *= rng.uniform(.2, 1, len(S))
        rec.begin(f"raster{n}")
        raster(U, S, [[12, 9, 16][n % 3], [6, 5][n // 2 % 2]][d - 2], band=n % 5 != 4, parallel=n % 3 == 0)
        rec.end()

    # the steps in turn
    for n in range(20 * X):
        d = 2 + n % 2
        U, S = shape([20, 14][d - 2], d, n // 2, noise=[0, 0, .02][n % 3])
        S = -np.abs(S) if n % 5 == 4 else S
        clamp = [np.inf, np.inf, .25][n // 2 % 3]
        tol = [1e-4, 1e-2, 1e-6][n % 3]
        rec.begin(f"steps{n}")
        O = rng.random((30, d))
        O = O[np.all(np.linalg.norm(O[:, None] - U[None], axis=2) > .95 * np.abs(S), axis=1)] if n % 4 else O
        O = O if len(O) else rng.random((3, d))
        few = n % 6 == 5
        r = feasible(U, S, O, rng_seed=n, tol=tol, clamp_value=clamp, parallel=n % 4 == 0, batch_size=10 if few else [0, 1000][n % 2], n_local_searches=[None, 1, 3][n % 3], local_search_iters=[20, 1, 0, 5][n % 4])
        for k in range(3):
            if r is None or len(r[0]) < 2:
                break
            V, F = surface(r[0] + rng.normal(size=r[0].shape) * [0, .02, .1][k])
            batch = rng.choice(len(U), 10) if few else rng.permutation(len(U))
            r = tune(U, S, V, F, *r, batch, most=[3, 1, 2, 5][n % 4], seed=n + k, searches=[8, 1][n % 2], iters=[20, 3][k % 2], t=[.01, .1, 1.][k], tol=tol, clamp=clamp, parallel=n % 3 == 0)
        rec.end()

    # three spheres through one circle, their centers on one line (rounding leaves them nearly so)
    for n in range(6 * X):
        rec.begin(f"line{n}")
        for k in range(12):
            q, a, v = .3 + .4 * rng.random(3), .2 + .3 * rng.random(3), rng.normal(size=3)
            U = np.clip(a[None] + np.array([0, .07, .15])[:, None] * (v / np.linalg.norm(v))[None], 0, 1)
            S = np.linalg.norm(U - q, axis=1)
            feasible(U, S, rng.random((3, 3)), rng_seed=k)
        rec.end()

    # spheres that do not touch: nothing is in the way
    for n in range(8 * X):
        d = 2 + n % 2
        U = np.array([[x, y, z][:d] for x in (0, .5, 1) for y in (0, .5, 1) for z in ((0, .5, 1) if d == 3 else (0,))])
        U = U[rng.permutation(len(U))[:9]]
        S = rng.uniform(-.2, .2, len(U))
        S[0] = [.1, 0., 1e-5][n % 3]
        if n % 4 > 1:        # spheres of radius more than one
            U, S = U * 16, S * 16
        rec.begin(f"quiet{n}")
        N = rng.normal(size=U.shape)
        N /= np.linalg.norm(N, axis=1)[:, None]
        f = np.arange(len(U))
        P = U + np.abs(S)[:, None] * N
        r = (P, -np.sign(S + 1e-300)[:, None] * N, f[:, None].astype(np.int32))
        for k in range(3):
            V, F = surface(r[0] * [1, .8, .5][k] + .05)
            r = tune(U, S, V, F, *r, rng.permutation(len(U)), most=1 + n % 4, seed=n + k, t=[.01, .05][n % 2], quiet=True)
            if r is None or len(r[0]) < 2:
                break
        rec.end()

    # whole runs
    for n in range(16 * X):
        d = 2 + n % 2
        U, S = shape([24, 16][d - 2], d, n // 2, noise=.03 if n % 7 == 6 else 0)
        s, t = [1., 3.5, .01][n % 3], rng.normal(size=d) * [0, 5][n % 2]
        U, S = U * s + t, S * s
        if n % 8 == 5:
            S = -np.abs(S)
        o = dict(rasterization_resolution=[16, 6][d - 2], fine_tune_iters=[3, 0, 1][n % 3])
        if n % 4 == 1:
            o.update(batch_size=[0, 12][n // 4 % 2], max_points_per_sphere=1 + n % 3, screening_weight=2.)
        if n % 4 == 2:
            o.update(clamp_value=.3 * s, tol=1e-3)
        if n % 5 == 4:
            o.update(num_rasterization_spheres=5, n_local_searches=3, local_search_iters=4, local_search_t=.05, parallel=True, force_cpu=True)
        if n % 6 != 5:
            o.update(rng_seed=n)
        seen, ran, inner = [True], [0], B._fine_tune_point_cloud_iter_cpp_impl
        w = o.get("screening_weight", 10.)

        def psr(P, N, weight, depth, boundary, parallel, verbose):
            seen[0] &= bool(weight == w and boundary == "Neumann" and P.shape == N.shape and P.dtype == float and P.min() > -1. and P.max() < 2.)
            return surface(P)

        def spy(*a):
            ran[0] += 1
            return inner(*a)
        B._point_cloud_to_mesh_cpp_impl, B._fine_tune_point_cloud_iter_cpp_impl = psr, spy
        before = snapshot((U, S))
        rec.begin(f"run{n}")
        r, exc = rec.run(gpy.reach_for_the_arcs, U, S, return_point_cloud=True, **o)
        q, exc2 = rec.run(gpy.reach_for_the_arcs, U.copy(), S.copy(), **o)
        B._fine_tune_point_cloud_iter_cpp_impl = inner
        res = {}
        if not exc and not exc2:
            V, F, P, N = r
            P, N = (np.zeros((0, d)) if x is None or np.size(x) == 0 else x for x in (P, N))
            res = dict(shapes=bool(np.ndim(V) == 2 and np.shape(V)[1] == d and np.shape(P) == np.shape(N)), V=nums(V) if len(P) > 1 else nums(P), P=nums(P), N=nums(N), plain=seen[0],
                       again=len(q) == 2 and all(np.array_equal(x, y) for x, y in zip(r[:2], q)), same=snapshot((U, S)) == before)
        whole = o.get("batch_size", 10000) in (0, 10000)
        rec.event("run", dict(U=nums(U), S=nums(S), tol=num(o.get("tol", 1e-4)), clamp=c_(o.get("clamp_value", np.inf)), scale=num(float((U - U.min(0)).max())), all=whole, together=ran[0] > 0,
                              some=bool(n // 2 % 3 == 0 and n % 7 != 6 and n % 5 != 4 and n % 4 != 2 and whole and n % 8 != 5)), res, exc or exc2)
        rec.end()
