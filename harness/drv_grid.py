"""P20 marching squares; P21 grid operators."""
import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, enc, snapshot


def grid(lo, hi, n):
    ax = [np.linspace(l, h, k) for l, h, k in zip(lo, hi, n)]
    return np.stack([x.ravel(order='F') for x in np.meshgrid(*ax, indexing='ij')], 1)


def contour(rec, id, S, nx, ny, lo, hi):
    G = grid(lo, hi, (nx, ny))
    s = snapshot((S, G))
    v, exc = rec.run(gpy.marching_squares, S, G, nx, ny)
    rec.begin(id)
    rec.event("contour", {"nx": nx, "ny": ny, "S": nums(S), "lo": nums(G.min(0)), "hi": nums(G.max(0)), "same": s == snapshot((S, G))}, enc(v), exc)
    rec.end()


def p20(rec, gen):
    mult = 4 if rec.thorough else 1
    rng = rec.rng("p20")
    boxes = [((0., 0.), (1., 1.)), ((-1., -2.), (1., 3.)), ((5., -.5), (5.25, 8.)), ((-1e-3, 2.), (1e-3, 2.001))]

    def mags(n):
        m = rng.choice([1., .5, 2., .1, 1e-3, 30.], n) * rng.uniform(.5, 1, n)
        return m
    g33, g43 = gen.get("MC_MarchSq33", []), gen.get("MC_MarchSq43", [])
    pick = rng.permutation(len(g43))[:len(g43) if rec.thorough else 500]
    for k, g in enumerate(g33 + [g43[i] for i in pick]):
        nx, ny = g["nx"], g["ny"]
        S = -mags(nx * ny)
        for i, j in g["pos"]:
            S[i + nx * j] *= -1
        lo, hi = boxes[k % 4]
        contour(rec, f"pattern{k}", S, nx, ny, lo, hi)
    for k in range(60 * mult):
        nx, ny = (int(rng.integers(2, 9)) for _ in range(2))
        lo = np.round(rng.normal(size=2) * 8) / 8
        hi = lo + np.round(rng.uniform(.5, 4, 2) * 8) / 8
        G = grid(lo, hi, (nx, ny))
        m = k % 4
        if m == 0:
            S = rng.normal(size=nx * ny)
        elif m == 1:
            S = np.linalg.norm(G - G.mean(0), axis=1) - .3 * (hi - lo).min() - .01
        elif m == 2:
            S = np.sin(5 * G[:, 0]) * np.cos(4 * G[:, 1]) + .013
        else:
            S = rng.choice([-1., 1], nx * ny) * 2.0 ** rng.integers(-8, 8, nx * ny)
        if (np.abs(S) < 1e-4 * np.abs(S).max()).any():
            S = S + np.sign(S + 1e-300) * 1e-3 * np.abs(S).max()
        S = S * 2.0 ** int(rng.integers(-30, 30)) if k % 5 == 0 else S
        contour(rec, f"grid{k}", S, nx, ny, lo, hi)
    contour(rec, "all-positive", np.ones(6), 2, 3, (0., 0.), (1., 1.))
    contour(rec, "all-negative", -np.ones(6), 3, 2, (0., 0.), (1., 1.))


def p21(rec, gen):
    mult = 4 if rec.thorough else 1
    rng = rec.rng("p21")
    sizes = [tuple(g) for g in gen.get("MC_GridOps", [])] + [(5, 3), (2, 7), (6, 4, 3), (3, 5, 2), (2, 2, 6), (1, 6), (7, 1, 2)]
    sp = lambda d: np.round(rng.uniform(.05, 3, d) * 64) / 64

    def rc(op, inp, fn, **kw):
        s = snapshot(kw)
        v, exc = rec.run(fn, **kw)
        rec.event(op, {**inp, "same": s == snapshot(kw)}, enc(v), exc)
    for k, g in enumerate(sizes):
        gs, d = np.array(g), len(g)
        rec.begin("x".join(map(str, g)))
        h = sp(d)
        if k % 3 == 1:
            h = h * 10.0 ** rng.integers(-6, 6, d)
        for q in range(d):
            if np.prod(g) // g[q] * (g[q] - 1) > 0:
                rc("partial", {"gs": raw(gs), "h": nums(h), "d": q}, gpy.fd_partial_derivative, gs=gs, h=h, direction=q)
        if min(g) > 1:
            rc("grad", {"gs": raw(gs), "h": nums(h)}, gpy.fd_grad, gs=gs, h=h)
            for c in range(2 * mult):
                h = sp(d)
                corner = np.zeros(d) if c % 2 == 0 else np.round(rng.normal(size=d) * 320) / 64
                if k % 4 == 3:
                    h, corner = h / 3, corner / 7
                n = 12
                u = rng.uniform(0, 1, (n, d)) * (gs - 1)
                for i in range(n):
                    m = i % 4
                    if m == 1:
                        u[i] = np.round(u[i])                           # nodes
                    elif m == 2:
                        j = int(rng.integers(d))
                        u[i, j] = rng.integers(0, g[j])                 # cell borders
                    elif m == 3 and i % 3 == 0:
                        u[i] = rng.choice([0, 1], d) * (gs - 1)         # corners of the grid
                P = corner + u * h
                P = np.minimum(P, corner + h * (gs - 1))
                kw = {} if c % 2 == 0 else {"corner": corner}
                rc("interp", {"gs": raw(gs), "h": nums(h), "corner": nums(corner), "P": nums(P)}, gpy.fd_interpolate, P=P, gs=gs, h=h, **kw)
        big = np.prod(g) > 30
        for order in (1, 2, 3, 4, 5):
            for diag in (False, True):
                for self_ in (False, True):
                    for uq in (True, False):
                        if (order > 3 and (not uq or d == 3 or big)) or (order == 3 and (not uq or d == 3 and (diag or big))) or (order == 2 and not uq and d == 3 and diag):
                            continue
                        if not rec.thorough and order > 1 and (k + order + diag + self_ + uq) % 2:
                            continue
                        rc("neigh", {"gs": raw(gs), "order": order, "diag": diag, "self": self_, "unique": uq}, gpy.grid_neighbors,
                           gs=gs, order=order, include_diagonals=diag, include_self=self_, output_unique=uq)
        rec.end()
