import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, snapshot


def init(rec, P, maxd, mind, graded, box=None):
    kw = {"max_depth": maxd, "min_depth": mind, "graded": graded}
    inp = {"P": nums(P), "maxd": maxd, "mind": mind, "graded": graded, "box": box is not None}
    if box is not None:
        kw["vmin"], kw["vmax"] = box
        inp["vmin"], inp["vmax"] = nums(box[0]), nums(box[1])
    s = snapshot([P, kw])
    v, exc = rec.run(gpy.initialize_quadtree, P, **kw)
    inp["same"] = s == snapshot([P, kw])
    from vlib import enc
    rec.event("init", inp, enc(v), exc)
    return v


def split(rec, t, ind, graded):
    s = snapshot(list(t))
    v, exc = rec.run(gpy.subdivide_quad, ind, *t, **({} if graded else {"graded": False}))
    from vlib import enc
    rec.event("split", {"ind": int(ind), "graded": graded, "same": s == snapshot(list(t))}, enc(v), exc)
    return v


def leaves(t):
    return [i for i in range(len(t[1])) if t[2][i, 0] == -1]


def p13(rec, gen):
    box = {2: (np.array([-1., -1]), np.array([1., 1])), 3: (np.array([0., 0, 0]), np.array([4., 4, 4]))}
    for key, d in (("MC_Quadtree2", 2), ("MC_Quadtree3", 3)):
        for n, g in enumerate(gen.get(key, [])):       # every split sequence of the design model
            if d == 2 and not rec.thorough and (n + rec.seed) % 2:
                continue
            lo, hi = box[d]
            P = lo[None, :] - 5.
            rec.begin(f"seq{d}d-{n}")
            t = init(rec, P, 9, 1, g["graded"], (lo, hi))
            for lev, ix in g["seq"]:
                if t is None:
                    break
                w = (hi - lo)[0] / 2 ** lev
                c = lo + (np.array(ix) + .5) * w
                k = [i for i in leaves(t) if np.allclose(t[0][i], c)]
                if not k:
                    break
                t = split(rec, t, k[0], g["graded"])
            rec.end()
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p13")
    for k in range(40 * mult):
        d = 2 if k % 3 else 3
        n = int(rng.integers(1, 6))
        maxd = int(rng.integers(2, 6 if d == 2 else 4))
        mind = int(rng.integers(1, 4 if d == 2 else 3))
        P = np.round(rng.uniform(-1, 1, (n, d)) * 512) / 512
        graded = bool(k % 2)
        b = None
        if k % 5 == 0 and n > 1:
            P[:, 0] = np.round(P[:, 0] * 2) / 2
        if k % 4 == 0 or n == 1 or np.ptp(P, axis=0).max() < .25:
            b = (-np.ones(d), np.ones(d)) if k % 8 else (np.array([-1.5] + [-1.] * (d - 1)), np.array([.5] + [2.] * (d - 1)))
            P = rng.uniform(-1, 1, (n, d)) if k % 12 == 0 else P
        rec.begin(f"init{k}")
        t = init(rec, P, maxd, mind, graded, b)
        for _ in range(3):
            if t is None or len(t[1]) > 110:
                break
            L = leaves(t)
            L = sorted(L, key=lambda i: -t[4][i])[:max(4, len(L) // 3)]
            t = split(rec, t, L[int(rng.integers(len(L)))], graded)
        rec.end()
    for k in range(6 * mult):                          # deep chains
        d = 2 + k % 2
        P = rng.uniform(-1, 1, (1, d))
        rec.begin(f"deep{k}")
        init(rec, P, 9 if d == 2 else 6, 1, k % 3 != 0 and d == 2, (-np.ones(d), np.ones(d)))
        rec.end()
    for k in range(7 * mult):                          # ungraded zoom, then split the coarse cells next to the fine ones
        d = 2 if k % 4 else 3
        P = rng.uniform(-1, 1, (1, d))
        P[0, k % d] = rng.integers(-1, 2) * .5 + 1e-3 * rng.choice([-1, 1])
        rec.begin(f"zoom{k}")
        t = init(rec, P, 7 if d == 2 else 5, 1, False, (-np.ones(d), np.ones(d)))
        for _ in range(3 if d == 2 else 1):
            if t is None:
                break
            A = t[5].tocoo()
            far = [int(i) for i, j in zip(A.row, A.col) if t[2][i, 0] == -1 and t[2][j, 0] == -1 and t[4][j] >= t[4][i] + 3]
            if not far:
                break
            t = split(rec, t, far[int(rng.integers(len(far)))], False)
        rec.end()


def queries(rec, t, rng, graded, npts):
    C, W, CH, PAR, D, A = t
    d = C.shape[1]
    rec.call("children", {}, gpy.quadtree_children, CH)
    rec.call("boundary", {}, gpy.quadtree_boundary, CH, A)
    rec.call("mesh", {}, gpy.bad_quad_mesh_from_quadtree, C, W, CH)
    if graded and d == 2 and len(W) > 1:
        rec.call("gradient", {}, gpy.quadtree_gradient, C, W, CH, D, A)
        rec.call("laplacian", {}, gpy.quadtree_laplacian, C, W, CH, D, A)
    L = leaves(t)
    for q in range(npts):
        i = L[int(rng.integers(len(L)))]
        m = q % 4
        if m == 0:
            p = C[i].copy()
        elif m == 1:
            p = C[i] + W[i] * .5 * rng.integers(-1, 2, d)
        elif m == 2:
            p = C[0] + W[0] * rng.uniform(-.7, .7, d)
        else:
            p = C[i] + W[i] * rng.uniform(-.45, .45, d)
        rec.call("in_quadtree", {"p": nums(p)}, gpy.in_quadtree, p, C, W, CH)
    p = C[0] + W[0] * rng.choice([-1, 1], d)
    rec.call("in_quadtree", {"p": nums(p)}, gpy.in_quadtree, p, C, W, CH)


def p14(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p14")
    for n, g in enumerate(gen.get("MC_Quadtree2", [])):
        if (n + rec.seed) % (3 if rec.thorough else 14):
            continue
        rec.begin(f"seq2d-{n}")
        lo, hi = np.zeros(2), np.ones(2) * 2. ** int(rng.integers(-3, 4))
        t = init(rec, lo[None, :] - 5., 9, 1, g["graded"], (lo, hi))
        for lev, ix in g["seq"]:
            c = lo + (np.array(ix) + .5) * hi / 2 ** lev
            k = [i for i in leaves(t) if np.allclose(t[0][i], c)] if t else []
            if not k:
                break
            t = split(rec, t, k[0], g["graded"])
            if t is not None:
                queries(rec, t, rng, g["graded"], 3)
        rec.end()
    for k in range(30 * mult):
        d = 2 if k % 3 else 3
        n = int(rng.integers(1, 5))
        P = np.round(rng.uniform(-1, 1, (n, d)) * 64) / 64
        graded = bool(k % 2) or d == 2 and k % 4 == 0
        rec.begin(f"tree{k}")
        t = init(rec, P, int(rng.integers(1, 6 if d == 2 else 4)), int(rng.integers(1, 4 if d == 2 else 3)), graded, (-np.ones(d), np.ones(d)))
        if t is not None and len(t[1]) < 140:
            queries(rec, t, rng, graded, 16)
        rec.end()
