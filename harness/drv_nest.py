"""P41: matryoshka, with the compiled distance, winding and ray queries replaced
by direct computations, and the compiled particle swarm."""
import numpy as np
from scipy.spatial import ConvexHull
import gpytoolbox as gpy
from vlib import nums, num, raw, snapshot

BODIES = [([[-4, -4, -4], [4, -4, -4], [4, 4, -4], [-4, 4, -4], [-4, -4, 4], [4, -4, 4], [4, 4, 4], [-4, 4, 4]],
           [[0, 2, 1], [0, 3, 2], [4, 5, 6], [4, 6, 7], [0, 1, 5], [0, 5, 4], [2, 3, 7], [2, 7, 6], [1, 2, 6], [1, 6, 5], [0, 4, 7], [0, 7, 3]]),
          ([[6, 0, 0], [-6, 0, 0], [0, 6, 0], [0, -6, 0], [0, 0, 6], [0, 0, -6]],
           [[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]]),
          ([[-4, -4, -4], [8, -4, -4], [-4, 8, -4], [-4, -4, 8]], [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]])]
KEYS = dict(s="s", R="R", c="c", b="B_center", p="cut_point", n="cut_normal", up="a_plus", dn="a_minus")


def hull(X):
    C = ConvexHull(X)
    keep = np.unique(C.simplices)
    F = np.searchsorted(keep, C.simplices)
    V = X[keep]
    m = V.mean(0)
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    flip = np.sum(n * (V[F[:, 0]] - m), 1) < 0
    F[flip] = F[flip][:, ::-1]
    return V, F


def prism(P):
    """over a polygon given in order, with a fan-free triangulation by ears"""
    n = len(P)
    idx, T = list(range(n)), []
    cr = lambda a, b, c: (P[b][0] - P[a][0]) * (P[c][1] - P[a][1]) - (P[b][1] - P[a][1]) * (P[c][0] - P[a][0])
    while len(idx) > 3:
        for k in range(len(idx)):
            a, b, c = idx[k - 1], idx[k], idx[(k + 1) % len(idx)]
            if cr(a, b, c) > 0 and not any(cr(a, b, x) >= 0 and cr(b, c, x) >= 0 and cr(c, a, x) >= 0 for x in idx if x not in (a, b, c)):
                T.append((a, b, c))
                idx.pop(k)
                break
    T.append(tuple(idx))
    V = np.array([[x, y, z] for z in (-1., 1.) for x, y in P])
    F = [(a, c, b) for a, b, c in T] + [(a + n, b + n, c + n) for a, b, c in T]
    for k in range(n):
        j = (k + 1) % n
        F += [(k, j, j + n), (k, j + n, k + n)]
    return V, np.array(F)


BENT = [prism([(0, 0), (3, 0), (3, 1), (1, 1), (1, 3), (0, 3)]), prism([(0, 0), (4, 0), (4, 3), (3, 3), (3, 1), (1, 1), (1, 3), (0, 3)])]


def unit(x):
    return x / np.linalg.norm(x)


def p41(rec, gen):
    T = 4 if rec.thorough else 1
    rng = rec.rng("nest")

    def opt(x):
        return [] if x is None else nums(np.asarray(x, dtype=float))

    def nest(id, V, F, W=None, G=None, convex=True, mode="scale_only", tol=None, open=True, **kw):
        args = dict(kw, optimize=mode)
        if W is not None:
            args.update(VB=W, FB=G)
        if tol is not None:
            args.update(scale_tol=tol)
        before = snapshot((V, F, args))
        if open:
            rec.begin(id)
        r, exc = rec.run(gpy.matryoshka, V, F, **args)
        given = {k: opt(kw.get(v)) for k, v in dict(R="R", c="c", p="cut_point", n="cut_normal", up="a_plus", dn="a_minus").items()}
        out = None
        if not exc:
            try:
                out = {k: num(r[v]) if k == "s" else nums(np.asarray(r[v], dtype=float).reshape((3, 3) if k == "R" else (3,))) for k, v in KEYS.items()}
                out["same"] = snapshot((V, F, args)) == before
            except Exception:
                exc = "result"
        rec.event("nest", dict(V=nums(np.asarray(V, dtype=float)), F=raw(F), W=nums(np.asarray(V if W is None else W, dtype=float)), mode=mode,
                               convex=convex, tol=num(1e-3 if tol is None else tol), **given), out, exc)
        if open:
            rec.end()
        return r

    def more(what, s, slack, r):
        rec.event("more", dict(what=what, s=num(s), slack=num(slack)), dict(s="-1" if r is None else num(r["s"])))

    def directions(n, sideways=False):
        up, dn = (unit(n + rng.normal(size=3) * .5) for _ in range(2))
        up, dn = (x if x @ n > 0 else -x for x in (up, dn))
        return up * rng.uniform(.2, 4), -dn * rng.uniform(.2, 4)

    def rotation():
        q = unit(rng.normal(size=4))
        w, x, y, z = q
        return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)], [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                         [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]])

    def body():
        V, F = hull(rng.normal(size=(int(rng.integers(5, 9)), 3)) * rng.uniform(.5, 2, 3))
        return V + rng.normal(size=3), F
    # the configurations of the model
    for t, g in enumerate(gen.get("MC_Matryoshka", [])[:: 1 if rec.thorough else 3]):
        V, F = BODIES[g["body"] - 1]
        nest(f"model{t}", np.array(V, dtype=float), np.array(F), cut_point=np.array([0, 0, g["off"]], dtype=float), cut_normal=np.array(g["n"]),
             a_plus=np.array(g["up"]), a_minus=np.array(g["dn"]), c=np.array(g["c"], dtype=float), n_samples=[0, 9][t % 2], seed=t)
    # only the scale
    for t in range(24 * T):
        V, F = body()
        kw = dict(n_samples=int(rng.integers(0, 12)), seed=int(rng.integers(99)))
        n = np.array([0, 0, 1.])
        if t % 2:
            n = rng.normal(size=3)
            kw.update(cut_normal=n.copy(), cut_point=V.mean(0) + .2 * rng.normal(size=3))
        if t % 3:
            up, dn = directions(unit(n))
            kw.update(a_plus=up) if t % 3 == 1 else kw.update(a_plus=up, a_minus=dn)
        if t % 4 > 1:
            kw.update(R=rotation(), c=V.mean(0) + .15 * rng.normal(size=3))
        if t % 4 == 3:                                    # centered on the cut
            kw.update(c=kw["cut_point"].copy())
        W, G = body() if t % 5 > 1 else (None, None)
        if W is not None and t % 5 == 4:
            W = (W - W.mean(0)) * [.2, .02][t // 5 % 2] + W.mean(0)     # fits at full size, maybe
        nest(f"scale{t}", V, F if t % 2 else F.astype(np.int32), W, G, tol=[None, 1e-2, 1e-6, None, .2][t % 5], **kw)
    for t in range(6 * T):                                # a body that is not convex
        V, F = BENT[t % 2]
        V = V * rng.uniform(.5, 1.5, 3)
        inside = V[:1] * 0 + np.array([.5, .5, 0]) * np.array([np.ptp(V[:, 0]) / np.ptp(BENT[t % 2][0][:, 0]), np.ptp(V[:, 1]) / np.ptp(BENT[t % 2][0][:, 1]), 0])
        n = unit(rng.normal(size=3))
        up, dn = directions(n)
        W, G = body() if t % 3 else (V.copy(), F)
        nest(f"bent{t}", V, F, W, G, convex=False, cut_normal=n, cut_point=inside[0], a_plus=up, a_minus=dn, c=inside[0], R=rotation(), n_samples=0, seed=t)
    # searches over poses and cuts
    for t in range(8 * T):
        mode = ["rigid", "all"][t % 2]
        V, F = body() if t % 4 < 3 else BENT[t // 4 % 2]
        W, G = body() if t % 3 != 2 else (None, None)
        if W is not None:
            W = W * .2                                    # small: most poses fit at some scale
        kw = dict(n_samples=int(rng.integers(0, 4)), n_particles=6, max_iter=4, seed=t)
        n = unit(rng.normal(size=3))
        if t % 3 == 2:
            up, dn = directions(n)
            kw.update(cut_normal=n, cut_point=V.mean(0), a_plus=up, a_minus=dn)
        rec.begin(f"search{t}")
        r = nest("", V, F, W, G, convex=t % 4 < 3, mode=mode, tol=[None, 1e-2][t % 2], open=False, **kw)
        if t % 2 == 0 or rec.thorough:
            q = nest("", V, F, W, G, convex=t % 4 < 3, mode=mode, tol=[None, 1e-2][t % 2], open=False, **kw)
            rec.event("again", {}, dict(eq=snapshot(r) == snapshot(q)))
            if r is not None:
                p, exc = rec.run(gpy.matryoshka, V, F, VB=W, FB=G, optimize=mode, scale_tol=[1e-3, 1e-2][t % 2], **dict(kw, max_iter=7))
                if not exc:
                    more("more iterations lost the best scale", r["s"], 0, p)
        rec.end()
    # continuing from a known configuration
    for t in range(10 * T):
        V, F = body()
        n = rng.normal(size=3) * [1, 1e-3][t % 2]
        up, dn = directions(unit(n))
        R = [None, rotation(), np.diag([1., -1, -1]), np.diag([-1., 1, -1]), np.eye(3)][t % 5]
        if t % 5 == 2:                                    # half a turn about any axis
            a = unit(rng.normal(size=3))
            R = 2 * np.outer(a, a) - np.eye(3)
        rec.begin(f"warm{t}")
        kw = dict(n_samples=0, seed=int(t))
        c = V.mean(0) + .1 * rng.normal(size=3)
        seed = nest("", V, F, open=False, R=R, c=c, cut_normal=n, cut_point=c + (.1 * rng.normal(size=3) if t % 3 == 1 else 0), a_plus=up, a_minus=dn, **kw)
        if seed is not None:
            r = nest("", V, F, mode="all", open=False, n_particles=2, max_iter=1, warm_start=seed, **kw)
            more("the start was lost", seed["s"], 1e-3 + 1e-9, r)
            if t % 3 == 0:                                # raw directions in the dictionary
                raw_seed = dict(seed, cut_normal=seed["cut_normal"] * 3, a_plus=seed["a_plus"] * .5, a_minus=seed["a_minus"] * 7)
                r = nest("", V, F, mode="all", open=False, n_particles=2, max_iter=1, warm_start=raw_seed, **kw)
                more("the start was lost", seed["s"], 1e-3 + 1e-9, r)
        if t % 5 == 0:
            k2 = dict(n_samples=0, seed=int(t), n_particles=5, max_iter=2)
            cut = dict(cut_normal=n, cut_point=V.mean(0), a_plus=up, a_minus=dn)
            s1 = nest("", V, F, mode="rigid", open=False, **cut, **k2)
            r = nest("", V, F, mode="all", open=False, warm_start=True, **cut, **k2)
            if s1 is not None:
                more("the rigid start was lost", s1["s"], 1e-3 + 1e-9, r)
        rec.end()
