"""P19: winding numbers and signed distances, in space with direct computations in
place of the compiled queries."""
import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, enc, snapshot
from drv_dist import rnd
import meshes as M


def case(rec, id, V, F, P, ordered):
    """F None: the closed polygon through V in order"""
    G = np.array([[i, (i + 1) % len(V)] for i in range(len(V))]) if F is None else F
    rec.begin(id)
    rec.event("setup", {"X": nums(V), "F": raw(G), "P": nums(P), "ordered": ordered}, enc(None))

    def q(op, what, fn, *a, **kw):
        b = [a, {k: v for k, v in kw.items() if k not in ("cpp_aabb", "fwn_bvh")}]
        s = snapshot(b)
        v, exc = rec.run(fn, *a, **kw)
        rec.event(op, {"what": what, "same": s == snapshot(b)}, enc(v), exc)
    ((W, T), exc) = rec.run(lambda: (gpy.fast_winding_number_precompute(V, G) if V.shape[1] == 3 else None, gpy.squared_distance_precompute(V, G)))
    q("wind", "winding_number", gpy.winding_number, P, V, G)
    if W is not None:
        q("wind", "winding_number (given tree)", gpy.winding_number, P, V, G, fwn_bvh=W)
        q("wind", "fast_winding_number", gpy.fast_winding_number, P, V, G)
        q("wind", "fast_winding_number (given tree)", gpy.fast_winding_number, P, V, G, fwn_bvh=W)
        q("wind", "fast_winding_number_precompute", W.winding_number, P)
    if len(V) == len({tuple(v) for v in V}) or F is not None:
        kw = {} if F is None else {"F": F}
        q("signed", "signed_distance", gpy.signed_distance, P, V, use_cpp=False, **kw)
        q("signed", "signed_distance (compiled)", gpy.signed_distance, P, V, **kw)
        q("signed", "signed_distance (given trees)", gpy.signed_distance, P, V, cpp_aabb=T, fwn_bvh=W, **kw)
    if ordered:
        q("poly", "signed_distance_polygon", gpy.signed_distance_polygon, P, V)
    rec.end()


def solid(rng, k):
    """closed surfaces: convex, bent, torus, several, inside out"""
    from drv_nest import hull, BENT
    V, F = [lambda: hull(rng.normal(size=(int(rng.integers(4, 9)), 3))), lambda: BENT[int(rng.integers(2))], lambda: (M.icosa()[0] + 0., M.icosa()[1])][k % 3]()
    V, F = np.round(V * 64) / 64, np.array(F)
    n = np.cross(V[F[:, 1]] - V[F[:, 0]], V[F[:, 2]] - V[F[:, 0]])
    if (np.linalg.norm(n, axis=1) < 1e-2).any():
        return solid(rng, k)
    return V, F[:, ::-1] if k % 7 == 3 else F


def queries3(rng, V, F, n=8):
    ext = np.ptp(V, axis=0).max()
    P = []
    for k in range(n):
        f = V[F[int(rng.integers(len(F)))]]
        c = rng.dirichlet(np.ones(3)) @ f
        P.append(V.mean(0) + rng.normal(size=3) * ext * .2 if k % 4 == 0 else c + rng.normal(size=3) * ext * [.02, .2, 2][k % 3])
    return np.array(P)


def queries(rng, V, n=10):
    """near, far, level with vertices, close to edges"""
    ext = np.ptp(V, axis=0).max() or 1.
    P = []
    for k in range(n):
        v, w = V[rng.integers(len(V))], V[rng.integers(len(V))]
        m = k % 5
        if m == 0:
            p = V.mean(0) + rng.normal(size=2) * ext * .3
        elif m == 1:
            p = np.array([w[0] + rng.normal() * ext, v[1]])     # level with a vertex
        elif m == 2:
            p = np.array([v[0], w[1] + rng.normal() * ext])
        elif m == 3:
            i = int(rng.integers(len(V)))
            s = rng.uniform()
            p = V[i] * (1 - s) + V[(i + 1) % len(V)] * s + rng.normal(size=2) * ext * .01
        else:
            p = V.mean(0) + rng.normal(size=2) * ext * 4
        P.append(p)
    return np.array(P)


def star(rng, n, simple=True):
    a = np.sort(rng.uniform(0, 2 * np.pi, n))
    r = rng.uniform(.3, 2, n)
    return np.round(np.stack([r * np.cos(a), r * np.sin(a)], 1) * 256) / 256


def p19(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p19")
    g = gen.get("MC_Winding4", []) + gen.get("MC_Winding5", [])
    simple, other = [x for x in g if x["simple"]], [x for x in g if not x["simple"]]
    lat = np.array([[x, y] for x in range(-1, 6) for y in range(-1, 6)], float)
    pick = lambda L, n: [L[i] for i in sorted(rng.permutation(len(L))[:n].tolist())]
    for k, c in enumerate(pick(simple, len(simple) if rec.thorough else 130) + pick(other, 600 if rec.thorough else 60)):
        V = np.array([[float(x) for x in p] for p in c["X"]])
        P = lat[rng.permutation(len(lat))[:24]]
        V = np.roll(V, int(rng.integers(len(V))), axis=0)
        if k % 2:
            V = V[::-1].copy()
        s = 2.0 ** int(rng.integers(-20, 20)) if k % 3 == 0 else 1.
        off = np.array([rng.integers(-5, 5), rng.integers(-5, 5)]) * (k % 4 == 0)
        case(rec, f"lattice{k}", (V + off) * s, None, (P + off) * s, True)
    for k in range(40 * mult):
        n = int(rng.integers(3, 14))
        V = star(rng, n) if k % 3 else rnd(rng, n, 2)
        if len({tuple(v) for v in V}) < n:
            continue
        if k % 2:
            V = V[::-1].copy()
        if k % 5 == 0:
            V = V * 2.0 ** int(rng.integers(-25, 25)) + 0.
        P = queries(rng, V)
        case(rec, f"star{k}", V, None, P, True)
        if k % 4 == 0:                                  # repeated vertices (zero-length edges), for the polygon distance
            i = int(rng.integers(n))
            case(rec, f"repeated{k}", np.insert(V, i, V[i], axis=0), None, P, True)
            case(rec, f"repeated-last{k}", np.vstack([V, V[:1]]), None, P, True)
    for k in range(40 * mult):                          # several components, nested, opposite orientations, shuffled edges
        Vs, Fs, o = [], [], 0
        for c in range(int(rng.integers(1, 4))):
            W = star(rng, int(rng.integers(3, 7))) * rng.choice([.25, .5, 1, 2]) + np.round(rng.normal(size=2) * 32) / 32 * rng.choice([0, 1])
            i = np.arange(len(W))
            E = np.stack([i, (i + 1) % len(W)], 1) + o
            Fs.append(E[:, ::-1] if rng.integers(2) else E)
            Vs.append(W)
            o += len(W)
        V, F = np.vstack(Vs), np.vstack(Fs)
        F = F[rng.permutation(len(F))]
        p = rng.permutation(len(V))
        U = np.empty_like(V)
        U[p] = V
        case(rec, f"components{k}", U, p[F], queries(rng, U, 15), False)
    for k in range(14 * mult):                          # closed surfaces in space
        V, F = solid(rng, k)
        if k % 3 == 1 and len(F) < 20:                  # two of them, nested or overlapping
            U, G = solid(rng, k + 1)
            V, F = np.vstack([V, U * rng.choice([.25, 1]) + np.round(rng.normal(size=3) * 16) / 32]), np.vstack([F, G + len(V)])
        if k % 4 == 1:
            V = V * 2.0 ** int(rng.integers(-12, 12))
        case(rec, f"solid{k}", V, F, queries3(rng, V, F), False)
    for k in range(40 * mult):                          # curves that do not close: the angle they subtend
        n = int(rng.integers(2, 9))
        V = star(rng, n) if k % 2 and n > 2 else rnd(rng, n, 2)
        if len({tuple(v) for v in V}) < n:
            continue
        F = np.stack([np.arange(n - 1), np.arange(1, n)], 1)
        if k % 3 == 1:
            F = F[rng.random(len(F)) < .7] if len(F) > 2 else F
        if k % 3 == 2:                                  # any oriented segments
            F = np.array([rng.permutation(n)[:2] for _ in range(int(rng.integers(1, 8)))])
        if len(F) == 0:
            continue
        if k % 2:
            F = F[:, ::-1]
        if k % 5 == 0:
            V = V * 2.0 ** int(rng.integers(-25, 25))
        case(rec, f"open{k}", V, F, queries(rng, V, 15), False)
