import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums
import meshes as M


def chain(rec, id, V, F, method, steps, mat, n=None):
    """one history: `steps` single subdivisions, after each the same number in one call"""
    n = len(V) if V is not None else int(F.max()) + 1
    rng = rec.rng(id)
    X = rng.integers(-8, 9, (2, n))
    rec.begin(id)
    hv = V is not None
    rec.event("start", {"F": raw(F), "V": nums(V) if hv else "None", "hasV": hv, "X": nums(X)}, {"t": "none"})
    v, f = V, F
    for k in range(steps + 1):
        kw = {"return_matrix": True} if mat else {}
        if method != "upsample" or k % 2:
            kw["method"] = method
        rec.call("iterate", {"mat": mat, "hasV": hv, "iters": k}, gpy.subdivide, V, F, iters=k, **kw)
        if k == steps:
            break
        nn = len(v) if hv else int(f.max()) + 1
        r = rec.call("subdivide", {"F": raw(f), "V": nums(v) if hv else "None", "hasV": hv, "n": nn, "mat": mat, "method": method},
                     gpy.subdivide, v, f, **kw)
        if r is None:
            break
        v, f = r[0], r[1]
    rec.end()


def gapless(F):
    u, i = np.unique(F, return_inverse=True)
    return i.reshape(F.shape)


def loop_ok(F):
    """interior vertices of valence >= 3, no two faces on the same vertices"""
    if len({tuple(sorted(f)) for f in F.tolist()}) < len(F):
        return False
    ec = M.edge_counts(F)
    bd = {v for k, h in ec.items() if len(h) == 1 for v in k}
    val = {}
    for k in ec:
        for v in k:
            val[v] = val.get(v, 0) + 1
    return all(v in bd or val[v] >= 3 for v in val)


def p08(rec, gen):
    rng = rec.rng("p08")
    mult = 6 if rec.thorough else 1
    coords = lambda n, d: rng.integers(-64, 65, (n, d)) / 16
    for key in ("MC_Subdiv", "MC_Subdiv5"):
        g = gen.get(key, [])
        pick = range(len(g)) if rec.thorough or len(g) < 60 else np.sort(rng.permutation(len(g))[:40])
        for i in pick:
            F = np.array(g[i])
            for j, method in enumerate(("upsample", "loop")):
                if method == "loop" and not loop_ok(F):
                    continue
                chain(rec, f"{key}-{i}-{method}", coords(int(F.max()) + 1, 3), F, method, 2 if len(F) < 3 else 1, True)
    ms = [(nm, F) for nm, V, F in M.library(rng)]
    for k in range(12 * mult):
        ms.append((f"rnd{k}", M.random_manifold(rng)[1]))
    for k, (nm, F) in enumerate(ms):
        if len({tuple(sorted(f)) for f in F.tolist()}) < len(F):
            continue
        G = gapless(M.relabel(rng, F)[0])
        n = int(G.max()) + 1
        d = [3, 2, 3, 1][k % 4]
        if k % 5 == 0:
            G = G.astype(np.int32)
        steps = 2 if len(G) <= 8 else 1
        chain(rec, f"up-{nm}", coords(n, d), G, "upsample", steps, k % 3 != 0)
        if k % 3 == 1:
            chain(rec, f"upn-{nm}", None, G, "upsample", steps, k % 2 == 0)
        chain(rec, f"upx-{nm}", coords(n + 2, 3) * 1000, G, "upsample", 1, k % 2 == 0)
        if loop_ok(G):
            chain(rec, f"loop-{nm}", coords(n, d) if k % 4 else rng.normal(size=(n, 3)), G, "loop", steps, k % 3 != 1)
            if k % 3 == 0:
                chain(rec, f"loopn-{nm}", None, G, "loop", steps, True)
    chain(rec, "deep-up", coords(3, 2), np.array([[2, 0, 1]]), "upsample", 3, True)
    chain(rec, "deep-loop", coords(4, 3), M.TET[1], "loop", 3 if rec.thorough else 2, True)
    V, F = M.icosa()
    chain(rec, "ico-loop", V, F, "loop", 2 if rec.thorough else 1, True)
    for k in range(8 * mult):
        n = int(rng.integers(2, 12))
        kind = k % 4
        if kind == 0:
            E = np.stack([np.arange(n - 1), np.arange(1, n)], -1)
        elif kind == 1:
            n = max(n, 3)
            E = np.stack([np.arange(n), (np.arange(n) + 1) % n], -1)
        elif kind == 2:
            p = rng.permutation(n)
            E = np.stack([p[:-1], p[1:]], -1)
            E = E[rng.permutation(len(E))]
        else:
            n = max(n, 3)
            p = rng.permutation(n)
            E = np.stack([p, np.roll(p, -1)], -1)
        chain(rec, f"poly{k}", coords(n, [2, 3, 1][k % 3]), E, "upsample", 3 if n < 5 else 2, k % 2 == 0)
        if k % 4 == 3:
            chain(rec, f"polyn{k}", None, E, "upsample", 2, k % 8 == 3)
