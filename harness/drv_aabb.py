import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums, enc, snapshot
import meshes as M


def build(rec, V, F):
    s = snapshot([V, F])
    v, exc = rec.run(gpy.initialize_aabbtree, V, **({} if F is None else {"F": F}))
    G = np.arange(len(V))[:, None] if F is None else F
    rec.event("build", {"X": nums(V), "F": raw(np.asarray(G)), "same": s == snapshot([V, F])}, enc(v), exc)
    return v


DISC = {
    "fifo": lambda q, CH, p: q.extend([CH[p, 0], CH[p, 1]]),
    "lifo": lambda q, CH, p: (q.insert(0, CH[p, 1]), q.insert(0, CH[p, 0])),
    "lifo-swap": lambda q, CH, p: (q.insert(0, CH[p, 0]), q.insert(0, CH[p, 1])),
    "mixed": lambda q, CH, p: (q.insert(0, CH[p, 1]), q.append(CH[p, 0])),
}


def walk(rec, tree, allow, disc):
    C, W, CH, tri, sd = tree
    visits, flag = [], [True]

    def pred(q, C_, W_, CH_, tri_, sd_, leaf):
        visits.append([int(q), int(bool(leaf))])
        flag[0] = flag[0] and C_ is C and W_ is W and np.array_equal(CH_, CH) and tri_ is tri and sd_ is sd
        if len(visits) > 4 * len(CH) + 10:
            raise RuntimeError("endless traversal")
        return int(q) in allow
    kw = {} if disc == "default" else {"add_to_queue": DISC[disc]}
    ch0 = raw(CH)
    v, exc = rec.run(gpy.traverse_aabbtree, C, W, CH, tri, sd, pred, **kw)
    rec.event("walk", {"ch": ch0, "allow": sorted(int(a) for a in allow), "disc": "fifo" if disc == "default" else disc, "visits": visits,
                       "same": flag[0]}, enc(v), exc)


def cases(rec, rng, mult):
    out = []
    for k in range(60 * mult):
        d = [2, 3, 1][k % 3] if k % 4 == 0 else [2, 3][k % 2]
        s = [1, 2, 3, 4][(k // 2) % 4]
        n = int(rng.integers(max(2, s), 24))
        m = int(rng.integers(1, 30))
        V = np.round(rng.normal(size=(n, d)) * 64) / 64
        c = k % 6
        if c == 1:
            V = V * 2.0 ** int(rng.integers(10, 40))       # far beyond any sentinel
        elif c == 2:
            V = V * 2.0 ** -int(rng.integers(5, 40))
        elif c == 3:
            V = V + np.round(rng.uniform(-1, 1, d) * 2 ** int(rng.integers(4, 24)))
        elif c == 4:
            V = np.round(V)                                # many ties
        F = np.array([rng.permutation(n)[:s] for _ in range(m)]) if n >= s else None
        if s == 1 and k % 3:
            F = None
        if k % 10 == 9:
            F = F.astype(np.int32) if F is not None else F
        out.append((f"rnd{k}-{d}d-s{s}", V, F))
    V, F = M.icosa()
    out.append(("icosa", V, F))
    out.append(("icosa-far", V + np.array([3e4, -2e5, 1e6]), F))
    V, F = M.grid_tris(3, 3)
    out.append(("grid", V, F))
    out.append(("same-point", np.zeros((5, 2)), None))
    out.append(("repeated-elements", V, np.vstack([F[:2], F[:2], F[:2]])))
    return out


def p15(rec, gen):
    mult = 5 if rec.thorough else 1
    rng = rec.rng("p15")
    for n, g in enumerate(gen.get("MC_Aabb", [])):
        CH = np.array(g["ch"]).reshape(-1, 2)
        k = len(CH)
        C, W = np.zeros((k, 2)), np.ones((k, 2))
        tri = np.where(CH[:, 1] == -1, np.arange(k), -1)
        rec.begin(f"walk{n}")
        for disc in ["default", "fifo", "lifo", "lifo-swap", "mixed"]:
            walk(rec, (C, W, CH, tri, -np.ones(k, dtype=int)), set(g["allow"]), disc)
        rec.end()
    for id, V, F in cases(rec, rng, mult):
        rec.begin(id)
        v = build(rec, V, F)
        if v is not None:
            C, W, CH, PAR, D, tri, sd = v
            for disc in ["default", "fifo", "lifo", "lifo-swap", "mixed"]:
                walk(rec, (C, W, CH, tri, sd), set(range(len(CH))) if rng.random() < .2 else set(np.flatnonzero(rng.random(len(CH)) < .7).tolist()), disc)
        rec.end()
