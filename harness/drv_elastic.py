"""P32: elastic stiffness matrices and sequences of implicit steps."""
import numpy as np
import scipy.sparse as sp
import gpytoolbox as gpy
import meshes as M
from vlib import nums, raw, num, enc, snapshot, trip

MODEL = [([[0, 0], [2, 0], [0, 2]], [[0, 1, 2]]),
         ([[0, 0], [2, 0], [2, 2], [0, 4]], [[0, 1, 2], [2, 3, 0]]),
         ([[0, 0], [4, 0], [0, 4], [2, 2], [4, 4]], [[0, 1, 3], [0, 3, 2], [3, 1, 4], [2, 3, 4]])]
MATS = [(2., 1.5), (1., .75)]


def stiff(rec, V, F, kw, U):
    args = [V, F] + [kw.get(k) for k in ("volumes", "mass")]
    s = snapshot(args)
    v, exc = rec.run(gpy.linear_elasticity_stiffness, V, F, **kw)
    rec.event("stiff", {"X": nums(V), "F": raw(F), "K": num(kw.get("K", 1.75)), "mu": num(kw.get("mu", 0.0115)),
                        "areas": nums(kw["volumes"]) if "volumes" in kw else [], "hasM": "mass" in kw, "M": trip(kw["mass"]) if "mass" in kw else [],
                        "U": nums(U), "same": snapshot(args) == s}, enc(v), exc)
    return v


def run_steps(rec, V, F, kw, u, v, sched):
    """sched: (dt, force or None, fixed, displacements) per step"""
    asc = None
    for t, (dt, f, bb, bc) in enumerate(sched):
        kk = dict(kw)
        if dt is not None:
            kk["dt"] = dt
        if f is not None:
            kk["fext"] = f
        if v is not None:
            kk["Ud0"] = v
        if bb is not None:
            kk["bb"], kk["bc"] = bb, bc
        args = [V, F, u] + [kk[k] for k in sorted(kk)]
        s = snapshot(args)
        val, exc = rec.run(gpy.linear_elasticity, V, F, u, **kk)
        d = .1 if dt is None else dt
        l = kw.get("K", 1.75) - 2 / 3 * kw.get("mu", .0115)
        P = V[F].astype(float)
        ar = np.abs(np.linalg.det(np.stack([P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]], 1)))
        ln = max(np.linalg.norm(P[:, i] - P[:, (i + 1) % 3], axis=1).max() for i in range(3))
        mod = abs(l) + 2 * abs(kw.get("mu", .0115))
        vol = np.asarray(kw["volumes"]) if "volumes" in kw else ar
        asc = 12 * d * d * mod * (vol * (ln / ar) ** 2).max()          # size of the stiffness entries
        ssc = 12 * mod * (ln / ar).max()
        n = len(V)
        un = vn = None
        if exc == "" and isinstance(val, tuple) and getattr(val[0], "shape", None) == (2 * n,):
            un = np.reshape(val[0], (-1, 2), order="F")
            vn = (un - u) / d
        cols = lambda x: nums(np.asarray(x).T) if x is not None else nums(np.zeros((2, n)))
        rec.event("step", {"X": nums(V), "F": raw(F), "K": num(kw.get("K", 1.75)), "mu": num(kw.get("mu", 0.0115)),
                           "areas": nums(kw["volumes"]) if "volumes" in kw else [], "hasM": "mass" in kw, "M": trip(kw["mass"]) if "mass" in kw else [],
                           "dt": num(d), "f": cols(f), "U0": cols(u), "V0": cols(v), "restart": t == 0, "bb": raw(bb) if bb is not None else [], "bc": nums(bc) if bb is not None else [],
                           "asc": num(asc), "ssc": num(ssc), "tiny": "1/1000000000000000000000000000000", "vnext": cols(vn), "same": snapshot(args) == s}, enc(val), exc)
        if un is None:
            return
        u, v = un, vn


def p32(rec, gen):
    rng = rec.rng("p32")
    for t, g in enumerate(gen.get("MC_Elasticity", [])):
        if (t + rec.seed) % (2 if rec.thorough else 9):
            continue
        V, F = (np.array(x) for x in MODEL[g["mesh"] - 1])
        V, n = V.astype(float), len(V)
        i = np.arange(1, n + 1)
        fld = [np.zeros((n, 2)), np.stack([i == 1, -1. * (i == 2)], 1).astype(float), np.stack([(i * i) % 3, i % 2], 1).astype(float)]
        loads = [np.zeros((n, 2)), np.stack([0. * i, -2. + 0 * i], 1), np.stack([4. * (i == n), 0. * i], 1)]
        clamps = [None, [0], [1, 0]]
        lg = g["log"]
        sched = []
        for d, lo, cl in zip(lg[2::3], lg[3::3], lg[4::3]):
            c = clamps[cl - 1]
            bc = None if c is None else np.array([[0., .5], [.5, 0.]])[:len(c)] if len(c) > 1 else np.array([[0., .5]])
            sched.append(([.5, 2.][d - 1], loads[lo - 1], None if c is None else np.array(c), bc))
        K, mu = MATS[g["mat"] - 1]
        rec.begin(f"model{t}")
        run_steps(rec, V, F, dict(K=K, mu=mu, mass=gpy.massmatrix(V, F, "barycentric")), fld[lg[0] - 1], fld[lg[1] - 1], sched)
        rec.end()
    for t in range(110 if rec.thorough else 36):
        which = t % 6
        if which == 0:
            V, F = np.array([[0., 0], [1, 0], [0, 1]]), np.array([[0, 1, 2]])
        elif which == 1:
            V, F = M.disjoint((np.array([[0., 0], [1, 0], [0, 1]]), np.array([[0, 1, 2]])), (np.array([[3., 0], [5, 0], [3, 1]]), np.array([[0, 1, 2]])))
        elif which == 2:
            V, F = M.annulus_tris(int(rng.integers(3, 6)), 1)
        else:
            V, F = M.grid_tris(int(rng.integers(1, 4)), int(rng.integers(1, 4)))
            if which == 5:
                F = M.make_vertex_manifold(M.random_submesh(rng, F, .6))
                u, inv = np.unique(F, return_inverse=True)
                V, F = V[u], inv.reshape(F.shape)
        V = V[:, :2] + rng.uniform(-.2, .2, (len(V), 2))
        V = np.round(V * 1024) / 1024
        P = V[F]
        if np.linalg.det(np.stack([P[:, 1] - P[:, 0], P[:, 2] - P[:, 0]], 1)).min() < .02:
            continue
        if t % 4 == 1:
            V = V * [1., 3.] + [50., -7.]
        if t % 4 == 2:
            V = V * 2. ** int(rng.integers(-8, 9))
        if t % 7 == 3:
            F = F[:, [0, 2, 1]]
        F, perm = M.relabel(rng, F, n=len(V))
        W = np.empty_like(V)
        W[perm] = V
        V = W
        if t % 5 == 4:
            F = F.astype(np.int32)
        n = len(V)
        kw = [{}, dict(K=2.5, mu=1.), dict(K=float(rng.uniform(.5, 9)), mu=float(rng.uniform(.01, 4))), dict(mu=.7)][t % 4]
        if t % 3 == 1:
            kw = dict(kw, mass=[lambda: gpy.massmatrix(V, F, "full"), lambda: sp.diags(rng.uniform(.5, 2, n)).tocsr(), lambda: gpy.massmatrix(V, F, "barycentric")][(t // 3) % 3]())
        if t % 5 == 2:
            kw = dict(kw, volumes=rng.uniform(.5, 2, len(F)))
        U = np.concatenate([rng.integers(-3, 4, (2, 2 * n)).astype(float), rng.standard_normal((2, 2 * n))])
        rec.begin(f"stiff{t}")
        stiff(rec, V, F, kw, U)
        rec.end()
        sched = []
        for k in range(int(rng.integers(1, 5))):
            dt = [None, .2, 1., float(10. ** rng.uniform(-3, 1))][int(rng.integers(4))]
            f = None if rng.random() < .3 else rng.standard_normal((n, 2)) if rng.random() < .7 else np.tile([0., -9.8], (n, 1))
            m = int(rng.integers(0, n + 1)) if rng.random() < .6 else None
            bb = None if m is None else rng.permutation(n)[:m]
            if m is not None and m == n:
                bb = bb[:-1]
            if bb is not None and not len(bb):
                bb = None
            sched.append((dt, f, bb, None if bb is None else rng.standard_normal((len(bb), 2))))
        u0 = rng.standard_normal((n, 2)) * [1, 0, 1e-3][t % 3]
        v0 = None if t % 4 == 0 else rng.standard_normal((n, 2))
        rec.begin(f"steps{t}")
        run_steps(rec, V, F, kw, u0, v0, sched)
        rec.end()
