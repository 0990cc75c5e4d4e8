"""P30: kernels, matrix_from_function and histories of Gaussian process objects."""
from fractions import Fraction
import numpy as np
import scipy.sparse as sps
import gpytoolbox as gpy
from vlib import nums, snapshot, num, enc


def density(rec, x, n, s, c, k):
    kw = {"n": n, "sigma": s}
    if c is not None:
        kw["center"] = c
    if k >= 0:
        kw["second_derivative"] = k
    b = snapshot([x, c])
    v, exc = rec.run(gpy.compactly_supported_normal, x, **kw)
    X = x.reshape(-1, 1) if x.ndim == 1 else x
    rec.event("density", {"x": nums(X), "n": n, "s": num(s), "c": nums(np.zeros(X.shape[1]) if c is None else c), "k": k + 1, "same": snapshot([x, c]) == b}, enc(v), exc)


def kernel(rec, gauss, x, y, length, scale, der):
    f = gpy.squared_exponential_kernel if gauss else gpy.compactly_supported_normal_kernel
    b = snapshot([x, y, length])
    v, exc = rec.run(f, x, y, length=length, scale=scale, derivatives=der)
    X, Y = (x.reshape(-1, 1), y.reshape(-1, 1)) if x.ndim == 1 else (x, y)
    rec.event("kernel", {"gauss": gauss, "x": nums(X), "y": nums(Y), "len": nums(np.ones(len(X)) * length), "scale": num(scale), "i": int(der[0]) + 1, "j": int(der[1]) + 1, "same": snapshot([x, y, length]) == b}, enc(v), exc)


def pairwise(k, X, Y):
    return np.array([[float(np.ravel(k(X[i:i + 1], Y[j:j + 1]))[0]) for j in range(len(Y))] for i in range(len(X))]).reshape(len(X), len(Y))


def block(k, X, Y, grads):
    if not grads:
        return pairwise(k, X, Y)
    d = X.shape[1]
    return np.block([[pairwise(lambda a, b: k(a, b, derivatives=(i - 1, j - 1)), X, Y) for j in range(d + 1)] for i in range(d + 1)])


def gp_history(rec, rng, t):
    objs = []
    for step in range(int(rng.integers(3, 8))):
        if not objs or (len(objs) < 3 and rng.random() < .35):
            d = int(rng.integers(1, 4))
            grads = rng.random() < .35
            n = int(rng.integers(1, 7 if not grads else 4))
            X = np.unique(rng.integers(0, 4, (n, d)), axis=0).astype(float)
            X = X[rng.permutation(len(X))] * .5
            n = len(X)
            kind = ["default", "se", "compact", "radial"][int(rng.integers(4))]
            if kind == "radial":
                grads = False
            L = float(rng.choice([.25, .4, .7, 1.5])) if kind in ("compact", "radial") else float(rng.choice([.2, .3]))
            sc = float(rng.choice([1., .5, 2.]))
            if kind == "default":
                k, kw = gpy.squared_exponential_kernel, {}
            else:
                base = gpy.squared_exponential_kernel if kind == "se" else gpy.compactly_supported_normal_kernel

                def k(a, b, derivatives=(-1, -1), base=base, L=L, sc=sc, kind=kind):
                    if kind == "radial":      # Wendland's C2 function of radius 2L, positive definite up to dimension 3
                        r = np.linalg.norm(a - b, axis=1) / (2 * L)
                        return sc * np.where(r < 1, (1 - r) ** 4 * (4 * r + 1), 0.)
                    return base(a, b, length=L, scale=sc, derivatives=derivatives)
                kw = {"kernel": k}
                if kind != "se" and rng.random() < .6:
                    kw["compact_kernel"] = True
            s = [.02, .1, .5, 0.][int(rng.integers(4))]
            induced = rng.random() < .3
            if induced and s == 0:
                s = .1
            y = rng.integers(-4, 5, n) / 2.
            K = block(k, X, X, grads)
            lump = bool(not induced and rng.random() < .15)
            info = dict(id=f"g{len(objs)}", s2=num(s ** 2.0), induced=bool(induced), lump=lump)
            yy = y
            if grads:
                G = rng.integers(-2, 3, (n, d)) / 2.
                kw["grad_y_train"] = G
                yy = np.concatenate([y, G.flatten("F")])
            info["y"] = nums(yy)
            Z = X
            if induced:
                Z = X[: max(1, n - int(rng.integers(0, 3)))] + (0.125 if rng.random() < .5 else 0.)
                kw["X_induced"] = Z
                Q, P = block(k, Z, Z, grads), block(k, Z, X, grads)
                Q[np.abs(Q) < 1e-300] = 0
                S = Q + P @ P.T / s ** 2
                c = np.linalg.cond(Q) * max(1, np.linalg.cond(S))
                info |= {"Q": nums(Q), "P": nums(P)}
                a1 = np.linalg.norm(np.linalg.inv(S), 2) * np.linalg.norm(P @ yy) / s ** 2
                a2 = np.linalg.norm(np.linalg.inv(Q), 2) * np.linalg.norm(Q @ np.linalg.solve(S, P @ yy)) / s ** 2
                amp, camp = a1 + a2, np.linalg.norm(np.linalg.inv(Q), 2)
            else:
                C = (np.diag(K.sum(axis=1)) if lump else K) + s ** 2 * np.eye(len(K))
                if lump and np.abs(np.diag(C)).min() < 1e-6:
                    continue
                c = np.linalg.cond(C)
                info |= {"K": nums(K)}
                amp = np.linalg.norm(np.linalg.inv(C), 2) * np.linalg.norm(yy)
                camp = np.linalg.norm(np.linalg.inv(C), 2)
            if c > 1e6:
                continue
            kw["sigma_n"] = s
            if lump:
                kw["lump_K3"] = True
            ya = y[:, None] if rng.random() < .25 else y
            b = snapshot([X, ya, kw.get("X_induced"), kw.get("grad_y_train")])
            g, exc = rec.run(gpy.gaussian_process_precompute, X, ya, **kw)
            info["same"] = snapshot([X, ya, kw.get("X_induced"), kw.get("grad_y_train")]) == b
            rec.event("fit", info, [], exc)
            if exc:
                return
            objs.append(dict(id=info["id"], g=g, X=X, Z=Z, y=ya, kw=kw, k=k, grads=grads, amp=amp, camp=camp, d=d))
            continue
        o = objs[int(rng.integers(len(objs)))]
        p = int(rng.integers(1, 5))
        T = rng.integers(0, 16, (p, o["d"])) / 8. if rng.random() < .7 else o["X"][:p].copy()
        monly = bool(rng.random() < .25)
        K2, K1 = block(o["k"], o["Z"], T, o["grads"]), block(o["k"], T, T, o["grads"])
        tol = 3e-5 * np.linalg.norm(K2, 2) * o["amp"] + 1e-8 + 1e-9 * len(K2) * o["camp"] * 10
        ctol = 1e-8 * (1 + np.linalg.norm(K2, 2) ** 2 * o["camp"])
        b = snapshot([T, o["X"], o["y"]])
        if rng.random() < .3:
            monly = False
            v, exc = rec.run(gpy.gaussian_process, o["X"], o["y"], T, **o["kw"])
        elif monly:
            v, exc = rec.run(o["g"].predict, T, mean_only=True)
        else:
            v, exc = rec.run(o["g"].predict, T)
        if not exc and isinstance(v, tuple) and len(v) == 2:
            v = tuple(np.asarray(q.toarray() if sps.issparse(q) else q) if q is not None else None for q in v)
        rec.event("predict", {"id": o["id"], "K2": nums(K2), "K1": nums(K1), "tol": num(tol), "ctol": num(ctol), "monly": monly, "same": snapshot([T, o["X"], o["y"]]) == b}, enc(v), exc)


def p30(rec, gen):
    rng = rec.rng("p30")
    lat = {}
    for g in gen.get("MC_Kernels", []):
        lat.setdefault(g["n"], []).append(float(Fraction(g["x"])))
    for n in sorted(lat):
        xs = np.array(lat[n])
        for s, c in ((1., None), (.5, np.array([.25])), (2., None)):
            rec.begin(f"lattice{n}_{s}")
            density(rec, (xs * s + (0 if c is None else c[0]))[:, None] if s != 2. else xs * s, n, s, c, -1)
            if n > 1:
                density(rec, (xs * s + (0 if c is None else c[0]))[:, None], n, s, c, 0)
            for der in ((-1, -1), (0, -1), (-1, 0), (0, 0)):
                if n == 3:
                    kernel(rec, False, xs[:, None] * s, 0 * xs[:, None], s, 1., der)
                if n == 2:
                    kernel(rec, True, xs[:, None] * s, 0 * xs[:, None], s, 1., der)
            rec.end()
    for t in range(80 if rec.thorough else 26):
        d, m = int(rng.integers(1, 4)), int(rng.integers(1, 12))
        x = rng.integers(-12, 13, (m, d)) / 8. if t % 2 else rng.standard_normal((m, d)) * .8
        rec.begin(f"kern{t}")
        n = 1 + t % 4
        k = int(rng.integers(0, d)) if n > 1 and t % 3 == 0 else -1
        density(rec, x[:, 0] if d == 1 and t % 2 else x, n, [1., .5, .3, 2.][t // 4 % 4], None if t % 3 else np.round(rng.standard_normal(d), 2), k)
        y = x + (rng.integers(-16, 17, (m, d)) / 16. if t % 2 else rng.standard_normal((m, d)) * .3)
        length = [.2, .5, 1, rng.uniform(.2, 1., m), np.float64(.3)][t % 5]
        for gauss in (True, False):
            der = (int(rng.integers(-1, d)), int(rng.integers(-1, d)))
            kernel(rec, gauss, x, y, length, [1, 2.5, .1][t % 3], der if t % 2 else np.array(der))
        rec.end()
    for t in range(60 if rec.thorough else 20):
        d, n, m = int(rng.integers(1, 4)), int(rng.integers(1, 6)), int(rng.integers(1, 6))
        X, Y = (rng.integers(-3, 4, (n, d)) / 2., rng.integers(-3, 4, (m, d)) / 2.)
        f = [lambda a, b: gpy.compactly_supported_normal_kernel(a, b, length=.5), lambda a, b: a[:, 0] - 2 * b[:, 0], lambda a, b: np.sum(a * b, axis=1), lambda a, b: np.linalg.norm(a - b, axis=1)][t % 4]
        M = pairwise(f, X, Y)
        sparse, I, J, kw = bool(t % 3), [], [], {}
        if sparse and t % 3 == 2:
            pr = rng.permutation(n * m)[:int(rng.integers(1, n * m + 1))]
            I, J = (pr // m), (pr % m)
            kw["sparsity_pattern"] = (I, J) if t % 2 else [I.tolist(), J.tolist()]
        if not sparse or t % 2:
            kw["sparse"] = sparse
        b = snapshot([X, Y])
        rec.begin(f"matrix{t}")
        v, exc = rec.run(gpy.matrix_from_function, f, X, Y, **kw)
        rec.event("matrix", {"M": nums(M), "sparse": sparse, "all": not len(I), "I": [int(q) for q in I], "J": [int(q) for q in J], "stored": int(v.nnz) if sps.issparse(v) else 0, "same": snapshot([X, Y]) == b}, enc(v), exc)
        rec.end()
    for t in range(120 if rec.thorough else 40):
        rec.begin(f"gp{t}")
        gp_history(rec, rng, t)
        rec.end()
