import numpy as np
import scipy.sparse as sps
import gpytoolbox as gpy
from gpytoolbox.min_quad_with_fixed import min_quad_with_fixed_precompute
from gpytoolbox.fixed_dof_solve import fixed_dof_solve_precompute
from vlib import raw, nums, trip, snapshot, enc

FMT = ["csr", "csc", "coo", "lil"]


def sp(M, rng, fm=None):
    f = fm or ["csr", "csc"][int(rng.integers(2))]
    return getattr(sps, f + "_matrix")(M)


def problem(rng, kind, n, psd=False):
    """regular problem with short dyadic entries"""
    while True:
        B = rng.integers(-2, 3, (n, n)) * (rng.random((n, n)) < .5) / 2.
        if kind == "quad":
            Q = B @ B.T + np.diag(rng.integers(1, 5, n)) if not psd else B @ B.T
            if rng.random() < .4:
                S = np.triu(rng.integers(-1, 2, (n, n)), 1) / 2.
                Q = Q + S - S.T            # same quadratic form
        else:
            Q = B + np.diag(rng.integers(4, 9, n) * rng.choice([-1, 1], n))
        o = int(rng.integers(0, n)) if rng.random() < .8 else 0
        if rng.random() < .08:
            o = n
        m = int(rng.integers(0, max(1, min(3, n - o)))) if kind == "quad" and o < n else 0
        k = rng.permutation(n)[:o]
        free = np.setdiff1d(np.arange(n), k)
        A = rng.integers(-2, 3, (m, n)).astype(float)
        S = (Q + Q.T) / 2 if kind == "quad" else Q
        K = np.block([[S[np.ix_(free, free)], A[:, free].T], [A[:, free], np.zeros((m, m))]])
        if K.size == 0 or np.linalg.cond(K) < 1e4:
            return Q, A, k


def rhs(rng, n, m, o, kind):
    """-> kwargs for the call and their trace form"""
    p = int(rng.integers(1, 4)) if rng.random() < .5 else 0
    kw, tr = {}, {}
    for f, rows in (("c", n), ("b", m if kind == "quad" else n), ("y", o)):
        r = rng.random()
        if kind == "dof" and f == "c":
            tr[f] = {"f": "none"}
        elif r < .15 or rows == 0:
            tr[f] = {"f": "none"}
            if rng.random() < .5:
                kw[f] = None
        elif r < .35:
            v = float(rng.integers(-4, 5)) / 2
            kw[f], tr[f] = v, {"f": "s", "v": nums(v)}
        elif p:
            v = rng.integers(-6, 7, (rows, p)) / 2.
            kw[f], tr[f] = v, {"f": "m", "v": nums(v)}
        else:
            v = rng.integers(-6, 7, rows) / 2.
            kw[f], tr[f] = v, {"f": "v", "v": nums(v)}
    return kw, tr


def desc(kind, Q, A, k):
    return {"kind": kind, "n": len(Q), "Q": trip(Q), "A": trip(A), "m": len(A), "k": raw(np.asarray(k))}


def args(rng, kind, Q, A, k):
    """the matrices as a caller would hold them"""
    Qs = sp(Q, rng)
    As = sp(A, rng) if len(A) else None
    ks = k.copy() if len(k) else (None if rng.random() < .5 else np.zeros(0, dtype=int))
    return Qs, As, ks


def make(rec, obj, kind, Q, A, k, held):
    s = snapshot(list(held))
    if kind == "quad":
        v, exc = rec.run(min_quad_with_fixed_precompute, held[0], held[1], held[2])
    else:
        v, exc = rec.run(fixed_dof_solve_precompute, held[0], held[2])
    rec.event("make", {"obj": obj, "same": s == snapshot(list(held)), **desc(kind, Q, A, k)}, enc(None), exc)
    return v


def solve(rec, obj, P, kind, n, m, o, rng, rh=None):
    kw, tr = rh or rhs(rng, n, m, o, kind)
    s = snapshot(kw)
    v, exc = rec.run(P.solve, **kw)
    rec.event("solve", {"obj": obj, "same": s == snapshot(kw), **tr}, enc(v), exc)
    for x in list(kw.values()) + [v]:         # what the caller does with its own arrays afterwards is its business
        if isinstance(x, np.ndarray):
            x[...] = 7.25


def oneshot(rec, kind, Q, A, k, rng, rh=None):
    held = args(rng, kind, Q, A, k)
    kw, tr = rh or rhs(rng, len(Q), len(A), len(k), kind)
    s = snapshot([list(held), kw])
    if kind == "quad":
        v, exc = rec.run(gpy.min_quad_with_fixed, held[0], A=held[1], k=held[2], **kw)
    else:
        v, exc = rec.run(gpy.fixed_dof_solve, held[0], k=held[2], **kw)
    rec.event("oneshot", {"same": s == snapshot([list(held), kw]), **desc(kind, Q, A, k), **tr}, enc(v), exc)


def p22(rec, gen):
    rng = rec.rng("p22")
    H = gen.get("MC_QuadSolve_hist", [])
    step = 3 if rec.thorough else 13
    for n_, hist in enumerate(H):
        if (n_ + rec.seed) % step:
            continue
        kind = ["quad", "quad", "dof"][n_ // step % 3]
        n = int(rng.integers(2, 7))
        rec.begin(f"hist{n_}-{kind}")
        Q, A, k = problem(rng, kind, n)
        held = args(rng, kind, Q, A, k)
        objs, dims, last = {}, {}, None
        for op, a in hist:
            if op == "make":
                objs[a] = make(rec, f"o{a}", kind, Q, A, k, held)
                dims[a] = (n, len(A), len(k))
            elif op == "scribble":
                # the caller overwrites its arrays in place with another problem of the same sparsity room
                for x in held:
                    if sps.issparse(x):
                        x.data[...] = x.data[::-1] * 3 + 1
                    elif x is not None and len(x):
                        x[...] = x[::-1].copy()
                rec.event("scribble", {}, enc(None))
                Q, A, k = problem(rng, kind, n)
                held = args(rng, kind, Q, A, k)
            elif objs.get(a[0]) is not None:
                solve(rec, f"o{a[0]}", objs[a[0]], kind, *dims[a[0]], rng)
        oneshot(rec, kind, Q, A, k, rng)
        rec.end()
    for t in range(90 if rec.thorough else 22):       # one-shot calls of every input form
        rec.begin(f"oneshot{t}")
        for kind in ("quad", "dof", "quad", "dof", "dof"):
            Q, A, k = problem(rng, kind, int(rng.integers(1, 9)))
            oneshot(rec, kind, Q, A, k, rng)
        if t % 3 == 0:                                # semi-definite form made regular by its constraints
            Q, A, k = problem(rng, "quad", 5, psd=True)
            oneshot(rec, "quad", Q, A, k, rng)
        rec.end()
    for t in range(40 if rec.thorough else 14):       # larger problems with a certificate
        rec.begin(f"cert{t}")
        n = int(rng.integers(10, 50))
        m, o, p = int(rng.integers(0, 4)), int(rng.integers(0, n // 2)), int(rng.integers(1, 3))
        B = rng.integers(-1, 2, (n, n)) * (rng.random((n, n)) < 3. / n)
        Q = (B @ B.T + np.eye(n) * 2).astype(float)
        k = rng.permutation(n)[:o]
        free = np.setdiff1d(np.arange(n), k)
        A = np.zeros((m, n))
        for r in range(m):
            A[r, free[r::m + 1]] = rng.choice([-1., 1, 2], len(free[r::m + 1]))
            if o:
                A[r, k[int(rng.integers(o))]] = 1.
        u = rng.integers(-8, 9, (n, p)) / 4.
        lam = rng.integers(-8, 9, (m, p)) / 2.
        c = -(Q @ u + A.T @ lam)
        c[k] = rng.integers(-9, 10, (o, p))
        b, y = A @ u, u[k]
        P, objname = None, "x"
        kw = {"c": c, "b": b if m else None, "y": y if o else None}
        one = p == 1 and t % 2 == 0
        if one:
            kw = {f: (None if v is None else v[:, 0].copy()) for f, v in kw.items()}
        tr = {f: ({"f": "none"} if v is None else {"f": "v" if v.ndim == 1 else "m", "v": nums(v)}) for f, v in kw.items()}
        tr |= {"u": nums(u), "lam": [] if not m else nums(lam)}
        if t % 3 == 0:
            oneshot(rec, "quad", Q, A, k, rng, (kw, tr))
        else:
            P = make(rec, "x", "quad", Q, A, k, args(rng, "quad", Q, A, k))
            if P is not None:
                solve(rec, "x", P, "quad", n, m, o, rng, (kw, tr))
        rec.end()


def l1call(rec, rng, P, u, s, lam, form=None):
    """P: exact problem with dyadic numbers; form: how the pieces are handed over"""
    n, G, L, A, c, b, k, y, d = (P[x] for x in ("n", "G", "L", "A", "c", "b", "k", "y", "d"))
    kw, tol = {}, "1/1000000"
    ident = d == 1 and G.shape == (n, n) and np.array_equal(G, np.eye(n))
    others = False
    if L.any() or rng.random() < .3:
        if rng.random() < .5:
            kw["Q"] = sp(L @ L.T, rng)
        else:
            kw["L"] = sp(L, rng)
        others = True
    if c.any() or rng.random() < .3:
        kw["c"] = c.copy()
        others = True
    if len(A):
        kw["A"] = A.copy() if rng.random() < .5 else sp(A, rng)
        kw["b"] = b.reshape(-1, 1).copy()
        others = True
    if len(k):
        kw["k"], kw["y"] = k.copy(), y.copy()
        others = others or k.max() == n - 1
    if not ident or not others or rng.random() < .4:
        kw["G"] = sp(G, rng)
    if d != 1 or rng.random() < .2:
        kw["d"] = d
    r = rng.random()
    if r < .15:
        kw["solver"] = "scs"
    elif r < .25:
        kw["params"] = {"eps_abs": 1e-7, "eps_rel": 1e-7}
        tol = "1/10000"
    sn = snapshot(kw)
    for _ in range(4):          # the SCS solver itself may give up at random; the library then raises ValueError
        v, exc = rec.run(gpy.min_l1_with_fixed, **kw)
        if exc != "ValueError":
            break
    D = lambda M: {"e": trip(M), "rows": len(M)}
    rec.event("l1", {"n": n, "d": d, "G": D(G), "A": D(A), "L": {"e": trip(L), "cols": L.shape[1]}, "k": raw(np.asarray(k)), "b": nums(b), "y": nums(y), "c": nums(c),
                     "u": nums(u), "s": nums(s), "lam": nums(lam), "tol": tol, "same": sn == snapshot(kw)}, enc(v), exc)


def p23(rec, gen):
    from fractions import Fraction
    rng = rec.rng("p23")
    fl = lambda a: np.array([float(Fraction(x)) for x in a])
    mat = lambda M, n: np.array([fl(r) for r in M]).reshape(-1, n)
    for t, g in enumerate(gen.get("MC_MinL1", [])):
        if (t + rec.seed) % (7 if rec.thorough else 31):
            continue
        P = g["P"]
        rec.begin(f"small{t}")
        pr = {"n": 2, "d": P["d"], "G": mat(P["G"], 2), "A": mat(P["A"], 2), "L": np.array([fl(r) for r in P["L"]]), "c": fl(P["c"]), "b": fl(P["b"]), "k": np.array(P["k"], int) - 1, "y": fl(P["y"])}
        sv = [Fraction(x) for x in g["s"]]
        l1call(rec, rng, pr, fl(g["u"]), np.array(sv, dtype=object), fl(g["lam"]))
        rec.end()
    PY = {1: [((1,), 1)], 2: [((3, 4), 5), ((-5, 12), 13), ((4, -3), 5), ((0, 1), 1)], 3: [((1, 2, 2), 3), ((2, -3, 6), 7), ((-2, 1, 2), 3), ((1, 0, 0), 1)]}
    for t in range(200 if rec.thorough else 60):
        n = int(rng.integers(1, 9)) if t % 5 else int(rng.integers(10, 31))
        d = [1, 1, 2, 3][t % 4]
        m = int(rng.integers(1, 2 * n))
        u = rng.integers(-4, 5, n).astype(float) * (rng.random(n) < .7)
        if d == 1 and t % 3 == 0:
            G, m = np.eye(n), n
        else:
            piv = np.nonzero(np.abs(u) == 1)[0]
            if not len(piv):
                u[0], piv = 1., np.array([0])
            G = rng.integers(-2, 3, (m * d, n)) * (rng.random((m * d, n)) < min(1., 3. / n + .1)) * 1.
        s, S = [], []
        for g in range(m):
            dir_, norm = PY[d][int(rng.integers(len(PY[d])))]
            dir_ = np.array(dir_, float)
            if d == 1 and t % 3 == 0:
                r = np.array([u[g]])
            else:
                Gg = G[g * d:(g + 1) * d]
                r = dir_ * (float(rng.integers(-2, 3)) if rng.random() < .6 else 0.)
                if d == 1:
                    r = r * rng.integers(1, 4)
                j = piv[int(rng.integers(len(piv)))]
                Gg[:, j] += (r - Gg @ u) / u[j]
                Gg *= norm
                r = r * norm
            if r.any():
                sg = [Fraction(int(np.sign(x / y)) * int(y), norm) for x, y in zip(r, dir_) if y] if d > 1 else [Fraction(int(np.sign(r[0])))]
                if d > 1:
                    sign = 1 if np.dot(r, dir_) > 0 else -1
                    sg = [Fraction(sign * int(y), norm) for y in dir_]
            elif d == 1:
                sg = [Fraction(int(rng.integers(-4, 5)), 4)]
            else:
                w = rng.integers(-2, 3, d)
                sg = [Fraction(int(x), 8) for x in w] if rng.random() < .6 else [Fraction(int(y), norm) for y in dir_]
            s += sg
        r_ = (n if t % 4 == 1 else int(rng.integers(0, 4))) if t % 2 else 0
        L = rng.integers(-1, 2, (n, max(1, r_))) * (1. if r_ else 0.)
        o = int(rng.integers(0, n)) if t % 3 == 1 else 0
        k = rng.permutation(n)[:o]
        free = np.setdiff1d(np.arange(n), k)
        l_ = int(rng.integers(0, min(3, len(free)) + 1)) if t % 4 < 3 else 0
        A = np.zeros((l_, n))
        for q in range(l_):
            A[q] = rng.integers(-1, 2, n)
            A[q, free] = 0
            A[q, free[q::l_]] = rng.choice([-1., 1, 2], len(free[q::l_]))
        lam = rng.integers(-4, 5, l_) / 2.
        c = -(L @ (L.T @ u) + A.T @ lam)
        Gs = [sum(Fraction(int(G[i, j])) * s[i] for i in range(m * d)) for j in range(n)]
        if any((x.denominator & (x.denominator - 1)) for x in Gs):
            continue
        c = c - np.array([float(x) for x in Gs])
        c[k] = rng.integers(-3, 4, o)
        rec.begin(f"prob{t}-d{d}")
        l1call(rec, rng, {"n": n, "d": d, "G": G, "A": A, "L": L, "c": c, "b": A @ u, "k": k, "y": u[k]}, u, np.array(s, dtype=object), lam)
        rec.end()
