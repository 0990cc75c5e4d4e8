"""P34, P35: eigenfunctions of the grid Laplacian and stochastic Poisson reconstruction."""
from fractions import Fraction
import numpy as np
import gpytoolbox as gpy
from vlib import nums, num, snapshot, enc


def modes(rec, m, gs, l):
    gs = np.array(gs)
    l = np.array(l)
    b = snapshot([gs, l])
    v, exc = rec.run(gpy.grid_laplacian_eigenfunctions, m, gs, l)
    rec.event("modes", {"m": int(m), "gs": gs.tolist(), "l": nums(l), "same": snapshot([gs, l]) == b}, enc(v), exc)


def p34(rec, gen):
    rng = rec.rng("p34")
    seen = sorted({tuple(x["l"]) for x in gen["MC_Spectrum"]})
    for l in seen:
        l = [float(Fraction(q)) for q in l]
        rec.begin("box%s" % (l,))
        for m in (1, 2, 3, 4, 7, 8, 9, 17, 31, 64 if len(l) == 3 else 40):
            gs = rng.integers(1, 7 if len(l) == 2 else 5, len(l))
            f = float(rng.choice([1., .5, 3., .1]))
            modes(rec, m, gs, np.array(l) * f)
        modes(rec, 12, [3, 4, 2][:len(l)], np.arange(len(l)) + 1)
        rec.end()
    # long thin boxes: many waves along one side before the first along another
    for d in (2, 3):
        for a in range(d):
            rec.begin("long%d%d" % (d, a))
            l = np.ones(d)
            l[a] = 25.
            for m in (11, 24, 60 if rec.thorough else 36):
                modes(rec, m, rng.integers(2, 6, d), l)
            l[a - 1] = 8.
            modes(rec, 48, rng.integers(2, 5, d), l)
            rec.end()
    for t in range(60 if rec.thorough else 16):
        rec.begin("rnd%d" % t)
        d = int(rng.integers(2, 4))
        gs = rng.integers(1, 8 if d == 2 else 6, d)
        l = rng.uniform(.05, 3., d) if rng.random() < .5 else gs * rng.choice([.1, .25, .5], d)
        modes(rec, int(rng.integers(1, 70 if t % 4 else 160)), gs, l)
        rec.end()


def inverse(gs, h):
    """Columns of the inverse of G'G + eps on the fields of zero sum."""
    G = gpy.fd_grad(gs, h).toarray()
    lam, Q = np.linalg.eigh(G.T @ G)
    Q = Q[:, 1:]
    return (Q / (lam[1:] + 1e-6)) @ Q.T


def psr(rec, P, N, given, gs=None, h=None, corner=None, sn=0., sigma=.05, m=0, prior=None, var=False, few=0):
    d = P.shape[1]
    kw = {}
    if given in ("all", "size"):
        kw["gs"] = np.array(gs)
    if given in ("all", "spacing"):
        kw["h"], kw["corner"] = h, corner
    if var:
        kw["output_variance"] = True
    if m:
        kw["solve_subspace_dim"] = m
    if sn:
        kw["sigma_n"] = sn
    if sigma != .05:
        kw["sigma"] = sigma
    c, M = np.zeros(d), np.zeros((d, d))
    if prior is not None:
        c, M = prior
        kw["prior_fun"] = lambda X: c + X @ M.T
    args = [P, N] + [kw[k] for k in ("gs", "h", "corner") if k in kw]
    b = snapshot(args)
    v, exc = rec.run(gpy.stochastic_poisson_surface_reconstruction, P, N, **kw)
    i = {"P": nums(P), "N": nums(N), "given": given, "gs": [int(x) for x in gs] if gs is not None else [], "h": nums(h) if h is not None else [],
         "corner": nums(corner) if corner is not None else [], "sn": num(sn), "sigma": num(sigma), "m": int(m), "var": bool(var),
         "prior": {"c": nums(c), "m": nums(M)}, "nodes": [], "cert": [], "same": snapshot(args) == b}
    if var and not exc and len(v) == 3:
        var_ = np.asarray(v[1]).ravel()
        am = int(np.argmin(var_)) if np.all(np.isfinite(var_)) else 0
        if m:
            i["nodes"] = [am]
        else:
            if given == "all":
                g2, h2 = np.array(gs), np.asarray(h, float)
            elif given == "size":
                g2 = np.array(gs)
                h2 = 1.5 * (P.max(0) - P.min(0)) / g2
            else:
                h2 = np.asarray(h, float)
                g2 = np.floor((P.max(0) + .25 * (P.max(0) - P.min(0)) - corner) / h2).astype(int)
            n = int(np.prod(g2))
            rest = [int(x) for x in rec.rng("nodes").permutation(n) if x != am and x < len(var_)]
            i["nodes"] = [am, int(np.argmax(var_)) % n] + rest[:few or n]
            E = inverse(g2, h2)
            i["cert"] = [nums(E[x % n]) for x in i["nodes"]]
    rec.event("psr", i, enc(v), exc)


def p35(rec, gen):
    rng = rec.rng("p35")
    clouds = {}
    for k in sorted(k for k in gen if k.startswith("MC_Psr")):     # the positions of the design model, a few at a time
        for x in gen[k]:
            clouds.setdefault((tuple(x["gs"]), tuple(x["h"])), []).append([float(Fraction(q)) for q in x["u"]])
    todo = []
    for (gs, h), U in sorted(clouds.items()):
        U = np.array(sorted(U))[rng.permutation(len(U))]
        todo += [(gs, [float(Fraction(q)) for q in h], U[a:a + 6]) for a in range(0, len(U) - 1, 6)]
    for q in range(len(todo) if rec.thorough else 14):
        gs, h, U = todo[(q * 5) % len(todo) if len(todo) % 5 else q]
        rec.begin("cloud%d" % q)
        corner = rng.integers(-2, 3, len(gs)) * (1 if q % 2 else .25)
        psr(rec, corner + U * h, rng.normal(size=U.shape), "all", gs=gs, h=np.array(h), corner=corner, var=q % 4 == 0, few=4, sn=float(rng.choice([0., .2])))
        rec.end()
    for t in range(90 if rec.thorough else 24):
        rec.begin("psr%d" % t)
        d = 3 if t % 4 == 3 else 2
        gs = rng.integers(6, 10, d) if d == 2 else rng.integers(6, 8, d)
        if t % 8 == 1:
            gs = np.array([6, 12])[::int(rng.choice([1, -1]))]
        h = rng.uniform(.6, 1.4, d) * float(rng.choice([.01, .1, 1., .3]))
        if t % 5 == 0:
            h = np.ones(d) * float(rng.choice([.125, .01, 1.]))
        corner = rng.uniform(-2, 2, d)
        if t % 6 == 2:
            corner = rng.integers(-2, 3, d)
        n = int(rng.integers(2, 8))
        P = corner + (gs - 1) * h * rng.uniform(size=(n, d))
        if t % 3 == 0:     # the very corner, half cells at both ends, a repeated point
            P[0] = corner + .3 * h * (t % 2)
            P[1] = corner + (gs - 1 - .3) * h
            if n > 3:
                P[2] = P[3]
        N = rng.normal(size=(n, d))
        N /= np.linalg.norm(N, axis=1)[:, None]
        sn = float(rng.choice([0., .1, .5]))
        sigma = float(rng.choice([.05, 1., .3]))
        prior = (rng.normal(size=d), rng.normal(size=(d, d))) if t % 3 == 1 else None
        given = ["all", "all", "size", "all", "spacing"][t % 5]
        if given == "size":
            P = rng.uniform(-3, 3, d) + rng.uniform(.1, 2.) * rng.uniform(size=(n, d)) if t % 2 else np.vstack([P - corner, corner - P])
            N = rng.normal(size=P.shape)
        if given == "spacing":     # points in the box whose envelope ends within the last cell
            gs = rng.integers(8, 11 if d == 2 else 9, d)
            P = np.vstack([corner + .1 * h, corner + (.1 + (gs + .4) / 1.25) * h])
            P = np.vstack([P, P[0] + (P[1] - P[0]) * rng.uniform(size=(n, d))])
            N = rng.normal(size=P.shape)
        var = t % 7 != 5
        m = int(rng.integers(1, 6)) if t % 4 in (0, 1) and given != "spacing" else 0
        psr(rec, P, N, given, gs=gs if given != "spacing" else None, h=h if given != "size" else None, corner=corner if given != "size" else None,
            sn=sn, sigma=sigma, m=m, prior=prior, var=var, few=6 if d == 3 else (0 if rec.thorough else 16))
        rec.end()
