"""P39: Reach for the Spheres, iteration by iteration (closest points from geometry.py)."""
import copy
import numpy as np
import gpytoolbox as gpy
import geometry
from vlib import nums, num, raw, snapshot, Timeout
from gpytoolbox.reach_for_the_spheres import ReachForTheSpheresState as State, reach_for_the_spheres_iteration as iteration

DEF = {2: dict(tol=5e-3, mi=10000), 3: dict(tol=1e-2, mi=20000)}
FLOW = dict(remesh_iterations=0, output_sensitive=False)


def ctl(st):
    return dict(its=int(st.its), counter=int(st.convergence_counter), best=num(st.best_avg_error), h=num(st.h), minh=num(st.min_h), rc=int(st.resample_counter))


def par(o, dim, k):
    g = lambda a, d: d if o.get(a) is None else o[a]
    cl = g("clamp", np.inf)
    return dict(tol=num(g("tol", DEF[dim]["tol"])), io=bool(g("inside_outside_test", True)), clamp="inf" if cl == np.inf else num(cl), pseudo=bool(g("pseudosdf_interior", False)),
                linesearch=bool(g("linesearch", True)), mint=num(g("min_t", 1e-6)), maxt=num(g("max_t", 50.)), dt=num(g("dt", 10.)), mi=int(g("max_iter", DEF[dim]["mi"])),
                rs=int(g("resample", 0)), rn=int(g("resample_samples", 2 * int(np.ceil(k ** (1 / dim))))), sensitive=bool(g("output_sensitive", True)),
                aggressive=g("feature_detection", "aggressive") == "aggressive", fix=bool(g("fix_boundary", False)), batch=int(g("batch_size", 20000)), rounds=int(g("remesh_iterations", 1)))


def prepare(st, opts):
    """what the first iteration fills in, made visible before it: an iteration allowed no steps"""
    o = dict(opts, max_iter=0)
    iteration(st, **o)


def step(rec, st, opts, mode, glue=None):
    """one recorded iteration -> converged"""
    dim = st.V.shape[1]
    V, F, U, S = st.V, st.F, st.U, st.S
    lastV, lastF = st.V_last_converged.copy(), st.F_last_converged.copy()
    p, c = par(opts, dim, len(U)), ctl(st)
    keep = [V, F, U, S]
    snap = snapshot(keep)
    conv, exc = rec.run(iteration, st, **opts)
    if exc:
        rec.event("iter", dict(mode=mode, opts={k: str(v) for k, v in opts.items()}, X=nums(V), F=raw(F)), {}, exc)
        return True
    again = st.resample_counter != c["rc"]
    inp = dict(mode=mode, X=nums(V), F=raw(np.asarray(F)), U0=nums(U), S0=nums(S), U=nums(U if again else st.U_batch), S=nums(S if again else st.S_batch), p=p, c=c,
               err=num(st.avg_error) if hasattr(st, "avg_error") else "none")
    if glue is not None:
        inp["r"] = glue
    full = mode != "free" or dim == 2
    out = dict(X=nums(st.V), F=raw(np.asarray(st.F)), conv=bool(conv), c=ctl(st), U=nums(st.U), S=nums(st.S), Ub=nums(st.U_batch), Sb=nums(st.S_batch),
               Sx=nums(st.sdf(st.U)) if again else [], samelast=bool(np.array_equal(st.V_last_converged, lastV) and np.array_equal(st.F_last_converged, lastF)),
               islast=bool(np.array_equal(st.V, lastV) and np.array_equal(st.F, lastF)), lastX=nums(st.V_last_converged), lastF=raw(np.asarray(st.F_last_converged)),
               same=snapshot(keep) == snap)
    rec.event("iter", inp, out)
    return bool(conv)


# ---- inputs
def ngon(rng, n, r=1., c=(0., 0.), wob=0., shift=True):
    t = (np.arange(n) + (rng.random() if shift else 0)) * 2 * np.pi / n
    return np.stack((np.cos(t), np.sin(t)), -1) * (r * (1 + wob * rng.normal(size=(n, 1)))) + np.array(c)


def loop(n, o=0):
    return np.stack((np.arange(n), (np.arange(n) + 1) % n), -1) + o


def curve(rng, kind):
    """-> V, F: closed, open or several pieces, with shuffled numbering"""
    if kind == 0:
        n = int(rng.integers(4, 12))
        V, F = ngon(rng, n, wob=.1), loop(n)
    elif kind == 1:
        n = int(rng.integers(3, 9))
        V, F = np.stack((np.linspace(-1, 1, n), .3 * rng.normal(size=n)), -1), loop(n)[:-1]
    else:
        a, b = int(rng.integers(3, 7)), int(rng.integers(4, 8))
        V, F = np.concatenate((ngon(rng, a, .5, (-1., 0.), .1), ngon(rng, b, .7, (1., .2), .1))), np.concatenate((loop(a), loop(b, a)))
        if rng.random() < .4:
            F = np.delete(F, int(rng.integers(len(F))), 0)
    q = rng.permutation(len(V))
    W = np.empty_like(V)
    W[q] = V
    return W, q[F[rng.permutation(len(F))]]


def solid(rng, kind):
    P = np.array([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], float)
    Q = np.array([[0, 2, 4], [2, 1, 4], [1, 3, 4], [3, 0, 4], [2, 0, 5], [1, 2, 5], [3, 1, 5], [0, 3, 5]])
    if kind == 0:
        V, F = P * (1 + .2 * rng.normal(size=P.shape)) + .05 * rng.normal(size=P.shape), Q
    elif kind == 1:
        V, F = gpy.icosphere(0)
        V = V + .1 * rng.normal(size=V.shape)
    else:                                          # open surfaces
        V, F = gpy.regular_square_mesh(3)
        V = np.concatenate((V, .2 * rng.normal(size=(len(V), 1))), 1)
    q = rng.permutation(len(V))
    W = np.empty_like(V)
    W[q] = V
    return np.ascontiguousarray(W, dtype=float), q[F[rng.permutation(len(F))]]


def box(x):
    return np.max(np.abs(x) - np.array([.7, .5, .6])[: x.shape[1]], axis=1)


def ball(x):
    return np.linalg.norm(x - .1, axis=1) - .6


def egg(x):
    return np.linalg.norm(x * np.array([1., 1.4, 1.2])[: x.shape[1]], axis=1) - .8


SDFS = [box, ball, egg]


def options(rng, dim):
    o = {}
    if rng.random() < .35:
        o["linesearch"] = False
        if rng.random() < .7:
            o["dt"] = float(10 ** rng.uniform(-2, 2))
    elif rng.random() < .4:
        o["max_t"] = float(rng.uniform(.1, 5))
    elif rng.random() < .3:
        o["min_t"] = float(rng.uniform(2, 20))
    if rng.random() < .25:
        o["inside_outside_test"] = False
    if rng.random() < .3:
        o["clamp"] = float(rng.uniform(.2, .6))
    if rng.random() < .3:
        o["pseudosdf_interior"] = True
    if rng.random() < .3:
        o["fix_boundary"] = True
    if rng.random() < .3:
        o["tol"] = float(10 ** rng.uniform(-3, -1))
    if rng.random() < .3:
        o["feature_detection"] = "other"
    return o


def samples(rng, dim, k, sdf, o, V):
    U = rng.uniform(-1.4, 1.4, (k, dim))
    if rng.random() < .5:
        U[: k // 3] = V[rng.integers(len(V), size=k // 3)] * rng.uniform(.6, 1.5, (k // 3, 1))
    if rng.random() < .3:
        S = rng.normal(size=k)
    else:
        S = sdf(U)
    if "clamp" in o:
        S = np.clip(S, -o["clamp"], o["clamp"])
    return U, S


def p39(rec, gen):
    T = 4 if rec.thorough else 1
    rng = rec.rng("spheres")
    quiet = lambda: setattr(geometry, "noop", 0)
    # configurations of the model
    for t, g in enumerate(gen.get("MC_Spheres", [])[:: 1 if rec.thorough else 3]):
        q = lambda a: np.array([[float(eval(x)) for x in r] for r in a])
        e = lambda x: np.inf if x == "inf" else float(eval(x))
        p = g["p"]
        o = dict(FLOW, tol=e(p["tol"]), inside_outside_test=p["io"], clamp=e(p["clamp"]), pseudosdf_interior=p["pseudo"], linesearch=p["linesearch"], min_t=e(p["mint"]), max_t=e(p["maxt"]),
                 dt=e(p["dt"]), fix_boundary=p["fix"])
        st = State(V=q(g["X"]), F=np.array(g["F"]), U=q(g["U"]), S=np.array([e(x) for x in g["S"]]))
        rec.begin(f"model{t}")
        prepare(st, o)
        step(rec, st, o, "flow")
        rec.end()
    # flow without remeshing, several iterations
    for t in range(60 * T):
        dim = 3 if t % 3 == 2 else 2
        V, F = curve(rng, t // 3 % 3) if dim == 2 else solid(rng, t // 3 % 3)
        o = dict(FLOW, **options(rng, dim))
        sdf = SDFS[t % 3]
        U, S = samples(rng, dim, int(rng.integers(4, 14)), sdf, o, V)
        st = State(V=V, F=F, U=U, S=S, sdf=sdf)
        rec.begin(f"flow{t}")
        prepare(st, o)
        for _ in range(3 if dim == 2 else 2):
            if step(rec, st, o, "flow"):
                break
        rec.end()
    # many iterations: counters, refinement, resampling, the end
    for t in range(12 * T):
        V, F = curve(rng, t % 3)
        o = dict(FLOW, **options(rng, 2))
        o.pop("clamp", 0)
        if t % 3 == 1:
            o["resample"] = 1 + t % 2
            o["resample_samples"] = int(rng.integers(1, 5)) if t % 2 else 12
            o["tol"] = .3
        if t % 4 == 2:
            o["max_iter"] = int(rng.integers(1, 20))
        sdf = SDFS[t % 3]
        U = rng.uniform(-1.2, 1.2, (5, 2))
        st = State(V=V, F=F, U=U, S=sdf(U), sdf=sdf, h=float(rng.uniform(.2, .5)), min_h=float(rng.uniform(.02, .3)))
        if t % 3 == 0:
            st.best_avg_error, st.convergence_counter = float(10 ** rng.uniform(-9, -1)), int(rng.integers(95, 101))
            st.min_h = st.h if t % 2 else st.min_h
        rec.begin(f"long{t}")
        prepare(st, o)
        for _ in range(40 if rec.thorough else 25):
            if step(rec, st, o, "flow"):
                break
        else:
            step(rec, st, dict(o, max_iter=int(st.its) + 1), "flow")
        if st.its and t % 4 == 2:
            step(rec, st, o, "flow")
        rec.end()
    # remeshing a curve that does not move
    for t in range(40 * T):
        V, F = curve(rng, t % 3)
        if t % 4 == 3:
            V = V * 3
        if t % 5 == 1:
            n = 24
            V, F = ngon(rng, n, 2., wob=.02), loop(n)[rng.permutation(n)]
        o = dict(linesearch=False, dt=0.0, output_sensitive=bool(rng.random() < .6), remesh_iterations=int(rng.choice([1, 1, 1, 2])))
        if rng.random() < .5:
            o["feature_detection"] = "other"
        U = np.concatenate((rng.uniform(-1.4, 1.4, (8, 2)) * (3 if t % 4 == 3 else 1), V[:1] * 1.05))
        L = np.linalg.norm(V[F[:, 1]] - V[F[:, 0]], axis=1)
        if rng.random() < .5:
            st = State(V=V, F=F, U=U)
            d = np.sqrt(geometry.closest(V, F, U)[0])
            ok = rng.random(len(U)) < .7               # samples already met
            st.S = np.where(ok, d, d + .5)
            if ok.all():
                st.S[0] += .5
        else:
            st = State(V=V, F=F, U=U, S=box(U))
        st.h = float(rng.uniform(.4, 2.2) * np.median(L))
        st.h = min(st.h, L.sum() / len(V) * len(V) / 14) if t % 3 == 2 else min(st.h, L.sum() / 8)
        st.min_h = st.h * float(rng.uniform(.5, 1.2))
        rec.begin(f"still{t}")
        prepare(st, o)
        for _ in range(3):
            if step(rec, st, o, "still"):
                break
        rec.end()
    # everything on, iteration by iteration and at once
    for t in range(10 * T):
        n = int(rng.integers(6, 14))
        V, F = (ngon(rng, n), loop(n)) if t % 2 else curve(rng, 0)
        if t % 5 == 4:
            V, F = ngon(rng, n), loop(n)[:-1]
        g = np.linspace(-1.3, 1.3, 4)
        U = np.stack([x.ravel() for x in np.meshgrid(g, g)], -1) + .01 * rng.normal(size=(16, 2))
        o = dict(max_iter=int(rng.integers(8, 22)), **{k: v for k, v in options(rng, 2).items() if k in ("inside_outside_test", "fix_boundary", "feature_detection", "max_t")})
        if t % 3 == 1:
            o["batch_size"] = int(rng.integers(6, 12))
        elif t % 4 == 3:                               # (a batch that led to resampling is not kept)
            o["resample"], o["tol"] = 1, .25
        if t % 3 == 2:
            o["output_sensitive"] = False
        sdf = SDFS[t % 3]
        h = float(rng.uniform(.2, .4))
        st = State(V=V, F=F, U=U, sdf=sdf, h=h, min_h=h / 2)
        rec.begin(f"free{t}")
        args = [V, F, U]
        snap = snapshot(args)
        prepare(st, o)
        for _ in range(o["max_iter"]):
            if step(rec, st, o, "free"):
                break
        if rec.cur["ev"][-1]["exc"] == "":
            a, exc = rec.run(gpy.reach_for_the_spheres, U, sdf, V, F, h=h, min_h=h / 2, return_U=True, **o)
            b, exc2 = rec.run(gpy.reach_for_the_spheres, U, sdf, V, F, S=sdf(U), h=h, min_h=h / 2, **o) if not exc else (None, "")
            if exc or exc2:
                rec.event("whole", dict(o={k: str(v) for k, v in o.items()}), {}, exc or exc2)
            else:
                rec.event("whole", dict(o={k: str(v) for k, v in o.items()}),
                          dict(eq=bool(np.array_equal(a[0], st.V) and np.array_equal(a[1], st.F)), again=bool(len(b) == 2 and np.array_equal(a[0], b[0]) and np.array_equal(a[1], b[1])),
                               eqU=bool(len(a) == 3 and np.array_equal(a[2], st.U)), same=snapshot(args) == snap))
        rec.end()
    # surfaces put together again after their active part was remeshed
    for t in range(16 * T):
        if t % 2:
            V, F = gpy.icosphere(1)
            V = np.array(V + .03 * rng.normal(size=V.shape))
        else:
            V, F = gpy.regular_square_mesh(5)
            V = np.concatenate((V, .1 * rng.normal(size=(len(V), 1))), 1)
            V[:, 2] += V[:, 0] ** 2
        q = rng.permutation(len(V))
        W = np.empty_like(V)
        W[q] = V
        V, F = W, q[F[rng.permutation(len(F))]]
        i0 = int(rng.integers(len(F)))
        c = V[F[i0]].mean(0)
        nrm = np.cross(V[F[i0, 1]] - V[F[i0, 0]], V[F[i0, 2]] - V[F[i0, 0]])
        U = np.concatenate(([c + nrm / np.linalg.norm(nrm) * .05], rng.uniform(-1, 1, (4, 3))))
        S = np.sqrt(geometry.closest(V, F, U)[0])
        S[0] = .3
        got = []

        def split(X, G, i, h, feature, V=V, F=F, got=got, t=t):
            """every face whose corners are inside is split at a point; one new vertex is put on a vertex elsewhere"""
            X0, G0 = X.copy(), G.copy()
            bd = gpy.boundary_vertices(G)
            far = V[~(V[:, None, :] == X[None]).all(-1).any(1)]
            Y, H = list(X), []
            for k, f in enumerate(G):
                if k % 3 == t % 3:
                    p = X[f].mean(0)
                    if t % 4 < 2 and len(far):
                        p = far[len(Y) % len(far)].copy()
                    m = len(Y)
                    Y.append(p)
                    H += [[f[0], f[1], m], [f[1], f[2], m], [f[2], f[0], m]]
                else:
                    H.append(list(f))
            Y, H = np.array(Y), np.array(H, dtype=np.int32)
            k = len(np.union1d(np.ravel(feature), bd))          # the first vertices of what the compiled remesher gets and returns
            r = np.concatenate((np.arange(k), k + rng.permutation(len(Y) - k)))
            Z = np.empty_like(Y)
            Z[r] = Y
            got.append(dict(X=X0, F=G0, Y=Z, G=r[H].astype(np.int32), h=h))
            return Z.copy(), got[-1]["G"].copy()
        geometry.REMESH["f"] = split
        o = dict(linesearch=False, dt=0.0)
        st = State(V=V, F=F, U=U, S=S, h=.2, min_h=.1)
        rec.begin(f"glue{t}")
        prepare(st, o)
        try:
            r = {}
            step(rec, st, o, "glue", glue=r)
        finally:
            geometry.REMESH["f"] = None
        if got:
            r.update(n=len(got), X=nums(got[0]["X"]), F=raw(got[0]["F"]), Y=nums(got[0]["Y"]), G=raw(got[0]["G"]), h=num(got[0]["h"]))
        else:
            r.update(n=0, X=[], F=[], Y=[], G=[], h="0")
        rec.end()
    # meshes no flow can continue from, samples chosen by the method, misuse
    for t in range(6):
        n = 6
        V, F = ngon(rng, n, wob=.1), loop(n)
        F = np.concatenate((F, F[[t % n]], F[[t % n]])) if t % 2 else np.concatenate((F, F[[t % n]], F[[t % n], ::-1]))
        U = rng.uniform(-1, 1, (6, 2))
        st = State(V=V.copy(), F=F.copy(), U=U, S=ball(U))
        rec.begin(f"singular{t}")
        conv, exc = rec.run(iteration, st)
        rec.event("singular", dict(X=nums(V), F=raw(F)), {} if exc else dict(conv=bool(conv), X=nums(st.V), F=raw(st.F)), exc)
        rec.end()
    for t in range(6):
        V, F = curve(rng, 0) if t % 2 else gpy.icosphere(0)
        sdf = SDFS[t % 3]
        rec.begin(f"fresh{t}")
        mk = lambda: State(V=V, F=F, sdf=sdf, rng=np.random.default_rng(t) if t % 3 else None)
        a, b = mk(), mk()
        exc = rec.run(iteration, a, max_iter=0)[1] or rec.run(iteration, b, max_iter=0)[1]
        w = (V.max(0) - V.min(0)) * 2
        rec.event("fresh", dict(lo=nums(V.min(0) - w), hi=nums(V.max(0) + w)), {} if exc else dict(
            ok=bool(isinstance(a.U, np.ndarray) and a.U.ndim == 2 and a.U.shape[1] == V.shape[1] and len(V) < len(a.U) <= len(V) + 20), U=nums(a.U), S=nums(a.S), Sx=nums(sdf(a.U)),
            again=bool(np.array_equal(a.U, b.U))), exc)
        rec.end()
    rec.begin("refuse")
    V, F = ngon(rng, 6), loop(6)
    for what, f in [("a state of another type", lambda: iteration(dict(V=V, F=F, U=V))), ("samples of another dimension", lambda: iteration(State(V=V, F=F, U=np.zeros((4, 3)), S=np.ones(4)))),
                    ("no samples and no sdf", lambda: iteration(State(V=V, F=F))), ("no values and no sdf", lambda: iteration(State(V=V, F=F, U=np.zeros((4, 2)))))]:
        _, exc = rec.run(f)
        rec.event("refuse", dict(what=what), dict(raised=exc == "AssertionError"))
    rec.end()
