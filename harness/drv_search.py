"""P25 particle swarm, P26 Metropolis-Hastings: the functions the code calls record what it asks."""
import contextlib, io, sys
import numpy as np
from scipy.optimize import linprog
import gpytoolbox as gpy
from vlib import num, nums, snapshot


def less(a, b):
    return a < b


class Mirror:
    """keeps just enough of the run to look for random factors explaining a move (a certificate for the specification)"""
    def __init__(self, n, d, lb, ub, mom, phi, ring):
        self.n, self.d, self.lb, self.ub, self.m, self.phi, self.ring = n, d, lb, ub, mom, phi, ring
        self.x, self.v, self.pb, self.pf = [], [], [], []
        self.t = 0

    def step(self, x, f):
        if self.t < self.n:
            self.x.append(x); self.v.append(np.full(self.d, np.nan)); self.pb.append(x); self.pf.append(f)
            self.t += 1
            return 0., 0.
        i = self.t % self.n
        peers = [(i - 1) % self.n, i, (i + 1) % self.n] if self.ring else range(self.n)
        lo = min(self.pf[k] for k in peers)
        best = (np.inf, 0., 0.)
        w = np.where(self.ub > self.lb, self.ub - self.lb, 1.)
        with np.errstate(all="ignore"):
            known = np.nonzero(~np.isnan(self.v[i]))[0]
            for k in [k for k in peers if self.pf[k] == lo]:
                A, b = [], []
                for j in known:
                    a = self.phi * (self.pb[i][j] - self.x[i][j]) / w[j]
                    c = self.phi * (self.pb[k][j] - self.x[i][j]) / w[j]
                    r = (x[j] - self.x[i][j] - self.m * self.v[i][j]) / w[j]
                    if x[j] > self.lb[j]:          # x - p <= slack
                        A.append([-a, -c, -1.]); b.append(-r)
                    if x[j] < self.ub[j]:
                        A.append([a, c, -1.]); b.append(r)
                if not A:
                    best = min(best, (0., 0., 0.))
                    continue
                S = 1e4                            # the solver's own tolerance, scaled away
                r = linprog([0, 0, 1], A_ub=np.array(A) * S, b_ub=np.array(b) * S, bounds=[(0, 1), (0, 1), (0, None)], method="highs")
                if r.status == 0:
                    best = min(best, (r.fun, float(np.clip(r.x[0], 0, 1)), float(np.clip(r.x[1], 0, 1))))
        ins = (x > self.lb) & (x < self.ub)
        self.v[i] = np.where(ins, x - self.x[i], np.nan)
        self.x[i] = x
        if f < self.pf[i]:
            self.pb[i], self.pf[i] = x, f
        self.t += 1
        return best[1], best[2]


@contextlib.contextmanager
def no_extension():
    m = sys.modules.get("gpytoolbox_bindings")
    f = m.__dict__.pop("_particle_swarm_cpp_impl", None) if m else None
    try:
        yield
    finally:
        if f:
            m._particle_swarm_cpp_impl = f


def swarm(rec, fun, lb, ub, n, iters, mom, phi, ring, seed, wrap, verbose=False, reset=None, default=False, native=False):
    """native: the compiled engine (see native.py); else the Python one, asked for or fallen back to"""
    d = len(lb)
    cfg = {"n": n, "d": d, "lb": nums(lb), "ub": nums(ub), "momentum": num(mom), "phi": num(phi), "ring": bool(ring), "iters": iters}
    calls = []

    def obj(x):
        x = np.array(x, float)
        f = float(fun(x))
        calls.append((x.ravel().copy(), f))
        return wrap(f)
    kw = dict(n_particles=n, max_iter=iters, verbose=verbose, topology="ring" if ring else "full")
    if not default:
        kw |= dict(momentum=mom, phi=phi)
    a = (lb.copy(), ub.copy())
    np.random.seed(seed)
    hide = not native
    if hide and seed % 2:
        kw["use_cpp"] = hide = False
    with contextlib.redirect_stdout(io.StringIO()), (no_extension() if hide else contextlib.nullcontext()):
        v, exc = rec.run(gpy.particle_swarm, obj, *a, **kw)
    kw.pop("use_cpp", None)
    from vlib import enc
    M = Mirror(n, d, lb, ub, mom, phi, ring)
    first = list(calls)
    for k, (x, f) in enumerate(first):
        rp, rg = M.step(x, f)
        rec.event("eval", {"x": nums(x), "f": num(f), "rp": num(rp), "rg": num(rg), **({"cfg": cfg} if k == 0 else {})}, [])
    if not first:
        rec.event("eval", {"cfg": cfg}, [], exc or "NoEvaluation")
        return
    rec.event("ret", {"same": bool(np.array_equal(a[0], lb) and np.array_equal(a[1], ub))}, enc(v), exc)
    if exc or native:
        return
    calls.clear()
    if reset:
        reset()
    np.random.seed(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        w, exc = rec.run(gpy.particle_swarm, obj, lb, ub, use_cpp=False, **kw)
    same = not exc and len(calls) == len(first) and all(np.array_equal(p, q) and f == g for (p, f), (q, g) in zip(calls, first)) and np.array_equal(w[0], v[0]) and w[1] == v[1]
    rec.event("again", {"equal": bool(same)}, [], exc)


WRAPS = [float, np.float64, lambda f: np.array(f), lambda f: np.array([f]), lambda f: np.array([[f]])]


def p25(rec, gen):
    rng = rec.rng("p25")
    for t, g in enumerate(gen.get("MC_SwarmScript", [])):
        if (t + rec.seed) % (2 if rec.thorough else 9):
            continue
        sc = [float(x) for x in g["script"]]
        seen = {}

        def fun(x):
            k = x.tobytes()
            if k not in seen:
                seen[k] = sc[len(seen)] if len(seen) < len(sc) else 2.
            return seen[k]
        n = [1, 2, 3, 6][t % 4]
        rec.begin(f"script{t}")
        swarm(rec, fun, np.array([-1., 0.]), np.array([2., .5]), n, 6 // n - 1, 0.9, 0.1, t % 8 >= 4, t, WRAPS[t % 5], reset=seen.clear)
        rec.end()
        seen.clear()
        rec.begin(f"script{t}-native")
        swarm(rec, fun, np.array([-1., 0.]), np.array([2., .5]), n, 6 // n - 1, 0.9, 0.1, t % 8 >= 4, t, WRAPS[t % 5], reset=seen.clear, native=True)
        rec.end()
    for t in range(150 if rec.thorough else 40):
        d = int(rng.integers(1, 6)) if t % 3 else int(rng.integers(4, 7))
        n, iters = int(rng.integers(1, 9)), int(rng.integers(0, 9))
        lb = np.round(rng.uniform(-5, 5, d), 2)
        ub = lb + np.round(rng.uniform(0, 1, d) ** 2 * [1., 10., 1e-6, 1e5][t % 4], 9)
        if t % 5 == 0:
            ub[0] = lb[0]
        if t % 7 == 0:
            lb, ub = np.floor(lb).astype(int), np.ceil(ub).astype(int)
        c = lb + (ub - lb) * rng.uniform(-.3, 1.3, d)
        w = rng.uniform(.1, 3, d)
        fun = [lambda x: np.sum(w * (x - c) ** 2), lambda x: np.round(np.sum(np.abs(x - c))), lambda x: 3., lambda x: np.cos(7 * np.sum(x)) - 2,
               lambda x: np.inf if x[0] < c[0] else -np.sum(x), lambda x: np.inf, lambda x: -np.inf if x[-1] > c[-1] else 0., lambda x: np.sum(np.floor(4 * (x - lb) / np.maximum(ub - lb, 1e-300))),
               lambda x: 1e300 * np.sum(x - lb)][int(rng.integers(9))]
        default = t % 4 == 1
        mom, phi = (0.9, 0.1) if default else (float(np.round(rng.uniform(0, 1.2), 2)), float(np.round(rng.uniform(0, 2), 2)))
        rec.begin(f"run{t}")
        swarm(rec, fun, lb, ub, n, iters, mom, phi, bool(rng.integers(2)), int(rng.integers(1 << 30)), WRAPS[int(rng.integers(5))], verbose=t % 9 == 4, default=default)
        rec.end()
        if t % 2 == 0:
            rec.begin(f"run{t}-native")
            swarm(rec, fun, lb, ub, n, iters, mom, phi, bool(t % 4), t, WRAPS[t % 5], verbose=t % 9 == 4, default=default, native=True)
            rec.end()


class Draws(np.random.Generator):
    """a generator whose standard uniforms are recorded, or scripted first"""
    def __new__(cls, seed, script=()):
        return super().__new__(cls, np.random.PCG64(seed))

    def __init__(self, seed, script=()):
        super().__init__(np.random.PCG64(seed))
        self.script, self.log = list(script), []

    def _one(self):
        u = self.script.pop(0) if self.script else super().random()
        self.log.append(float(u))
        return u

    def random(self, size=None, *a, **k):
        if size is None:
            return self._one()
        return np.array([self._one() for _ in range(int(np.prod(size)))]).reshape(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random(size)


def chain(rec, dens, cand, x0, n, seed, script=(), default=False):
    log = []

    def nxt(x):
        y = cand(np.array(x), len(log))
        log.append((np.array(x, float), np.array(y, float)))
        return y

    def go():
        log.clear()
        g = Draws(seed, script)
        a = x0.copy()
        kw = {} if default else {"num_samples": n}
        v, exc = rec.run(gpy.metropolis_hastings, dens, nxt, a, rng=g, **kw)
        return v, exc, g.log, list(log), bool(np.array_equal(a, x0))
    from vlib import enc
    v, exc, us, cs, same = go()
    N = 100 if default else n
    rec.event("run", {"n": N, "d": len(x0), "x": nums(x0), "f": num(float(dens(x0))), "cands": len(cs), "draws": len(us), "same": same}, enc(v), exc)
    if exc:
        return
    for (x, y), u in zip(cs, us):
        rec.event("cand", {"from": nums(x), "to": nums(y), "f": num(float(dens(y))), "u": num(u)}, [])
    w, exc, us2, cs2, _ = go()
    rec.event("again", {"equal": bool(not exc and np.array_equal(v[0], w[0]) and np.array_equal(v[1], w[1]))}, [], exc)


def p26(rec, gen):
    rng = rec.rng("p26")
    from fractions import Fraction
    for t, g in enumerate(gen.get("MC_Chain", [])):
        if (t + rec.seed) % (17 if rec.thorough else 101):
            continue
        w = [float(x) for x in g["w"]]
        us = [float(Fraction(s["u"])) for s in g["q"]]
        ys = [s["y"] for s in g["q"]]
        rec.begin(f"model{t}")
        ty = [float, np.float64][t % 2]
        chain(rec, lambda x: ty(w[int(x[0]) - 1]), lambda x, k: np.array([float(ys[k])]), np.array([1.]), len(ys) + 1, t, us)
        rec.end()
    for t in range(120 if rec.thorough else 36):
        d = int(rng.integers(1, 5))
        c = rng.standard_normal(d)
        kind = t % 6
        dens = [lambda x: np.exp(-np.sum((x - c) ** 2)), lambda x: max(1. - np.abs(x[0]), 0.), lambda x: 1. + (np.floor(2 * x[0]) % 3), lambda x: 1e-250 * np.exp(-8 * np.abs(x).sum()),
                lambda x: 1e200 / (1. + x @ x), lambda x: np.float64(2. if x[0] > 0 else 0.)][kind]
        x0 = rng.uniform(.05, .9, d) if t % 5 else np.ones(d, int) * (kind != 1)
        if float(dens(x0)) <= 0:
            x0 = np.full(d, .25)
        seed = int(rng.integers(1 << 30))
        sc = [0.25, 1., 3.][t % 3]
        steps = rng.standard_normal((400, d)) * sc * (rng.random((400, 1)) < .9)
        script = [0., 1 - 2. ** -53, .5, 0., 0.][: int(rng.integers(0, 6))]
        rec.begin(f"chain{t}")
        chain(rec, dens, lambda x, k: x + steps[k % 400], x0, int(rng.integers(1, 60)), seed, script, default=t % 12 == 7)
        rec.end()
