"""P31: colour tables and lookups."""
import numpy as np
import gpytoolbox as gpy
from vlib import nums, num, enc, snapshot

NAMES = ["Accent", "Blues", "BrBG", "BuGn", "BuPu", "Dark2", "GnBu", "Greens", "Greys", "OrRd", "Oranges", "PRGn", "Paired", "Pastel1", "Pastel2", "PiYG", "PuBu",
         "PuBuGn", "PuOr", "PuRd", "Purples", "RdBu", "RdGy", "RdPu", "RdYlBu", "RdYlGn", "Reds", "Set1", "Set2", "Set3", "Spectral", "YlGn", "YlGnBu", "YlOrBr", "YlOrRd"]
SIZE = {k: 9 for k in NAMES}
SIZE.update({k: 11 for k in ("BrBG", "PRGn", "PiYG", "PuOr", "RdBu", "RdGy", "RdYlBu", "RdYlGn", "Spectral")})
SIZE.update({k: 8 for k in ("Accent", "Dark2", "Pastel2", "Set2")}, Paired=12, Set3=12)
EPS = np.finfo(np.float64).eps


def cmap(rec, name, n, interp, how=0):
    a = [lambda: rec.run(gpy.colormap, name, n, interpolate=interp), lambda: rec.run(gpy.colormap, name, n, interp)] + ([lambda: rec.run(gpy.colormap, name, n)] if interp else [])
    v, exc = a[how % len(a)]()
    rec.event("map", {"name": name, "n": n, "interp": interp}, enc(v), exc)
    return v


def apply(rec, C, f, lo=None, hi=None, log=False, lin=False):
    kw = {}
    if lo is not None:
        kw["min"] = lo
    if hi is not None:
        kw["max"] = hi
    if log:
        kw["log"] = True
    if lin:
        kw["piecewise_linear"] = True
    s = snapshot([C, f])
    v, exc = rec.run(gpy.apply_colormap, C, f, **kw)
    l, u = float(np.amin(f) if lo is None else lo), float(np.amax(f) if hi is None else hi)
    if log:
        l, u = max(l, EPS), max(u, EPS)
    nodes = []
    if log and len(C) > 1 and u > l:
        nodes = l * (u / l) ** (np.arange(len(C)) / (len(C) - 1)) if u / l < 1e300 else np.exp2(np.linspace(np.log2(l), np.log2(u), len(C)))
        nodes[0], nodes[-1] = l, u
    rec.event("apply", {"C": nums(C), "f": nums(f), "lo": num(l if not log or lo is None else float(lo)), "hi": num(u if not log or hi is None else float(hi)), "log": log, "lin": lin,
                        "gap": num(1e-8 if log else 1e-11), "eps": num(EPS), "nodes": nums(nodes) if len(nodes) else [], "same": snapshot([C, f]) == s}, enc(v), exc)


def p31(rec, gen):
    rng = rec.rng("p31")
    for name in NAMES:
        for n in range(0, SIZE[name] + 1):
            if n <= SIZE[name]:
                rec.begin(f"table{name}{n}")
                v = cmap(rec, name, n, False, n)
                if isinstance(v, np.ndarray) and v.flags.writeable:
                    v[...] = 77.
                    rec.event("scribble", {}, enc(None), "")
                    cmap(rec, name, n, False)
                    if rng.random() < .3:
                        cmap(rec, name, 5, True)
                rec.end()
        ns = [1, 2, 3, SIZE[name], 2 * SIZE[name] - 1, int(rng.integers(4, 60))] + ([500, 255] if rec.thorough else [])
        rec.begin(f"interp{name}")
        for n in ns if rec.thorough else rng.permutation(ns)[:3].tolist() + [int(rng.integers(30, 90))]:
            v = cmap(rec, name, n, True, n)
            if isinstance(v, np.ndarray) and v.flags.writeable:
                v[...] = -1.
        rec.end()
    for name, n, ip in (("RdBu", 12, False), ("Nope", 3, False), ("Nope", 5, True), ("rdbu", 4, True), ("Set2", 9, False), ("Blues", 0, True), ("Blues", -1, True)):
        rec.begin(f"miss{name}{n}{ip}")
        v, exc = rec.run(gpy.colormap, name, n, interpolate=ip)
        rec.event("miss", {"name": name, "n": n, "interp": ip}, enc(None), exc, mayraise=True)
        rec.end()
    # lattice lookups of the model, quarters of the node distance
    by = {}
    for g in gen.get("MC_Colors", []):
        by.setdefault(tuple(g["c"]), []).append(g["f"])
    for t, (c, fs) in enumerate(sorted(by.items())):
        if (t + rec.seed) % (1 if rec.thorough else 3):
            continue
        C = np.array([[x, 255 - x, 9] for x in c], float if t % 2 else int)
        f = np.array(sorted(fs)) / 4.
        rec.begin(f"model{t}")
        apply(rec, C, f, 0., float(len(c) - 1))
        apply(rec, C, f[::-1].copy(), 0, len(c) - 1, lin=True)
        if t % 3 == 0:
            apply(rec, C, 2. ** f * [1., 1e-3, 7.][t % 3], lin=bool(t % 2), log=True)
        rec.end()
    for t in range(300 if rec.thorough else 90):
        m = int(rng.integers(1, 13)) if t % 3 else int(rng.integers(2, 4))
        C = rng.integers(0, 256, (m, 3)) if t % 2 else np.clip(rng.uniform(-5, 260, (m, 3)), 0, 255)
        n = int(rng.integers(1, 9))
        sc = [1., 1., 1e-20, 1e12, 5.][t % 5]
        f = rng.standard_normal(n) * sc if t % 4 else rng.integers(-4, 5, n)
        if t % 7 == 0:
            f = np.full(n, [0., 1., 5., -3., 1e6, 1e-9, -1e-30][(t // 7) % 7])
        if t % 11 == 5:
            f = f + 1e6
        lo = hi = None
        if t % 3 == 1:
            lo = float(rng.uniform(-2, 0)) * sc
        if t % 3 == 2:
            hi = float(rng.uniform(0, 2)) * sc
        if lo is not None and lo > np.amax(f) or hi is not None and hi < np.amin(f) or t % 6 == 4:
            lo, hi = -1., 2.
        log = t % 4 == 1
        if log:
            f = np.abs(f) + (t % 8 == 1) * 1e-3 * sc
            if t % 12 == 9:
                f = f * 0 + [0., 1e-17, 1., 5.][(t // 12) % 4]
            lo, hi = [(None, None), (float(np.amax(f)) * 1e-3, None), (None, float(np.amax(f)) * 1.7), (1e-4, 1e4)][(t // 4) % 4]
        rec.begin(f"apply{t}")
        apply(rec, C, f, lo, hi, log, bool(t % 5 % 2))
        rec.end()
