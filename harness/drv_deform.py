"""P29: skinning, Catmull-Rom curves, rotations between directions, normalisation."""
import numpy as np
import gpytoolbox as gpy
from vlib import nums, snapshot, num


def curve(rec, P, T):
    b = snapshot([P, T])
    v, exc = rec.run(gpy.catmull_rom_spline, T, P)
    from vlib import enc
    rec.event("curve", {"P": nums(P), "T": nums(T), "same": snapshot([P, T]) == b}, enc(v), exc)


def rot(rec, a, b, tol=1e-9):
    from vlib import enc
    s = snapshot([a, b])
    v, exc = rec.run(gpy.rotation_matrix_from_vectors, a, b)
    rec.event("rot", {"a": nums(a), "b": nums(b), "tol": num(tol), "same": snapshot([a, b]) == s}, enc(v), exc)


def p29(rec, gen):
    from vlib import enc
    rng = rec.rng("p29")
    T17 = np.linspace(0, 1, 17)
    for t, g in enumerate(gen.get("MC_Deform", [])):
        if (t + rec.seed) % (11 if rec.thorough else 47):
            continue
        rec.begin(f"model{t}")
        if g["k"] == "curve":
            P = np.array(g["q"], float)[:, None]
            curve(rec, P if t % 2 else np.hstack([P, -2 * P, P * P]), T17 if t % 3 else np.arange(len(P)) / (len(P) - 1))
        else:
            a, b = np.array(g["q"], float)
            rot(rec, a * [1, 3, .1][t % 3], b * [1, 1, 7][t % 3])
        rec.end()
    # opposite and equal lattice directions, scaled (rounding decides how opposite they look)
    for t in range(400 if rec.thorough else 120):
        d = 2 + t % 2
        a = rng.integers(-3, 4, d).astype(float) if t % 4 < 2 else rng.standard_normal(d)
        if not a.any():
            a[0] = 1.
        a = a * [1., .1, 1e-9, 1e6, 3.][t % 5]
        m = (t // 4) % 6
        p = rng.standard_normal(d)
        p -= a * (p @ a) / (a @ a)
        p *= np.linalg.norm(a) / max(np.linalg.norm(p), 1e-300)
        b = [-a, a, -a * rng.uniform(.1, 9), a * rng.uniform(.1, 9), -a + p * 10. ** -rng.uniform(3, 17), a + p * 10. ** -rng.uniform(3, 17)][m]
        rec.begin(f"dir{t}")
        rot(rec, a, b, 1e-8)
        rec.end()
    for t in range(120 if rec.thorough else 40):
        d = 2 + t % 2
        a, b = rng.standard_normal(d) * 10. ** rng.integers(-4, 5), rng.standard_normal(d)
        if t % 5 == 0:
            a, b = rng.permutation(np.eye(3)[:, :d][:d])[0] * rng.choice([-2, 1]), rng.permutation(np.eye(d))[0] * rng.choice([-1, 1])
        if t % 7 == 0:
            a, b = np.rint(a * 9 / np.abs(a).max()).astype(int), np.rint(b * 9 / np.abs(b).max()).astype(int)
        rec.begin(f"rot{t}")
        rot(rec, a, b)
        rec.end()
    for t in range(120 if rec.thorough else 40):
        p, d = int(rng.integers(2, 12) if t % 8 else rng.integers(20, 60)), int(rng.integers(1, 5))
        P = rng.integers(-5, 6, (p, d)).astype(float) if t % 2 else rng.standard_normal((p, d)) * 10. ** rng.integers(-3, 4)
        if t % 3 == 0:
            P[1:][rng.random(p - 1) < .4] = P[0]
        if t % 7 == 1:
            P = np.rint(P).astype(int)
        T = [np.linspace(0, 1, p), rng.random(14), np.array([0., 1.]), np.array([1. - 2. ** -53, 2. ** -60, 1., .5]), np.sort(rng.random(9))[::-1], np.clip(np.linspace(0, 1, p) + rng.choice([-1, 1], p) * 2. ** -52, 0, 1), np.array([0, 1, 1, 0])][t % 7]
        rec.begin(f"curve{t}")
        curve(rec, P, T)
        rec.end()
    for t in range(80 if rec.thorough else 30):
        n, m = int(rng.integers(1, 9)), int(rng.integers(1, 5))
        V = rng.integers(-3, 4, (n, 3)) if t % 4 == 0 else rng.standard_normal((n, 3))
        W = rng.integers(0, 5, (n, m)) / 4. if t % 2 else rng.standard_normal((n, m))
        if t % 3 == 0:
            W = np.abs(W) + .1
            W /= W.sum(axis=1, keepdims=True)
        R = np.linalg.qr(rng.standard_normal((m, 3, 3)))[0] if t % 5 else rng.standard_normal((m, 3, 3))
        T = rng.standard_normal((m, 3)) if t % 6 else rng.integers(-2, 3, (m, 3))
        s = snapshot([V, W, R, T])
        rec.begin(f"skin{t}")
        v, exc = rec.run(gpy.linear_blend_skinning, V, W, R, T)
        sc = 8. * m * (1 + np.abs(W).max()) * (1 + np.abs(V).max()) * (1 + np.abs(R).max()) * (1 + np.abs(T).max())
        rec.event("skin", {"V": nums(V), "W": nums(W), "R": nums(R), "T": nums(T), "scale": num(sc), "same": snapshot([V, W, R, T]) == s}, enc(v), exc)
        rec.end()
    for t in range(80 if rec.thorough else 30):
        n, d = int(rng.integers(2, 12)), int(rng.integers(1, 5))
        V = rng.standard_normal((n, d)) * 10. ** rng.integers(-4, 5) + (rng.standard_normal(d) * 100 if t % 3 else 0)
        if t % 4 == 1:
            V = rng.integers(-9, 10, (n, d)) if t % 8 == 1 else rng.integers(-9, 10, (n, d)).astype(float)
            V[0], V[1] = -9, 5
        if t % 5 == 2:
            V[:, int(rng.integers(d))] = 2
            V[0, 0] = 1; V[1, 0] = 3
        if t % 6 == 3:
            V = np.asfortranarray(V)
        c = None if t % 3 == 0 else rng.integers(-2, 3, d) / 2. if t % 3 == 1 else rng.standard_normal(d)
        s = snapshot([V, c])
        rec.begin(f"norm{t}")
        v, exc = rec.run(gpy.normalize_points, V, *([] if c is None else [c])) if t % 2 else rec.run(gpy.normalize_points, V, center=c)
        V0 = V
        if snapshot([V, c]) != s:
            V0 = np.frombuffer(s[1][0][3], dtype=V.dtype).reshape(V.shape)
        rec.event("norm", {"V": nums(V0), "c": nums(np.zeros(d) if c is None else c), "same": snapshot([V, c]) == s}, enc(v), exc)
        rec.end()
