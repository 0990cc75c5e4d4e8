"""P24: histories of mesh files in a scratch directory (made and removed here)."""
import os, shutil, struct, tempfile
import numpy as np
import gpytoolbox as gpy
from vlib import snapshot


def hx(a):
    return [] if a is None else [[float(x).hex() for x in r] for r in a]


def ix(a):
    return [] if a is None else [[int(x) for x in r] for r in a]


def tokens(path):
    """the records of a file, by the OBJ line syntax"""
    out = []
    with open(path, newline="") as f:
        for line in f.read().replace("\r\n", "\n").split("\n"):
            w = line.split()
            if w and w[0] in ("v", "vt", "vn"):
                out.append({"k": w[0], "x": [float(x).hex() for x in w[1:]]})
            elif w and w[0] == "f":
                cs = []
                for x in w[1:]:
                    p = x.split("/")
                    cs.append([int(p[j]) if j < len(p) and p[j] else 0 for j in range(3)])
                out.append({"k": "f", "c": cs})
            elif w:
                out.append({"k": "other"})
    return out


NOISE = ["", "   ", "# a comment", "#comment", "# v 1 2 3", "#v 9 9 9", "o thing", "g group one", "s off", "s 1", "usemtl \"red\"", "mtllib a b.mtl", "vp 0.1 0.2", "# \"unbalanced", "\"quoted\" start", "# f 1 2 3", "l 1 2", "o \"x", "# ' apostrophe", "cstype bezier", "#", "p 1", "vnx 3", "ft 1 2 3"]


def render(rng, recs, style):
    """text of a file holding these records"""
    num = lambda x: (repr(float.fromhex(x)) if rng.random() < .7 else f"{float.fromhex(x):.17e}")
    eol = "\r\n" if style & 1 else "\n"
    sep = lambda: "  " if style & 2 and rng.random() < .3 else " "
    out = []
    for r in recs:
        if r["k"] == "other":
            out.append(NOISE[int(rng.integers(len(NOISE)))])
            continue
        lead = " " if style & 4 and rng.random() < .3 else ""
        tail = " " if style & 4 and rng.random() < .3 else ""
        if r["k"] == "f":
            w = ["f"]
            for v, t, n in r["c"]:
                forms = [f"{v}/{t}/{n}"] if t and n else [f"{v}/{t}", f"{v}/{t}/"] if t else [f"{v}//{n}"] if n else [f"{v}", f"{v}/", f"{v}//"]
                w.append(forms[int(rng.integers(len(forms)))])
        else:
            w = [r["k"]] + [num(x) for x in r["x"]]
        s = lead + w[0]
        for x in w[1:]:
            s += sep() + x
        out.append(s + tail)
    return eol.join(out) + (eol if not style & 8 else "")


def values(rng, shape, kind):
    if kind == 0:
        return rng.standard_normal(shape)
    if kind == 1:
        return rng.integers(-3, 4, shape).astype(float)
    if kind == 2:
        return rng.choice([0.0, -0.0, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, 1e22, 1e16, 123456789.123456789, 0.1, 1 / 3, -1e-5, 1e-4, 4503599627370497.5], shape)
    if kind == 3:
        return np.frombuffer(rng.bytes(8 * int(np.prod(shape))), dtype=float).reshape(shape).copy()
    return rng.standard_normal(shape) * 10. ** rng.integers(-12, 13, shape)


def fin(a):
    a[~np.isfinite(a)] = 0.5
    return a


def p24(rec, gen):
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    try:
        run(rec, gen, root)
        dmat(rec, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def write(rec, rng, root, name, mesh, fmt):
    V, F, UV, Ft, N, Fn = mesh
    path = os.path.join(root, name)
    kw = {k: v for k, v in (("UV", UV), ("Ft", Ft), ("N", N), ("Fn", Fn)) if v is not None or rng.random() < .3}
    if fmt:
        kw["fmt"] = fmt
    if rng.random() < .2:
        kw["writer"] = "Python"
    b = snapshot([V, F, UV, Ft, N, Fn])
    v, exc = rec.run(gpy.write_mesh, path, V, F, **kw)
    rec.event("write", {"path": name, "V": hx(V), "F": ix(F), "UV": hx(UV), "Ft": ix(Ft), "N": hx(N), "Fn": ix(Fn), "same": snapshot([V, F, UV, Ft, N, Fn]) == b},
              tokens(path) if not exc else [], exc)
    return not exc


def read(rec, rng, root, name, fmt):
    path = os.path.join(root, name)
    uv, nn = bool(rng.integers(2)), bool(rng.integers(2))
    kw = {}
    if uv or rng.random() < .3:
        kw["return_UV"] = uv
    if nn or rng.random() < .3:
        kw["return_N"] = nn
    if fmt:
        kw["fmt"] = fmt
    if rng.random() < .2:
        kw["reader"] = "Python"
    before = open(path, "rb").read()
    v, exc = rec.run(gpy.read_mesh, path, **kw)
    out = {}
    if not exc:
        q = list(v) if isinstance(v, tuple) else [v]
        at = {"V": 0, "F": 1}
        if uv:
            at |= {"UV": 2, "Ft": 3}
        if nn:
            at |= {"N": len(at), "Fn": len(at) + 1}
        g = {k: (q[i] if i < len(q) else None) for k, i in at.items()}
        ok = all(x is None or (isinstance(x, np.ndarray) and x.ndim == 2 and x.dtype == (np.float64 if k in ("V", "UV", "N") else np.int64)) for k, x in g.items())
        out = {"n": len(q), "ok": ok}
        if ok:
            out |= {k: (hx(x) if k in ("V", "UV", "N") else ix(x)) for k, x in g.items()}
        else:
            out |= {k: [] for k in g}
    rec.event("read", {"path": name, "uv": uv, "nn": nn, "same": open(path, "rb").read() == before}, out, exc)


def randmesh(rng, t):
    n = int(rng.integers(3, 12)) if t % 6 else int(rng.choice([1, 2, 99, 100, 101, 300]))
    V = fin(values(rng, (n, 3), t % 5))
    F = rng.integers(0, n, (int(rng.integers(1, 9 if t % 6 else 60)), 3))
    if t % 7 == 3:
        F = F.astype(np.int32)
    if t % 11 == 4:
        V = (rng.integers(-99, 100, (n, 3)) / 8).astype(np.float32)
    if t % 11 == 7:
        V = rng.integers(-9, 10, (n, 3))
    if t % 13 == 5:
        V, F = np.asfortranarray(V), np.asfortranarray(F)
    UV = Ft = N = Fn = None
    if rng.random() < .6:
        k = n if rng.random() < .5 else int(rng.integers(1, 15))
        UV = fin(values(rng, (k, 2), int(rng.integers(5))))
        if rng.random() < .6:
            Ft = rng.integers(0, k, F.shape)
    if rng.random() < .6:
        k = n if rng.random() < .5 else int(rng.integers(1, 15))
        N = fin(values(rng, (k, 3), int(rng.integers(5))))
        if rng.random() < .6:
            Fn = rng.integers(0, k, F.shape)
    return V, F, UV, Ft, N, Fn


def records(mesh):
    V, F, UV, Ft, N, Fn = mesh
    r = [{"k": "v", "x": x} for x in hx(V)]
    u = [{"k": "vt", "x": x} for x in hx(UV)]
    n = [{"k": "vn", "x": x} for x in hx(N)]
    f = [{"k": "f", "c": [[int(F[i, j]) + 1, 0 if Ft is None else int(Ft[i, j]) + 1, 0 if Fn is None else int(Fn[i, j]) + 1] for j in range(3)]} for i in range(len(F))]
    return r, u, n, f


def put(rec, rng, root, name, recs, style):
    with open(os.path.join(root, name), "w", newline="") as fh:
        fh.write(render(rng, recs, style))
    rec.event("put", {"path": name, "lines": recs}, [])


def run(rec, gen, root):
    rng = rec.rng("p24")
    arr = lambda M, ty: None if not M else np.array(M, dtype=ty)
    for t, g in enumerate(gen.get("MC_MeshFile", [])):
        if (t + rec.seed) % (13 if rec.thorough else 67):
            continue
        m = g["m"]
        mesh = [arr(m[k], ty) for k, ty in (("V", float), ("F", int), ("UV", float), ("Ft", int), ("N", float), ("Fn", int))]
        rec.begin(f"model{t}")
        put(rec, rng, root, "m.obj", [{"k": "v", "x": [0.0.hex()] * 3}] * 20 + [{"k": "f", "c": [[1, 1, 1]] * 3}] * 20, 0)
        if write(rec, rng, root, "m.obj", mesh, None):
            read(rec, rng, root, "m.obj", None)
            recs = tokens(os.path.join(root, "m.obj"))
            for i in sorted(g["noise"], reverse=True):
                recs.insert(i, {"k": "other"})
            put(rec, rng, root, "m.obj", recs, int(rng.integers(16)))
            read(rec, rng, root, "m.obj", None)
        rec.end()
    for t in range(160 if rec.thorough else 45):
        rec.begin(f"dir{t}")
        names = {"a.obj": [None, "obj", ".obj"], "B.OBJ": [None, "OBJ"], "c.stl": ["obj", ".obj", ".OBJ"], "noext": ["obj", ".obj"], "d.x.obj": [None], "e.ply": ["OBJ"]}
        d = os.path.join(root, f"d{t}")
        os.mkdir(d)
        there = {}
        for step in range(int(rng.integers(3, 9))):
            name = list(names)[int(rng.integers(len(names)))]
            fmt = names[name][int(rng.integers(len(names[name])))]
            c = rng.random()
            if name not in there or c < .35:
                mesh = randmesh(rng, 9 * t + step)
                if c % .1 < .06:
                    there[name] = write(rec, rng, d, name, mesh, fmt)
                else:
                    r, u, n, f = records(mesh)
                    if rng.random() < .5:          # interleave: OBJ does not order its directives
                        L = r + u + n + f
                        key = {}
                        order = rng.permutation(len(L)).tolist()
                        ks = [x["k"] for x in L]
                        pool = {k: [x for x in L if x["k"] == k] for k in set(ks)}
                        recs = [pool[ks[i]].pop(0) for i in order]
                    else:
                        recs = r + u + n + f
                    for _ in range(int(rng.integers(0, 6))):
                        recs.insert(int(rng.integers(0, len(recs) + 1)), {"k": "other"})
                    put(rec, rng, d, name, recs, int(rng.integers(16)))
                    there[name] = True
                if not there[name]:
                    break
            else:
                read(rec, rng, d, name, fmt)
        for name in there:
            if there[name]:
                read(rec, rng, d, name, names[name][-1])
        rec.end()
        shutil.rmtree(d, ignore_errors=True)


def dmat(rec, root):
    rng = rec.rng("dmat")
    for t in range(60 if rec.thorough else 24):
        r, c = int(rng.integers(1, 7)), int(rng.integers(1, 7))
        vals = fin(values(rng, (r * c,), t % 5))
        path = os.path.join(root, f"m{t}.dmat")
        if t % 2:
            with open(path, "wb") as f:
                f.write(b"0 0\n" + f"{c} {r}\n".encode() + b"".join(struct.pack("<d", x) for x in vals))
        else:
            with open(path, "w") as f:
                txt = [repr(float(x)) if t % 4 else f"{x:.17g}" for x in vals]
                f.write(f"{c} {r}\n" + ["\n", " "][t % 8 >= 4].join(txt) + ["\n", ""][t % 3 == 1])
        rec.begin(f"dmat{t}")
        v, exc = rec.run(gpy.read_dmat, path)
        ok = isinstance(v, np.ndarray) and v.ndim == 2
        rec.event("dmat", {"rows": r, "cols": c, "vals": [float(x).hex() for x in vals]}, {"sh": list(v.shape) if ok else [], "a": hx(v) if ok else []}, exc)
        rec.end()
