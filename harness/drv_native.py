"""P38: mesh files through the compiled readers and writers (see native.py), in a scratch directory."""
import os, re, shutil, struct, tempfile
import numpy as np
import gpytoolbox as gpy
from vlib import snapshot, num
from drv_file import hx, ix, tokens, render, records, randmesh, values, fin, NOISE
import drv_file

CODE = {"char": "b", "uchar": "B", "short": "h", "ushort": "H", "int": "i", "uint": "I", "float": "f", "double": "d"}
ALIAS = {"char": "int8", "uchar": "uint8", "short": "int16", "ushort": "uint16", "int": "int32", "uint": "uint32", "float": "float32", "double": "float64"}
BACK = {v: k for k, v in ALIAS.items()} | {k: k for k in CODE}
NUMS = {"float", "double"}


# ---- PLY: an encoder and a decoder of our own
def ply_bytes(rng, els, form, eol="\n"):
    """els: [name, props [(name, ty, list)], rows of numbers]"""
    ty = lambda t: ALIAS[t] if rng.random() < .3 else t
    H = ["ply", "format " + {"ascii": "ascii", "le": "binary_little_endian", "be": "binary_big_endian"}[form] + " 1.0"]
    if rng.random() < .6:
        H.append("comment element vertex 99")
    lts = {}
    for name, props, rows in els:
        H.append(f"element {name} {len(rows)}")
        for k, (pn, pt, pl) in enumerate(props):
            if pl:
                lts[name, k] = ["uchar", "char", "ushort", "int", "uint"][int(rng.integers(5))] if rng.random() < .5 else "uchar"
            H.append("property " + (f"list {ty(lts[name, k])} " if pl else "") + f"{ty(pt)} {pn}")
        if rng.random() < .2:
            H.append("obj_info made for a test")
    H.append("end_header")
    b = eol.join(H).encode() + eol.encode()
    E = "<" if form == "le" else ">"
    for name, props, rows in els:
        for r in rows:
            w = []
            for k, (pn, pt, pl) in enumerate(props):
                vals = list(r[k]) if pl else [r[k]]
                if form == "ascii":
                    w += ([str(len(vals))] if pl else []) + [(repr(float(x)) if pt in NUMS else str(int(x))) for x in vals]
                else:
                    if pl:
                        b += struct.pack(E + CODE[lts[name, k]], len(vals))
                    b += struct.pack(E + CODE[pt] * len(vals), *[float(x) if pt in NUMS else int(x) for x in vals])
            if form == "ascii":
                b += (" ".join(w) + eol).encode()
    return b


def ply_parse(path):
    b = open(path, "rb").read()
    k = b.index(b"end_header\n") + len(b"end_header\n")
    els, form = [], None
    for ln in b[:k].decode().split("\n"):
        w = ln.split()
        if not w:
            continue
        if w[0] == "format":
            form = w[1]
        elif w[0] == "element":
            els.append([w[1], [], int(w[2])])
        elif w[0] == "property":
            els[-1][1].append((w[-1], BACK[w[-2]], BACK[w[2]] if w[1] == "list" else None))
    d, out = b[k:], []
    if form == "ascii":
        t = iter(d.decode().split())
        one = lambda ty: float(next(t)) if ty in NUMS else int(next(t))
    else:
        E = "<" if "little" in form else ">"
        pos = [0]

        def one(ty):
            x = struct.unpack_from(E + CODE[ty], d, pos[0])[0]
            pos[0] += struct.calcsize(CODE[ty])
            return x
    for name, props, n in els:
        rows = []
        for _ in range(n):
            rows.append([[one(ty) for _ in range(one(lt))] if lt else one(ty) for _, ty, lt in props])
        out.append((name, [(p, ty, lt is not None) for p, ty, lt in props], rows))
    if form == "ascii":
        assert next(t, None) is None, "data left over"
    else:
        assert pos[0] == len(d), "data left over"
    return out


def jv(ty, x):
    return [jv(ty, y) for y in x] if isinstance(x, (list, tuple)) else num(float(x)) if ty in NUMS else int(x)


def jply(els):
    return [{"name": n, "props": [{"name": p, "ty": t, "list": bool(li)} for p, t, li in props], "rows": [[jv(p[1], x) for p, x in zip(props, r)] for r in rows]} for n, props, rows in els]


# ---- STL
def stl_bytes(rng, T, form):
    """T: float32 (m,3,3)"""
    if form == "ascii":
        ind = ["", "  ", "\t"][int(rng.integers(3))]
        eol = ["\n", "\r\n"][int(rng.integers(2))]
        f = lambda x: repr(float(x)) if rng.random() < .5 else f"{float(x):.9e}"
        L = ["solid" + ["", " name", " facet of a solid", " microstl  "][int(rng.integers(4))]]
        for t in T:
            L.append(ind + "facet normal " + ["0 0 0", "1 0 0", "0.0 -1.0 0.0", "9 9 9"][int(rng.integers(4))])
            L.append(ind * 2 + "outer loop")
            L += [ind * 3 + "vertex " + [" ", "  ", "\t"][int(rng.integers(3))].join(f(x) for x in p) for p in t]
            L += [ind * 2 + "endloop", ind + "endfacet"]
        L.append("endsolid" + ["", " name"][int(rng.integers(2))])
        return (eol.join(L) + (eol if rng.random() < .8 else "")).encode()
    head = [b"", b"solid from a CAD program", b"\x00\x01\xff" * 20, b"microstl"][int(rng.integers(4))].ljust(80, b" ")
    b = head[:80] + struct.pack("<I", len(T))
    for t in T:
        b += struct.pack("<12f", *[[0, 0, 0], [1, 0, 0], [5, 5, 5]][int(rng.integers(3))], *[float(x) for x in t.reshape(-1)]) + [b"\0\0", b"\x12\x34"][int(rng.integers(2))]
    return b


def stl_parse(path):
    b = open(path, "rb").read()
    if b[:5] == b"solid" and not (len(b) >= 84 and len(b) == 84 + 50 * struct.unpack("<I", b[80:84])[0]):
        v = [[float(np.float32(x)) for x in ln.split()[1:]] for ln in b.decode().split("\n") if ln.split()[:1] == ["vertex"]]
        return [v[i:i + 3] for i in range(0, len(v), 3)]
    n = struct.unpack("<I", b[80:84])[0]
    assert len(b) == 84 + 50 * n
    T = np.array([struct.unpack("<12f", b[84 + 50 * i:84 + 50 * i + 48])[3:] for i in range(n)], dtype=float)
    return T.reshape((n, 3, 3)).tolist()


def jstl(T):
    return [[[num(float(x)) for x in p] for p in t] for t in T]


def nn2(a):
    return [] if a is None else [[num(float(x)) for x in r] for r in a]


# ---- calls
def write(rec, rng, d, name, fmt, mesh, binary=True):
    """mesh: dict of the arguments"""
    path = os.path.join(d, name)
    kw = {k: v for k, v in mesh.items() if k not in ("V", "F")}
    kw = {k: v for k, v in kw.items() if v is not None or rng.random() < .3}
    if os.path.splitext(name)[1].lower() != "." + fmt or rng.random() < .2:
        kw["fmt"] = [fmt, "." + fmt, fmt.upper()][int(rng.integers(3))]
    if fmt == "obj":
        w = ["C++", None, "C++", "Python"][int(rng.integers(4))]
        if w or rng.random() < .5:
            kw["writer"] = w
    elif not binary or rng.random() < .5:
        kw["binary"] = binary
    args = list(mesh.values())
    b = snapshot(args)
    v, exc = rec.run(gpy.write_mesh, path, mesh["V"], mesh["F"], **kw)
    out = []
    if not exc:
        out = tokens(path) if fmt == "obj" else jply(ply_parse(path)) if fmt == "ply" else jstl(stl_parse(path))
    g = mesh.get
    i = {"path": name, "fmt": fmt, "same": snapshot(args) == b, "F": ix(g("F"))}
    if fmt == "obj":
        i |= {"V": hx(g("V")), "UV": hx(g("UV")), "Ft": ix(g("Ft")), "N": hx(g("N")), "Fn": ix(g("Fn"))}
    else:
        i |= {"V": nn2(g("V")), "N": nn2(g("N")), "C": ix(g("C"))}
    rec.event("write", i, out, exc)
    return not exc


def read(rec, rng, d, name, fmt):
    path = os.path.join(d, name)
    i = {"path": name, "uv": False, "nn": False, "cc": False, "merge": True}
    kw = {}
    if fmt != "stl":
        i["nn"] = bool(rng.integers(2))
        i["uv" if fmt == "obj" else "cc"] = bool(rng.integers(2))
        for k, a in (("nn", "return_N"), ("uv", "return_UV"), ("cc", "return_C")):
            if i[k] or rng.random() < .3:
                kw[a] = i[k]
    else:
        i["merge"] = bool(rng.integers(2))
        if not i["merge"] or rng.random() < .5:
            kw["merge_stl"] = i["merge"]
    if os.path.splitext(name)[1].lower() != "." + fmt or rng.random() < .2:
        kw["fmt"] = [fmt, "." + fmt, fmt.upper()][int(rng.integers(3))]
    if fmt == "obj":
        r = ["C++", None, "C++", "Python"][int(rng.integers(4))]
        if r or rng.random() < .5:
            kw["reader"] = r
    before = open(path, "rb").read()
    v, exc = rec.run(gpy.read_mesh, path, **kw)
    out = {}
    if not exc:
        q = list(v) if isinstance(v, tuple) else [v]
        at = {"V": 0, "F": 1}
        if i["uv"]:
            at |= {"UV": 2, "Ft": 3}
        if i["nn"]:
            at |= {"N": len(at), "Fn": len(at) + 1}
        if i["cc"]:
            at["C"] = len(at)
        g = {k: (q[j] if j < len(q) else None) for k, j in at.items()}
        if fmt == "ply":
            fnone = g.pop("Fn", None) is None
        ok = all((x is None and fmt == "obj" and k not in ("V", "F")) or (isinstance(x, np.ndarray) and x.ndim == 2 and (x.dtype == np.float64 if k in ("V", "UV", "N") else x.dtype.kind in "iu")) for k, x in g.items()) and (fmt != "ply" or fnone)
        out = {"n": len(q), "ok": ok} | {k: [] for k in g}
        if ok:
            f = hx if fmt == "obj" else nn2
            out |= {k: (f(x) if k in ("V", "UV", "N") else ix(x)) for k, x in g.items()}
    i["same"] = open(path, "rb").read() == before
    rec.event("read", i, out, exc)
    return not exc


def put(rec, rng, d, name, fmt, c, raw):
    with open(os.path.join(d, name), "wb") as f:
        f.write(raw)
    rec.event("put", {"path": name, "fmt": fmt, "c": c}, [])


def put_obj(rec, rng, d, name, recs):
    t = render(rng, recs, int(rng.integers(16)))
    put(rec, rng, d, name, "obj", recs, t.encode())


def put_ply(rec, rng, d, name, els, form=None):
    form = form or ["ascii", "le", "be"][int(rng.integers(3))]
    put(rec, rng, d, name, "ply", jply(els), ply_bytes(rng, els, form, "\r\n" if form == "ascii" and rng.random() < .2 else "\n"))


def put_stl(rec, rng, d, name, T, form=None):
    put(rec, rng, d, name, "stl", jstl(T), stl_bytes(rng, T, form or ["ascii", "bin"][int(rng.integers(2))]))


def refuse(rec, what, fn, *a, **k):
    v, exc = rec.run(fn, *a, **k)
    rec.event("refuse", {"what": what}, {"raised": bool(exc), "died": "NativeCrash" in exc})


def tame(a):
    """numbers that single precision holds without under- or overflow"""
    a = fin(np.array(a, dtype=float))
    return np.where((np.abs(a) < 1e-30) | (np.abs(a) > 1e30), np.sign(a) * 1.25, a)


def rand_ply(rng, t):
    n = [1, 2, 3, 4, 5, 7, 12, 40][int(rng.integers(8))] if t % 6 else 300
    m = int(rng.integers(0, 9)) if n > 2 else 0
    if t % 4 == 1 and n > 2:
        m = n
    V = fin(values(rng, (n, 3), t % 5))
    F = rng.integers(0, n, (m, 3)) if m else None
    N = fin(values(rng, (n, 3), int(rng.integers(5)))) if rng.random() < .5 else None
    C = None
    c = rng.random()
    if c < .4:
        C = rng.integers(0, 256, (n, 4))
    elif c < .8 and m:
        C = rng.integers(0, 256, (m, 4))
    if C is not None and t % 3 == 0:
        C = C.astype(np.uint8)
    if t % 7 == 3 and F is not None:
        F = F.astype(np.int32)
    if t % 11 == 4:
        V = (rng.integers(-99, 100, (n, 3)) / 8).astype(np.float32)
    if t % 13 == 5:
        V = np.asfortranarray(V)
    return {"V": V, "F": F, "N": N, "C": C}


def foreign(rng, mesh):
    """a PLY file another program could have written for this mesh"""
    ft = ["float", "double"][int(rng.integers(2))]
    nt = ["float", "double"][int(rng.integers(2))]
    cv = lambda A, ty: (np.asarray(A, np.float32) if ty == "float" else np.asarray(A, float)).tolist()
    V, F, N, C = mesh["V"], mesh["F"], mesh["N"], mesh["C"]
    V = tame(V)
    N = None if N is None else tame(N)
    n, m = len(V), 0 if F is None else len(F)
    cn = [("red", "green", "blue", "alpha"), ("r", "g", "b", "a")][int(rng.integers(2))]
    vg = [([(k, ft, False) for k in "xyz"], cv(V, ft))]
    if N is not None:
        vg.append(([(k, nt, False) for k in ("nx", "ny", "nz")], cv(N, nt)))
    vcol = C is not None and len(C) == n
    if vcol:
        vg.append(([(k, "uchar", False) for k in cn], np.asarray(C).tolist()))
    vg.append(([("confidence", ["float", "uchar", "int"][int(rng.integers(3))], False)], rng.integers(0, 9, (n, 1)).tolist()))
    top = n - 1
    its = [t for t, hi in (("char", 127), ("uchar", 255), ("short", 32767), ("ushort", 65535), ("int", 1 << 31), ("uint", 1 << 32)) if top <= hi]
    fg = []
    if m:
        fg.append(([(["vertex_indices", "vertex_index"][int(rng.integers(2))], its[int(rng.integers(len(its)))], True)], [[f] for f in np.asarray(F).tolist()]))
        if C is not None and not vcol:
            fg.append(([(k, "uchar", False) for k in cn], np.asarray(C).tolist()))
        if rng.random() < .5:
            fg.append(([("flags", "int", False)], rng.integers(-9, 9, (m, 1)).tolist()))
        if rng.random() < .5:
            fg.append(([("texcoord", "float", True)], [[[0.5, 0.25]] for _ in range(m)]))

    def el(name, gs, k):
        gs = [gs[i] for i in rng.permutation(len(gs))]
        return (name, [p for g in gs for p in g[0]], [[x for g in gs for x in g[1][r]] for r in range(k)])
    els = [el("vertex", vg, n)] + ([el("face", fg, m)] if m else [])
    if rng.random() < .5:
        els.append(("edge", [("vertex1", "int", False), ("vertex2", "int", False), ("red", "uchar", False)], [[0, 0, 7]] * int(rng.integers(0, 4))))
    if rng.random() < .3 and m:
        els = els[::-1]
    return els


def rand_stl(rng, t):
    n = int(rng.integers(3, 12))
    m = int(rng.integers(1, 14)) if t % 9 else 200
    V = tame(values(rng, (n, 3), t % 5))
    F = rng.integers(0, n, (m, 3))
    if t % 5 == 2:
        F = F.astype(np.int32)
    if t % 6 == 1:                     # a small model, points closer than any fixed tolerance
        V = rng.integers(-3, 4, (n, 3)) * 10. ** -int(rng.integers(6, 20))
    if t % 7 == 2:
        V = (rng.integers(-9, 9, (n, 3)) / 4).astype(np.float32)
    return {"V": V, "F": F}


def ascii_ok(mesh):
    return {k: (tame(v) if k in ("V", "N") and v is not None and v.dtype == np.float64 else v) for k, v in mesh.items()}


def p38(rec, gen):
    root = tempfile.mkdtemp(dir=os.environ.get("VERIF_WORK"))
    keep = list(NOISE)
    try:
        drv_file.NOISE[:] = [x for x in keep if not x.startswith("vnx")]
        run(rec, gen, root)
    finally:
        drv_file.NOISE[:] = keep
        shutil.rmtree(root, ignore_errors=True)


def run(rec, gen, root):
    rng = rec.rng("p38")
    G = gen.get("MC_Formats", [])
    for t, f in enumerate(G):
        if (t + rec.seed) % (37 if rec.thorough else 211):
            continue
        els = [(e["name"], [(p["name"], p["ty"], p["list"]) for p in e["props"]], e["rows"]) for e in f]
        rec.begin(f"model{t}")
        for form in ("ascii", "le", "be"):
            put_ply(rec, rng, root, "m.ply", els, form)
            read(rec, rng, root, "m.ply", "ply")
        rec.end()
    names = {"a.obj": ["obj"], "B.PLY": ["ply"], "c.stl": ["stl"], "d.x.ply": ["ply"], "noext": ["obj", "ply", "stl"], "e.STL": ["stl", "ply"], "f.OBJ": ["obj"]}
    for t in range(200 if rec.thorough else 60):
        rec.begin(f"dir{t}")
        d = os.path.join(root, f"d{t}")
        os.mkdir(d)
        there = {}
        for step in range(int(rng.integers(4, 12))):
            name = list(names)[int(rng.integers(len(names)))]
            k = 9 * t + step
            if name not in there or rng.random() < .4:
                fmt = names[name][int(rng.integers(len(names[name])))]
                mine = rng.random() < .6
                if fmt == "obj":
                    mesh = randmesh(rng, k)
                    if mine:
                        ok = write(rec, rng, d, name, fmt, dict(zip(("V", "F", "UV", "Ft", "N", "Fn"), mesh)))
                    else:
                        r, u, n, f = records(mesh)
                        L = r + u + n + f
                        if rng.random() < .5:
                            pool = {q: [x for x in L if x["k"] == q] for q in {x["k"] for x in L}}
                            L = [pool[L[i]["k"]].pop(0) for i in rng.permutation(len(L)).tolist()]
                        for _ in range(int(rng.integers(0, 6))):
                            L.insert(int(rng.integers(0, len(L) + 1)), {"k": "other"})
                        put_obj(rec, rng, d, name, L)
                        ok = True
                elif fmt == "ply":
                    mesh = rand_ply(rng, k)
                    if mine:
                        b = bool(rng.integers(2))
                        ok = write(rec, rng, d, name, fmt, mesh if b else ascii_ok(mesh), b)
                    else:
                        put_ply(rec, rng, d, name, foreign(rng, mesh))
                        ok = True
                else:
                    mesh = rand_stl(rng, k)
                    if mine:
                        ok = write(rec, rng, d, name, fmt, mesh, bool(rng.integers(2)))
                    else:
                        put_stl(rec, rng, d, name, np.asarray(mesh["V"], np.float32)[mesh["F"]])
                        ok = True
                if not ok:
                    break
                there[name] = fmt
            elif not read(rec, rng, d, name, there[name]):
                break
        else:
            for name, fmt in there.items():
                if not read(rec, rng, d, name, fmt):
                    break
        rec.end()
        shutil.rmtree(d, ignore_errors=True)
    # ---- what cannot be done
    V, F = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0]]), np.array([[0, 1, 2], [2, 1, 3]])
    p = lambda n: os.path.join(root, n)
    for fmt in ("obj", "ply", "stl"):
        rec.begin(f"refuse-{fmt}")
        for b in (True, False):
            refuse(rec, f"write_mesh {fmt} into a directory that does not exist", gpy.write_mesh, p(f"nowhere/a.{fmt}"), V, F, binary=b)
        refuse(rec, f"read_mesh {fmt} from a file that does not exist", gpy.read_mesh, p(f"missing.{fmt}"))
        rec.end()
    rec.begin("refuse-content")
    quad = ("face", [("vertex_indices", "int", True)], [[[0, 1, 3, 2]]])
    vert = ("vertex", [(k, "float", False) for k in "xyz"], V.tolist())
    for form in ("ascii", "le"):
        for what, els in (("read_mesh of a ply file with quadrilaterals", [vert, quad]), ("read_mesh of a ply file without vertex coordinates", [("vertex", [("x", "float", False)], [[0.], [1.], [2.]]), ("face", quad[1], [[[0, 1, 2]]])])):
            open(p("q.ply"), "wb").write(ply_bytes(rng, els, form))
            refuse(rec, what, gpy.read_mesh, p("q.ply"))
    open(p("q.obj"), "w").write("v 0 0 0\nv 1 0 0\nv 0 1 0\nv 1 1 0\nf 1 2 4 3\n")
    refuse(rec, "read_mesh of an obj file with quadrilaterals", gpy.read_mesh, p("q.obj"))
    T = V.astype(np.float32)[F]
    whole = stl_bytes(rng, T, "bin")
    for cut in (50, 83, 100, len(whole) - 30):
        open(p("q.stl"), "wb").write(whole[:cut])
        refuse(rec, "read_mesh of a truncated stl file", gpy.read_mesh, p("q.stl"))
    whole = stl_bytes(rng, T, "ascii")
    for cut in (1, 3, 5):
        open(p("q.stl"), "wb").write(b"\n".join(whole.split(b"\n")[:cut]))
        refuse(rec, "read_mesh of a truncated stl file", gpy.read_mesh, p("q.stl"))
    for bad in ({"Ft": F[:1], "UV": V[:, :2]}, {"Fn": F[:, :2], "N": V}):
        refuse(rec, "write_mesh obj: texture or normal faces of the wrong shape", gpy.write_mesh, p("w.obj"), V, F, **bad)
    refuse(rec, "write_mesh ply: colors of the wrong length", gpy.write_mesh, p("w.ply"), V, F, C=np.zeros((3, 4), int))
    refuse(rec, "write_mesh ply: colors without alpha", gpy.write_mesh, p("w.ply"), V, F, C=np.zeros((4, 3), int))
    rec.end()
