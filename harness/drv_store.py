"""P36: every public function (Python paths) with its arguments kept in the storages emitted by MC_Storage and MC_StorageSp."""
import contextlib, io
import numpy as np
import scipy.sparse as sps
import gpytoolbox as gpy
import drv_purity as pure
from vlib import num, snapshot

DENSE = ("order", "step", "rev", "pad", "ro", "narrow")
SPARSE = ("fmt", "shuffled", "zeros", "split", "ro")


def keep(a, y, narrow=np.int32):
    """array a kept in layout y (see View in Storage.tla): (array, its buffer)"""
    if y["narrow"] and a.dtype.kind == "i":
        a = a.astype(narrow)
    u = 2 if y["step"] else 1
    big = [u * n for n in a.shape]
    st, s = [0] * a.ndim, u
    for d in (range(a.ndim - 1, -1, -1) if y["order"] == "C" else range(a.ndim)):
        st[d], s = s, s * big[d]
    size, p = int(np.prod(big, dtype=int)), 3 if y["pad"] else 0
    buf = np.full(p + size + p, 77, dtype=a.dtype)
    off = p
    if y["rev"]:
        off += sum(st[d] * (a.shape[d] - 1) for d in range(a.ndim))
        st = [-x for x in st]
    b = a.dtype.itemsize
    if a.size == 0:
        v = buf[:0].reshape(a.shape)
    else:
        v = np.ndarray(a.shape, a.dtype, buf, off * b, [x * b for x in st])
        v[...] = a
    if y["ro"]:
        v.flags.writeable = False
        buf.flags.writeable = False
    return v, (buf, off, st)


def keepsp(m, y):
    """sparse matrix m kept in layout y: same contents, triplets stored otherwise"""
    m = m.tocsr() if isinstance(m, sps.csr_matrix) == (y["fmt"] == "csr") else m.tocsc()
    lines = []
    for k in range(len(m.indptr) - 1):
        s = slice(m.indptr[k], m.indptr[k + 1])
        e = list(zip(m.indices[s].tolist(), m.data[s].tolist()))
        if y["zeros"]:
            e += [(j, 0) for j in sorted(set(range(m.shape[1] if m.format == "csr" else m.shape[0])) - {i for i, _ in e})[:2]]
            e.sort()
        if y["split"]:
            e = [(j, v) for j, x in e for v in (x / 2, x / 2)]
        if y["shuffled"]:
            e = e[1:] + e[:1]
            e = e[::-1] if k % 2 else e
        lines.append(e)
    ip = np.cumsum([0] + [len(e) for e in lines]).astype(m.indptr.dtype)
    r = type(m)((np.array([v for e in lines for _, v in e], dtype=m.dtype), np.array([j for e in lines for j, _ in e], dtype=m.indices.dtype), ip), shape=m.shape)
    if y["ro"]:
        for k in ("data", "indices", "indptr"):
            getattr(r, k).flags.writeable = False
    return r


def codes(m):
    """direction codes (a quadtree's adjacency), not numbers that add up"""
    return np.all(m.data == np.round(m.data)) and m.nnz and set(np.unique(m.data)) <= {1, 2, 3, 4, 5, 6} and m.shape[0] == m.shape[1] and len(set(m.data)) > 1


def put(o, y, z, narrow):
    if sps.issparse(o): return keepsp(o, dict(z, split=z["split"] and not codes(o))) if z else o.copy()
    if isinstance(o, np.ndarray) and o.ndim and y: return keep(o, y, narrow)[0]
    if isinstance(o, tuple): return tuple(put(x, y, z, narrow) for x in o)
    return pure.clone(o)


def sdense(x):
    """content of a sparse answer, whatever it stores"""
    if sps.issparse(x) and np.prod(x.shape) <= 10 ** 6:
        return pure.canon(np.asarray(x.todense(), dtype=float))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [sdense(y) for y in x])
    return pure.canon(x)


def big():
    """larger meshes whose vertex-pair keys leave 16-bit integers"""
    g, o, r = gpy, pure.objects(0), np.random.default_rng(7)
    V2, F = g.regular_square_mesh(16)
    n = len(V2)
    p = r.permutation(n)
    F = p[F][r.permutation(len(F))]
    V2 = V2[np.argsort(p)]
    o["F"] = o["Fi"] = o["uvf"] = F
    o["V2"] = V2 + .01 * r.normal(size=V2.shape)
    o["V"] = np.column_stack([o["V2"], V2[:, 0] * V2[:, 1]])
    o["lsq"] = g.halfedge_lengths_squared(o["V"], F)
    Vc, o["Fc"] = g.icosphere(2)
    o["Vc"] = Vc + .01 * r.normal(size=Vc.shape)
    o["Vu"], o["Fu"] = np.r_[o["V"], o["V"][:5]], np.where(F < 5, F + n, F)
    o["Vt"], o["T"] = g.regular_cube_mesh(6)[:2]
    t = 2 * np.pi * np.arange(220) / 220
    o["P2"] = np.column_stack([np.cos(t), np.sin(t)]) * (1 + .1 * r.random(size=(220, 1)))
    o["EC"], o["OE"] = g.edge_indices(220, closed=True), g.edge_indices(220, closed=False)
    E = g.edges(F)
    o["E"], o["Cut"], o["Ehe"], o["F1"] = E, E[100:140], g.halfedge_edge_map(F)[3], F[:1]
    L = g.cotangent_laplacian(o["V"], F) + .5 * sps.identity(n)
    o["A"], o["Ac"], o["c"], o["c2"], o["k"] = sps.csr_matrix(L), sps.csc_matrix(L), r.normal(size=n), r.normal(size=(n, 2)), np.array([200, 7])
    o["Aeq"], o["Lf"] = sps.csr_matrix(np.arange(1., n + 1)[None]), sps.identity(n, format="csr")
    o["W3"], o["uv"], o["nrm"], o["like"] = r.uniform(size=(n, 2)), r.uniform(size=(n, 2)), r.normal(size=(n, 3)), r.uniform(.1, 1, size=len(F))
    o["bb"], o["U0"], o["Ud"], o["fx"] = np.array([0, 200]), .01 * r.normal(size=(n, 2)), .01 * r.normal(size=(n, 2)), r.normal(size=(n, 2))
    o["vols"], o["mm"], o["vec"] = g.doublearea(o["V2"], F) / 2, g.massmatrix(o["V2"], F), r.normal(size=n)
    o["pts"] = r.uniform(.05, .95, size=(60, 2))
    o["qC"], o["qW"], o["qCH"], o["qPAR"], o["qD"], o["qA"] = g.initialize_quadtree(o["pts"], max_depth=6, graded=True, vmin=np.array([0., 0.]), vmax=np.array([1., 1.]))
    o["tC"], o["tW"], o["tCH"], _, _, o["tI"], o["tS"] = g.initialize_aabbtree(o["Vc"], o["Fc"])[:7]
    o["ids"], o["ids2"] = r.integers(0, 30000, size=60), r.integers(0, 30000, size=40)
    o["ids2"][:10] = o["ids"][5:15]
    o["rows"], o["rows2"] = r.integers(0, 250, size=(60, 2)), r.integers(0, 250, size=(40, 2))
    o["rows2"][:10] = o["rows"][5:15]
    return o


class History:
    def __init__(self, rec, id):
        self.rec, self.reps, self.tok = rec, [], {}
        rec.begin(id)

    def token(self, x):
        return self.tok.setdefault(repr(snapshot(x)), len(self.tok))

    def call(self, name, fn, a, where):
        """the call; the number of its answer among those given so far"""
        before = [self.token(x) for x in a]
        v, exc = self.rec.run(pure.quiet, fn, *a)
        c = ("raised", exc) if exc else sdense(v)
        k = next((i for i, r in enumerate(self.reps) if pure.equal(r, c)), len(self.reps))
        if k == len(self.reps): self.reps.append(c)
        self.rec.event("call", {"what": name, "stored": where, "before": before, "after": [self.token(x) for x in a], "res": k, "raised": exc}, {"t": "none"})


def say(y):
    return " ".join(str(y[k]) if k in ("order", "fmt") else k for k in (SPARSE if "fmt" in y else DENSE) if y[k] not in (False, "C")) or "plain"


def flat(x):
    return [num(v) for v in np.asarray(x).ravel()]


def kept(rec, O, Y, Z):
    """every object in every storage: TLC reads the content out of the memory"""
    for n, o in sorted(O.items()):
        for part, a in enumerate(o if isinstance(o, tuple) else [o]):
            if isinstance(a, np.ndarray) and a.ndim and a.size and a.dtype.kind in "if":
                rec.begin("keep %s %d" % (n, part))
                for y in Y:
                    v, (buf, off, st) = keep(a, y)
                    rec.event("keep", {"what": n + " " + say(y), "view": {"buf": flat(buf), "off": off, "str": st, "sh": list(a.shape)}, "content": flat(a)}, {"t": "none"})
                rec.end()
            elif sps.issparse(a):
                rec.begin("keep %s %d" % (n, part))
                for z in Z:
                    m = keepsp(a, z)
                    major = np.repeat(np.arange(len(m.indptr) - 1), np.diff(m.indptr))
                    i, j = (major, m.indices) if m.format == "csr" else (m.indices, major)
                    c = sps.coo_matrix(a); c.sum_duplicates(); c.eliminate_zeros()
                    t = lambda i, j, v: [[int(p), int(q), num(x)] for p, q, x in zip(i, j, v)]
                    rec.event("keepsp", {"what": n + " " + say(z), "stored": t(i, j, m.data), "content": t(c.row, c.col, c.data)}, {"t": "none"})
                rec.end()


def p36(rec, gen):
    plain = {k: False for k in DENSE}; plain["order"] = "C"
    plainsp = {k: False for k in SPARSE}; plainsp["fmt"] = "csr"
    one, both = [], []
    for e in gen["MC_Storage"]:
        for y in ([e["a"]] if e["b"] == plain else [e["b"]] if e["a"] == plain else [e["a"], e["b"]]):
            l = one if plain in (e["a"], e["b"]) else both
            if y not in l: l.append(y)
    both += [y for y in one if y not in both]
    sp = []
    for e in gen["MC_StorageSp"]:
        if e["y"] not in sp: sp.append(e["y"])
    # all features at once as well
    allf = [dict(order="F", step=True, rev=True, pad=True, ro=True, narrow=True)]
    allsp = [dict(fmt="csr", shuffled=True, zeros=True, split=True, ro=True)]
    O = [pure.objects(x) for x in (0, 1)]
    kept(rec, O[0], both + allf, sp + allsp)
    R = pure.recipes()
    for n in sorted(R):
        fn, objs = R[n]
        for x in (0, 1):
            base = [O[x][k] for k in objs]
            h = History(rec, "%s %d" % (n, x))
            go = lambda ys, zs, who, w=np.int32, note="": h.call(n, fn, [put(o, y, z, w) for o, y, z in zip(base, ys, zs)], who + note)
            none = [None] * len(objs)
            go(none, none, "plain")
            for y in both + allf:
                go([y] * len(objs), none, "all " + say(y))
            for z in sp + allsp:
                if any(sps.issparse(o) for o in base): go(none, [z] * len(objs), "all " + say(z))
            if rec.thorough or x == 0:
                for i in range(len(objs)):
                    if isinstance(base[i], (np.ndarray, tuple)) and len(objs) > 1:
                        for y in one:
                            go([y if j == i else None for j in range(len(objs))], none, "%s %s" % (objs[i], say(y)))
                    elif sps.issparse(base[i]) and len(objs) > 1:
                        for z in sp:
                            go(none, [z if j == i else None for j in range(len(objs))], "%s %s" % (objs[i], say(z)))
            go([dict(plain, narrow=True)] * len(objs), none, "all int16", np.int16)
            rec.end()
    B = big()
    for n in sorted(R):
        fn, objs = R[n]
        base = [B[k] for k in objs]
        if any(isinstance(o, np.ndarray) and o.dtype.kind == "i" for o in base) and n not in ("approximate_hausdorff_distance",):
            a = [pure.clone(o) for o in base]
            if rec.run(pure.quiet, fn, *a)[1]: continue       # sizes that only fit the small objects
            h = History(rec, "big " + n)
            h.call(n, fn, [pure.clone(o) for o in base], "plain")
            for w in (np.int32, np.int16):
                h.call(n, fn, [put(o, dict(plain, narrow=True), None, w) for o in base], "all " + w.__name__)
            h.call(n, fn, [put(o, allf[0], None, np.int16) for o in base], "all everything")
            rec.end()
