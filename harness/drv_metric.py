import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums
import meshes as M
from drv_fem import geo_meshes, geo


def start(rec, V, F):
    rec.event("mesh", {"F": raw(F), "X": nums(V)}, {"t": "none"})


def tri(rec, id, V, F, sliver=False):
    rec.begin(id)
    start(rec, V, F)
    n, nf, d = len(V), int(F.max()) + 1, V.shape[1]
    rec.call("halfedge_lengths", {"squared": True}, gpy.halfedge_lengths_squared, V, F)
    rec.call("halfedge_lengths", {"squared": False}, gpy.halfedge_lengths, V, F)
    l = gpy.halfedge_lengths_squared(V, F)
    rec.call("doublearea", {"signed": False}, gpy.doublearea, V, F)
    rec.call("doublearea", {"signed": False}, gpy.doublearea_intrinsic, l, F)
    rec.call("doublearea", {"signed": True}, gpy.doublearea, V, F, signed=True)
    rec.call("barycenters", {}, gpy.barycenters, V, F)
    if d == 3:
        rec.call("per_face_normals", {"unit": True}, gpy.per_face_normals, V, F)
        rec.call("per_face_normals", {"unit": False}, gpy.per_face_normals, V, F, unit_norm=False)
        rec.call("per_vertex_normals", {}, gpy.per_vertex_normals, V, F)
        if not sliver:
            rec.call("dihedral_angles", {}, gpy.dihedral_angles, V, F)
    for a in ([True, False] if not sliver else [True]):
        kw = {} if a else {"use_small_angle_approx": False}
        rec.call("tip_angles", {"sliver": sliver}, gpy.tip_angles, V, F, **kw)
        rec.call("tip_angles", {"sliver": sliver}, gpy.tip_angles_intrinsic, l, F, **kw)
        rec.call("angle_defect", {"n": n}, gpy.angle_defect, V, F, **kw)
        rec.call("angle_defect", {"n": n}, gpy.angle_defect_intrinsic, l, F, n=n, **kw)
        rec.call("angle_defect", {"n": nf}, gpy.angle_defect_intrinsic, l, F, **kw)
    rec.end()


def p12(rec, gen):
    mult = 5 if rec.thorough else 1
    for id, V, F in geo_meshes(rec, "p12", 40):
        tri(rec, id, V, F)
    rng = rec.rng("p12")
    for sc in (-28, -20, -13, 13, 40):          # scale
        V, F = M.icosa()
        tri(rec, f"icosa-s{sc}", geo(rng, V, F) * 2.0 ** sc, F)
        V, F = M.grid_tris(2, 3)
        tri(rec, f"grid-s{sc}", geo(rng, V, F, 2) * 2.0 ** sc, F)
    for k in range(8 * mult):                   # far from the origin
        V, F = M.icosa() if k % 2 else M.grid_tris(2, 3)
        V = geo(rng, V, F, 3 if k % 2 else 2 + (k % 4) // 2)
        tri(rec, f"far{k}", V + rng.normal(size=V.shape[1]) * 2. ** int(rng.integers(10, 27)), F)
    for k in range(6 * mult):                   # needles, any labelling
        eps = 2.0 ** -int(rng.integers(8, 16))
        P = np.array([[0., 0, 0], [1, 0, 0], [1, eps, 0]]) * 2.0 ** int(rng.integers(-3, 4))
        tri(rec, f"needle{k}", P[:, :2 + k % 2][rng.permutation(3)], np.array([rng.permutation(3)]), sliver=True)
    for k in range(24 * mult):                  # polylines and tets
        d = [2, 3, 1][k % 3]
        n = int(rng.integers(3, 10))
        V = np.round(rng.normal(size=(n, d)) * 256) / 256
        if k % 4 == 1:
            V = V * 2.0 ** int(rng.integers(-20, 20))
        m = int(rng.integers(1, 8))
        E = np.array([rng.permutation(n)[:2] for _ in range(m)])
        if d == 2 and k % 2:
            E = np.stack([np.arange(n), (np.arange(n) + 1) % n], -1)
        ln = np.linalg.norm(V[E[:, 0]] - V[E[:, 1]], axis=1)
        if ln.min() < 1e-3 * ln.max():
            continue
        rec.begin(f"poly{k}")
        start(rec, V, E)
        rec.call("doublearea", {"signed": False}, gpy.doublearea, V, E)
        rec.call("barycenters", {}, gpy.barycenters, V, E)
        if d == 2:
            rec.call("per_face_normals", {"unit": True}, gpy.per_face_normals, V, E)
            rec.call("per_face_normals", {"unit": False}, gpy.per_face_normals, V, E, unit_norm=False)
            rec.call("per_vertex_normals", {}, gpy.per_vertex_normals, V, E)
        rec.end()
        W = np.round(rng.normal(size=(n, d)) * 256) / 256
        E = np.stack([np.arange(n - 1), np.arange(1, n)], -1)
        rec.begin(f"open{k}")
        start(rec, W, E)
        rec.call("doublearea", {"signed": False}, gpy.doublearea, W)
        rec.end()
        n = int(rng.integers(4, 9))
        V = np.round(rng.normal(size=(n, 3)) * 256) / 256 * 2.0 ** int(rng.integers(-12, 12))
        T = np.array([rng.permutation(n)[:4] for _ in range(m)])
        rec.begin(f"tets{k}")
        start(rec, V, T)
        rec.call("volume", {}, gpy.volume, V, T)
        rec.call("barycenters", {}, gpy.barycenters, V, T)
        rec.end()
    V, T = M.cube_tets(1, 2, 1)
    rec.begin("tets-cube")
    start(rec, V, T)
    rec.call("volume", {}, gpy.volume, V, T)
    rec.end()
