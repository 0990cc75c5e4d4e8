"""Stand-ins for compiled geometry queries that need libigl: the closest points
of a mesh, computed directly, and a remesher that a driver can replace."""
import numpy as np

REMESH = {"f": None}


def closest_on_segment(P, A, B):
    u = B - A
    uu = np.sum(u * u, -1)
    t = np.sum((P - A) * u, -1) / np.where(uu > 0, uu, 1)
    return A + np.clip(t, 0, 1)[..., None] * u


def closest_on_triangle(P, A, B, C):
    u, v, w = B - A, C - A, P - A
    uu, uv, vv = np.sum(u * u, -1), np.sum(u * v, -1), np.sum(v * v, -1)
    wu, wv = np.sum(w * u, -1), np.sum(w * v, -1)
    det = uu * vv - uv * uv
    s, t = (vv * wu - uv * wv) / np.where(det > 0, det, 1), (uu * wv - uv * wu) / np.where(det > 0, det, 1)
    inside = (det > 0) & (s >= 0) & (t >= 0) & (s + t <= 1)
    c = [closest_on_segment(P, A, B), closest_on_segment(P, B, C), closest_on_segment(P, C, A)]
    d = np.stack([np.sum((P - x) ** 2, -1) for x in c])
    best = np.take_along_axis(np.stack(c), np.argmin(d, 0)[None, ..., None], 0)[0]
    return np.where(inside[..., None], A + s[..., None] * u + t[..., None] * v, best)


def closest(V, F, P):
    """-> squared distances, elements, points"""
    c = [V[F[:, k]][None] for k in range(F.shape[1])]
    p = P[:, None, :]
    X = np.broadcast_to(c[0], (len(P),) + c[0].shape[1:]) if len(c) == 1 else closest_on_segment(p, *c) if len(c) == 2 else closest_on_triangle(p, *c)
    d = np.sum((p - X) ** 2, -1)
    i = np.argmax(d <= d.min(1, keepdims=True) * (1 + 1e-9) + 1e-18 * np.ptp(V, axis=0).max() ** 2, 1)      # ties: the first
    return np.take_along_axis(d, i[:, None], 1)[:, 0], i.astype(np.int32), np.take_along_axis(X, i[:, None, None], 1)[:, 0]


def winding(V, F, Q):
    """generalised winding numbers of triangles, by solid angles"""
    a, b, c = (V[F[:, k]][None] - Q[:, None, :] for k in range(3))
    la, lb, lc = (np.linalg.norm(x, axis=-1) for x in (a, b, c))
    num = np.sum(a * np.cross(b, c), -1)
    den = la * lb * lc + np.sum(a * b, -1) * lc + np.sum(b * c, -1) * la + np.sum(c * a, -1) * lb
    return np.sum(np.arctan2(num, den), 1) / (2 * np.pi)


def first_hit(V, F, O, D):
    """-> time (inf), triangle (-1), barycentric coordinates of the first hit"""
    A, e1, e2 = V[F[:, 0]][None], (V[F[:, 1]] - V[F[:, 0]])[None], (V[F[:, 2]] - V[F[:, 0]])[None]
    d, o = D[:, None, :], O[:, None, :]
    p = np.cross(d, e2)
    det = np.sum(p * e1, -1)
    size = np.linalg.norm(D, axis=1)[:, None] * np.linalg.norm(np.cross(e1, e2), axis=-1)
    flat = np.abs(det) <= 1e-14 * size
    inv = 1 / np.where(flat, 1, det)
    u = np.sum((o - A) * p, -1) * inv
    q = np.cross(o - A, e1)
    v = np.sum(d * q, -1) * inv
    t = np.sum(e2 * q, -1) * inv
    ok = ~flat & (u >= -1e-12) & (v >= -1e-12) & (u + v <= 1 + 1e-12) & (t >= 0)
    t = np.where(ok, t, np.inf)
    i = np.argmin(t, 1)
    k = np.arange(len(O))
    hit = np.isfinite(t[k, i])
    L = np.stack([1 - u[k, i] - v[k, i], u[k, i], v[k, i]], 1) * hit[:, None]
    return t[k, i], np.where(hit, i, -1).astype(np.int32), L


def typed(*a):
    for x, k in a:
        if not (isinstance(x, np.ndarray) and x.ndim == 2 and x.dtype == (np.float64 if k == "f" else np.int32)):
            raise TypeError("incompatible function arguments")


class Mesh:
    def __init__(self, V, F):
        typed((V, "f"), (F, "i"))
        self._V, self._F = V.copy(), F.copy()             # the compiled classes own their mesh


class _AABBTree_cpp_impl(Mesh):
    dim = property(lambda self: self._V.shape[1])

    def squared_distance(self, P):
        typed((P, "f"))
        if P.shape[1] != self.dim:
            raise ValueError("P must have the same number of columns as V")
        return closest(self._V, self._F, P)


class _FastWindingNumberBVH_cpp_impl(Mesh):
    def __init__(self, V, F, order=2):
        super().__init__(V, F)
        self.order = order

    def winding_number(self, Q, accuracy_scale=2.0):
        typed((Q, "f"))
        return winding(self._V, self._F, Q)


class _RayMeshIntersector_cpp_impl(Mesh):
    def intersect(self, sources, dirs):
        typed((sources, "f"), (dirs, "f"))
        return first_hit(self._V, self._F, sources, dirs)


def install(module):
    for c in (_AABBTree_cpp_impl, _FastWindingNumberBVH_cpp_impl, _RayMeshIntersector_cpp_impl):
        setattr(module, c.__name__, c)

    def _fast_winding_number_cpp_impl(V, F, Q):
        typed((V, "f"), (F, "i"), (Q, "f"))
        return winding(V, F, Q)

    def _ray_mesh_intersect_cpp_impl(O, D, V, F):
        typed((O, "f"), (D, "f"), (V, "f"), (F, "i"))
        return first_hit(V, F, O, D)

    def _hausdorff_distance_cpp_impl(V, F, U, G):
        typed((V, "f"), (F, "i"), (U, "f"), (G, "i"))
        return float(np.sqrt(max(closest(V, F, U)[0].max(), closest(U, G, V)[0].max())))

    def _point_mesh_squared_distance_cpp_impl(V, F, P):
        if not (V.dtype == P.dtype == np.float64 and F.dtype == np.int32):
            raise TypeError("incompatible function arguments")
        return closest(V, F, P)

    def _remesh_botsch_cpp_impl(V, F, i, h, feature, *rest):
        return REMESH["f"](V.copy(), F.copy(), i, h, feature) if REMESH["f"] else (V.copy(), F.copy())
    for k, v in list(locals().items()):
        if k.endswith("_cpp_impl"):
            setattr(module, k, v)
