import numpy as np
import gpytoolbox as gpy
from vlib import raw, nums
import meshes as M


def face_lists(rec, gen, what, n_gen, n_rand):
    """(id, F) pairs: every mesh the specification enumerated (sampled in the quick tier), then random ones"""
    rng = rec.rng("faces", what)
    for key in ("MC_Topo4", "MC_Topo5"):
        g = gen.get(key, [])
        pick = range(len(g)) if rec.thorough or len(g) <= n_gen else np.sort(rng.permutation(len(g))[:n_gen])
        for i in pick:
            F = np.array(g[i])
            for r in range(len(F)):
                F[r] = np.roll(F[r], rng.integers(3))
            F = F[rng.permutation(len(F))]
            yield f"{key}-{i}", F
    for nm, V, F in M.library(rng):
        yield f"lib-{nm}", F
        yield f"libp-{nm}", M.relabel(rng, F, extra=int(rng.integers(0, 4)))[0]
    for k in range(n_rand * (6 if rec.thorough else 1)):
        kind = k % 4
        if kind == 0:     # arbitrary triangles, mostly non-manifold
            n, m = int(rng.integers(3, 12)), int(rng.integers(1, 40))
            F = np.array([rng.permutation(n)[:3] for _ in range(m)])
        elif kind == 1:
            F = M.relabel(rng, M.random_manifold(rng)[1], extra=int(rng.integers(0, 5)))[0]
        elif kind == 2:   # manifold with flipped faces
            F = M.random_manifold(rng)[1]
            fl = rng.random(len(F)) < 0.3
            F[fl] = F[fl][:, ::-1]
        else:             # large index gaps
            F = M.random_manifold(rng)[1] * int(rng.integers(2, 2000)) + int(rng.integers(0, 5))
        if k % 5 == 0:
            F = F.astype(np.int32)
        if k % 7 == 3:
            F = np.asfortranarray(F)
        yield f"rnd{kind}-{k}", F
    for k in range(64 if not rec.thorough else 320):   # indices that collide under i*K + j
        F = M.random_manifold(rng)[1] if k % 3 else np.array([rng.permutation(9)[:3] for _ in range(int(rng.integers(2, 7)))])
        yield f"key-{k}", M.collide(rng, F, k // 3)
    V, F = M.torus_tris(9, 11)
    yield "big-torus", M.relabel(rng, F)[0]
    V, F = M.grid_tris(9, 12)
    yield "big-grid", M.relabel(rng, F)[0]


def tet_lists(rec, what, n_rand):
    rng = rec.rng("tets", what)
    yield "one", np.array([[0, 1, 2, 3]])
    yield "one-p", np.array([[7, 2, 5, 3]])
    yield "cube", M.cube_tets(1, 1, 1)[1]
    yield "cubes", M.cube_tets(2, 1, 2)[1]
    yield "fan", np.array([[0, 1, 2, 3], [1, 0, 2, 4], [0, 1, 2, 5]])
    for k in range(n_rand * (6 if rec.thorough else 1)):
        if k % 3 == 0:
            n, m = int(rng.integers(4, 9)), int(rng.integers(1, 14))
            T = np.array([rng.permutation(n)[:4] for _ in range(m)])
        else:
            T = M.cube_tets(*map(int, rng.integers(1, 3, 3)))[1]
            T = M.random_submesh(rng, T, rng.uniform(.2, 1))
            T = rng.permutation(T.max() + 1 + 3)[T]
            if k % 3 == 2:
                T = T[rng.permutation(len(T))]
        yield f"rnd-{k}", T.astype(np.int32) if k % 4 == 1 else T


FLAGS = [(a, b, c) for a in (False, True) for b in (False, True) for c in (False, True)]


def p01(rec, gen):
    rng = rec.rng("p01")
    for id, F in face_lists(rec, gen, "p01", 150, 40):
        rec.begin(id)
        inp = {"F": raw(F)}
        rec.call("halfedges", inp, gpy.halfedges, F)
        rec.call("edges", {**inp, "flags": [False] * 3}, gpy.edges, F)
        rec.call("halfedge_edge_map", {**inp, "manifold": False}, gpy.halfedge_edge_map, F, assume_manifold=False)
        if M.is_oriented_manifold(F, vertex=False):
            rec.call("halfedge_edge_map", {**inp, "manifold": True}, gpy.halfedge_edge_map, F)
        if F.max() < 3000:
            rec.call("adjacency_matrix", {"X": raw(F)}, gpy.adjacency_matrix, F)
        rec.end()
    for k in range(12):
        n = int(rng.integers(2, 12))
        all_e = np.array([(a, b) for a in range(n) for b in range(a + 1, n)])
        E = all_e[rng.permutation(len(all_e))[:int(rng.integers(1, len(all_e) + 1))]]
        fl = rng.random(len(E)) < .5
        E[fl] = E[fl][:, ::-1]
        rec.one(f"edgelist-{k}", "adjacency_matrix", {"X": raw(E)}, gpy.adjacency_matrix, E)
    for id, T in tet_lists(rec, "p01", 15):
        rec.begin("tet-" + id)
        rec.call("halffaces", {"T": raw(T)}, gpy.halffaces, T)
        rec.call("faces", {"T": raw(T), "flags": [False] * 3}, gpy.faces, T)
        rec.end()
    for n in (1, 2, 3, 4, 5, 10, 101, 257):
        for closed in (False, True):
            if n == 1 and not closed:
                continue
            rec.one(f"edge_indices-{n}-{closed}", "edge_indices", {"n": n, "closed": closed}, gpy.edge_indices, n, closed=closed)


def p02(rec, gen):
    rng = rec.rng("p02")
    for id, F in face_lists(rec, gen, "p02", 150, 40):
        rec.begin(id)
        inp = {"F": raw(F)}
        fl = [True] * 3 if rng.random() < .4 else list(FLAGS[rng.integers(1, 8)])
        rec.call("edges", {**inp, "flags": fl}, gpy.edges, F, *fl)
        rec.call("boundary_edges", inp, gpy.boundary_edges, F)
        rec.call("boundary_vertices", inp, gpy.boundary_vertices, F)
        rec.call("non_manifold_edges", inp, gpy.non_manifold_edges, F)
        rec.end()
    for id, T in tet_lists(rec, "p02", 25):
        rec.begin("tet-" + id)
        fl = [True] * 3 if rng.random() < .4 else list(FLAGS[rng.integers(1, 8)])
        rec.call("faces", {"T": raw(T), "flags": fl}, gpy.faces, T, *fl)
        rec.call("boundary_faces", {"T": raw(T)}, gpy.boundary_faces, T)
        rec.end()


def manifold_lists(rec, gen, what, n_gen, n_rand, flips=False):
    """oriented edge- and vertex-manifold meshes"""
    rng = rec.rng("mani", what)
    for key in ("MC_Topo4", "MC_Topo5"):
        g = [(i, np.array(F)) for i, F in enumerate(gen.get(key, [])) if M.is_oriented_manifold(np.array(F))]
        # two faces on the same three vertices are not a mesh of triangles with distinct edges pairs; keep them
        if not rec.thorough and len(g) > n_gen:
            g = [g[i] for i in np.sort(rng.permutation(len(g))[:n_gen])]
        for i, F in g:
            F = np.array([np.roll(f, rng.integers(3)) for f in F])
            yield f"{key}-{i}", F[rng.permutation(len(F))]
    for nm, V, F in M.library(rng):
        yield f"lib-{nm}", F
        yield f"libp-{nm}", M.relabel(rng, F, extra=int(rng.integers(0, 4)))[0]
    for k in range(n_rand * (6 if rec.thorough else 1)):
        V, F = M.random_manifold(rng)
        F = M.relabel(rng, F, extra=int(rng.integers(0, 5)))[0]
        if k % 6 == 1:
            F = F.astype(np.int32)
        if k % 6 == 2:
            F = F * 137 + 11
        if k % 6 == 3:
            F = np.asfortranarray(F)
        if k % 6 == 4:
            F = np.vstack([F, M.relabel(rng, M.random_manifold(rng)[1])[0] + F.max() + 1 + int(rng.integers(0, 3))])
            F = F[rng.permutation(len(F))]
        yield f"rnd-{k}", F
    for k in range(64 if not rec.thorough else 320):   # indices that collide under i*K + j
        yield f"key-{k}", M.collide(rng, M.random_manifold(rng)[1], k)
    yield "big-torus", M.relabel(rng, M.torus_tris(8, 9)[1])[0]
    yield "big-grid", M.relabel(rng, M.grid_tris(8, 10)[1])[0]
    yield "big-sub", M.make_vertex_manifold(M.random_submesh(rng, M.grid_tris(10, 10)[1], .7))


def p03(rec, gen):
    for id, F in manifold_lists(rec, gen, "p03", 250, 60):
        rec.one(id, "triangle_triangle_adjacency", {"F": raw(F)}, gpy.triangle_triangle_adjacency, F)


def p04(rec, gen):
    rng = rec.rng("p04")
    for id, F in manifold_lists(rec, gen, "p04", 250, 60):
        rec.begin(id)
        rec.call("boundary_loops", {"F": raw(F)}, gpy.boundary_loops, F, post=list)
        rec.call("boundary_loops", {"F": raw(F)}, gpy.boundary_loops, F, allow_wrong_orientations=False, post=list)
        if not id.startswith("MC"):
            G = F.copy()
            fl = rng.random(len(G)) < rng.uniform(.1, .6)
            G[fl] = G[fl][:, ::-1]
            rec.call("boundary_loops", {"F": raw(G)}, gpy.boundary_loops, G, post=list)
            rec.call("boundary_loops", {"F": raw(G)}, gpy.boundary_loops, G, allow_wrong_orientations=True, post=list)
        rec.end()


def p05(rec, gen):
    rng = rec.rng("p05")

    def both(F):
        rec.call("connected_components", {"F": raw(F), "faces": False}, gpy.connected_components, F)
        rec.call("connected_components", {"F": raw(F), "faces": True}, gpy.connected_components, F, return_face_indices=True)
    for id, F in face_lists(rec, gen, "p05", 120, 30):
        if F.max() > 400:
            continue
        rec.begin(id)
        both(F)
        rec.end()
    for k in range(40 * (6 if rec.thorough else 1)):
        n, m = int(rng.integers(6, 60)), int(rng.integers(1, 14))
        F = np.array([rng.permutation(n)[:3] for _ in range(m)])
        rec.begin(f"sparse-{k}")
        both(F)
        rec.end()
    # long strips: reachability over many steps
    for L in (30, 90):
        F = np.array([[i, i + 1, i + 2] for i in range(L)])
        F = rng.permutation(L + 2)[F]
        cut = int(rng.integers(5, L - 5))
        rec.begin(f"strip-{L}")
        both(F)
        both(np.delete(F, [cut, cut + 1], axis=0))
        rec.end()
    rec.begin("empty")
    both(np.zeros((0, 3), dtype=int))
    rec.end()


def p06(rec, gen):
    rng = rec.rng("p06")
    for id, F in face_lists(rec, gen, "p06", 160, 60):
        if F.max() > 400 or len(F) > 160:
            continue
        ue = np.array(sorted(M.edge_counts(F)))
        rec.begin(id)
        # a path or cycle of edges, random sets, everything, nothing, foreign edges, repetition
        sets = [ue[rng.random(len(ue)) < rng.uniform(.1, .9)], ue[rng.random(len(ue)) < rng.uniform(.1, .9)], ue]
        if id.startswith("MC"):
            sets = sets[:2]
        else:
            walk, cur = [], int(F[0, 0])
            for _ in range(int(rng.integers(2, 12))):
                nb = [e for e in ue if cur in e]
                e = nb[rng.integers(len(nb))]
                walk.append(e)
                cur = int(e[0] + e[1] - cur)
            sets.append(np.array(walk))
        for E in sets:
            E = E.copy()
            if len(E):
                fl = rng.random(len(E)) < .5
                E[fl] = E[fl][:, ::-1]
                E = E[rng.permutation(len(E))]
                if rng.random() < .3:
                    E = np.vstack([E, E[:1], [[F.max() + 1, 0]]])
            rec.call("cut_edges", {"F": raw(F), "E": raw(E)}, gpy.cut_edges, F, E)
        rec.call("cut_edges", {"F": raw(F), "E": []}, gpy.cut_edges, F, np.zeros((0, 2), dtype=int))
        rec.end()
