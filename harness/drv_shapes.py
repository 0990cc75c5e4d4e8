import gpytoolbox as gpy
from vlib import nums


def p09(rec, gen):
    big = rec.thorough
    rng = rec.rng("p09")
    S = range(2, 8 if big else 6)
    for a in S:
        for b in S:
            rec.begin(f"square-{a}-{b}")
            i = lambda **k: k
            rec.call("regular_square_mesh", {"nx": a, "ny": b}, gpy.regular_square_mesh, a, b)
            if a == b:
                rec.call("regular_square_mesh", {"nx": a, "ny": a}, gpy.regular_square_mesh, a)
            rec.end()
            if a >= 3:
                rec.one(f"cone-{a}-{b}", "cone", {"nx": a, "nz": b}, gpy.cone, a, b)
                rec.one(f"cylinder-{a}-{b}", "cylinder", {"nx": a, "nz": b}, gpy.cylinder, a, b)
            if a >= 3 and b >= 3:
                for R, r in ((1.0, 0.5), (3.0, 0.25), (0.75, 0.625)):
                    rec.begin(f"torus-{a}-{b}-{R}")
                    kw = {} if R == 1.0 else {"R": R, "r": r}
                    rec.call("torus", {"nR": a, "nr": b, "R": nums(R), "r": nums(r)}, gpy.torus, a, b, **kw)
                    rec.end()
    for a, b in ((11, 2), (2, 11), (9, 13), (16, 3)):
        rec.one(f"square-{a}-{b}", "regular_square_mesh", {"nx": a, "ny": b}, gpy.regular_square_mesh, a, b)
        if a > 2:
            rec.one(f"cone-{a}-{b}", "cone", {"nx": a, "nz": b}, gpy.cone, a, b)
            rec.one(f"cylinder-{a}-{b}", "cylinder", {"nx": a, "nz": b}, gpy.cylinder, a, b)
            rec.one(f"torus-{a}-{b + 1}", "torus", {"nR": a, "nr": b + 1, "R": "1", "r": "1/2"}, gpy.torus, a, b + 1)
    C = (2, 3, 4, 5) if big else (2, 3, 4)
    for t in (None, "five", "reflectionally-symmetric", "rotationally-symmetric", "hex"):
        kw = {} if t is None else {"type": t}
        ty = t or "rotationally-symmetric"
        for a in C:
            for b in C:
                for c in C:
                    if not big and t is None and (a + 2 * b + 3 * c) % 3:
                        continue
                    rec.begin(f"cube-{ty}-{a}-{b}-{c}" + ("d" if t is None else ""))
                    rec.call("regular_cube_mesh", {"nx": a, "ny": b, "nz": c, "type": ty}, gpy.regular_cube_mesh, a, b, c, **kw)
                    if b == c:
                        rec.call("regular_cube_mesh", {"nx": a, "ny": b, "nz": b, "type": ty}, gpy.regular_cube_mesh, a, b, **kw)
                    if a == b == c:
                        rec.call("regular_cube_mesh", {"nx": a, "ny": a, "nz": a, "type": ty}, gpy.regular_cube_mesh, a, **kw)
                    rec.end()
    rec.begin("icosphere")
    for n in range(4 if big else 3):
        rec.call("icosphere", {"n": n}, gpy.icosphere, *([] if n == 0 else [n]))
    rec.end()
    for n in list(range(3, 20)) + [31, 64, 100]:
        rec.one(f"circle-{n}", "regular_circle_polyline", {"n": n}, gpy.regular_circle_polyline, n)
