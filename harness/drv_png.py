"""P40: contours of PNG files, written by an encoder of our own."""
import os, shutil, struct, tempfile, zlib
import numpy as np
import gpytoolbox as gpy
from vlib import snapshot

LUMA = np.array([.2125, .7154, .0721])


def chunk(t, d):
    return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))


def encode(A, depth, kind, filters=None, palette=None):
    """A: rows x columns x channels; kind: 0 gray, 2 colors, 3 palette, 4 gray and alpha, 6 colors and alpha"""
    H, W = A.shape[:2]
    raw, prev, step = b"", None, max(1, A.shape[2] * depth // 8)
    for k, r in enumerate(A):
        v = r.ravel()
        if depth == 16:
            b = v.astype(">u2").tobytes()
        elif depth == 8:
            b = v.astype("u1").tobytes()
        else:
            s = "".join(format(int(x), f"0{depth}b") for x in v)
            s += "0" * (-len(s) % 8)
            b = bytes(int(s[i:i + 8], 2) for i in range(0, len(s), 8))
        f = 0 if filters is None else int(filters[k % len(filters)])
        left = bytes(step) + b[:-step]
        up = prev or bytes(len(b))
        c = b if f == 0 else bytes((x - y) & 255 for x, y in zip(b, left if f == 1 else up if f == 2 else [(p + q) // 2 for p, q in zip(left, up)]))
        raw += bytes([f]) + c
        prev = b
    return (b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(">IIBBBBB", W, H, depth, kind, 0, 0, 0)) + (chunk(b"PLTE", bytes(palette)) if palette is not None else b"")
            + chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))


def bright(P, top):
    P = P / top
    g = P[..., 0] if P.shape[2] <= 2 else P[..., :3] @ LUMA
    return g * P[..., -1] + 1 - P[..., -1] if P.shape[2] in (2, 4) else g


def clear(P, top):
    """no brightness is about half of the maximum (rounding decides there)"""
    g = bright(P.astype(float), top)
    return g.max() > 0 and np.abs(g - g.max() / 2).min() > 2e-3 * g.max()


def picture(rng, kind, depth):
    top = 2 ** depth - 1
    ch = {0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[kind]
    H, W = int(rng.integers(5 if kind == 4 else 2, 9)), int(rng.integers(2, 9))
    while True:
        style = rng.integers(4)
        if style == 0:
            A = rng.integers(0, top + 1, (H, W, ch))
        elif style == 1:                                  # two colors
            A = np.where(rng.random((H, W, 1)) < .5, *rng.integers(0, top + 1, (2, ch)))
        elif style == 2:                                  # dim
            A = rng.integers(0, max(2, top // 3), (H, W, ch))
        else:                                             # smooth
            x, y = np.meshgrid(np.linspace(-1, 1, W), np.linspace(-1, 1, H))
            A = np.stack([np.round(top * (.5 + .5 * np.sin(rng.normal() * 3 * x + rng.normal() * 3 * y + rng.normal() * 3))) for _ in range(ch)], -1).astype(int)
        pal = rng.integers(0, 256, (2 ** min(depth, 4), 3)) if kind == 3 else None
        if kind == 3:
            A = A % len(pal)
        P, t = (pal[A[..., 0]], 255) if kind == 3 else (A, top)
        if clear(P, t):
            return A, P, t, pal


def p40(rec, gen):
    T = 4 if rec.thorough else 1
    rng = rec.rng("png")
    d = tempfile.mkdtemp(prefix="png", dir=os.environ.get("VERIF_WORK"))
    try:
        def show(id, A, depth, kind, P, top, pal=None, filters=None):
            path = os.path.join(d, id + (".png" if len(id) % 2 else ".PNG"))
            b = encode(A, depth, kind, filters, None if pal is None else pal.ravel().astype("u1").tobytes())
            open(path, "wb").write(b)
            rec.begin(id)
            rec.call("png2poly", dict(px=P.tolist(), top=int(top), kind=kind, depth=depth), gpy.png2poly, path)
            x, e1 = rec.run(gpy.png2poly, path)
            y, e2 = rec.run(gpy.png2poly, path)
            rec.event("again", {}, dict(same=e1 == e2 and snapshot(x) == snapshot(y), kept=open(path, "rb").read() == b), e1)
            rec.end()
        for t, g in enumerate(gen.get("MC_Png", [])[:: 1 if rec.thorough else 4]):
            A = np.array(g["px"])
            show(f"model{t}", A, 8, 0, A, 255)
        KINDS = [(0, 8), (0, 1), (0, 2), (0, 4), (0, 16), (2, 8), (6, 8), (4, 8), (3, 8), (3, 4), (6, 8), (2, 8)]
        for t in range(72 * T):
            kind, depth = KINDS[t % len(KINDS)]
            A, P, top, pal = picture(rng, kind, depth)
            show(f"pic{t}", A, depth, kind, P, top, pal, rng.integers(0, 4, 5) if t % 2 else None)
        rec.begin("missing")
        _, exc = rec.run(gpy.png2poly, os.path.join(d, "none.png"))
        rec.event("missing", {}, dict(raised=exc != ""))
        rec.end()
    finally:
        shutil.rmtree(d, ignore_errors=True)
