"""C24: box3d_overlap against the exact intersection volume, for every pair of a lattice of boxes, corner orderings and batch layouts."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close, expect_raises

from pytorch3d.ops import box3d_overlap

PROPERTY = "C24"
ASSUMPTIONS = [
    "boxes are convex hexahedra with planar faces, sides of 0.05 to a few units, in the corner order of the documentation up to the 48 symmetries of the cube",
    "volumes are compared to 0.1% of the smaller box, 0.5% for nearly coincident faces (float32)",
]
BOUNDS = {
    "quick": "axis-aligned: all 13^3 relations of intervals per axis x 3 common orientations x both argument orders; the 48 x 48 corner orderings of 6 "
             "pairs; rotated: 11 rotations x 8 offsets x 3 sizes against 44 boxes; sheared and tapered hexahedra: all pairs of 24; batches: every N x M with "
             "N, M in 0..3 of 4 boxes; nearly coincident faces: 2 orientations x 6 tilts and 6 gaps of 1e-4..0.06 x 2 x 80 boxes; invalid boxes: every single corner moved in 63 directions, every axis flattened",
    "thorough": "as quick with 7 common orientations, 12 pairs for the corner orderings, 17 rotations x 27 offsets x 4 sizes against 170 boxes, all N x M with N, M in 0..4, 5 orientations x 15 tilts and gaps",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64

CORN = [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]
QUADS = [[0, 1, 2, 3], [3, 2, 6, 7], [0, 1, 5, 4], [0, 3, 7, 4], [1, 5, 6, 2], [4, 5, 6, 7]]


def orderings():
    """The 48 orders of the corners that keep the diagram's adjacency."""
    out = []
    for perm in itertools.permutations(range(3)):
        for flip in itertools.product((0, 1), repeat=3):
            out.append([CORN.index(tuple(c[perm[k]] ^ flip[k] for k in range(3))) for c in CORN])
    return out


ORDERS = orderings()


def rot(axis, ang):
    a = torch.tensor(axis, dtype=f64)
    a = a / a.norm()
    K = torch.tensor([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]], dtype=f64)
    return torch.eye(3, dtype=f64) + math.sin(ang) * K + (1 - math.cos(ang)) * K @ K


def box(lo, sz, R=None):
    """Box of corners lo..lo+sz, turned about its centre."""
    P = torch.tensor(CORN, dtype=f64) * torch.tensor(sz, dtype=f64) + torch.tensor(lo, dtype=f64)
    if R is not None:
        c = P.mean(0)
        P = (P - c) @ R.T + c
    return P


# ---------------------------------------------------------------- reference: plain floats, divergence theorem over clipped polygons
def faces_of(B):
    c = B.mean(0)
    out = []
    for q in QUADS:
        p = B[q]
        n = torch.linalg.cross(p[1] - p[0], p[3] - p[0])
        n = n / n.norm()
        if (p[0] - c) @ n < 0:
            n = -n
        out.append((p.tolist(), n.tolist(), float(n @ p.mean(0))))
    return out


def clip(poly, n, d):
    """The part of the polygon with <n, x> <= d."""
    out = []
    L = len(poly)
    ds = [p[0] * n[0] + p[1] * n[1] + p[2] * n[2] - d for p in poly]
    for i in range(L):
        p, q, a, b = poly[i], poly[(i + 1) % L], ds[i], ds[(i + 1) % L]
        if a <= 0:
            out.append(p)
        if (a > 0) != (b > 0):
            t = a / (a - b)
            out.append([x + t * (y - x) for x, y in zip(p, q)])
    return out


def area(poly):
    s = [0.0, 0.0, 0.0]
    o = poly[0]
    for i in range(1, len(poly) - 1):
        u = [a - b for a, b in zip(poly[i], o)]
        v = [a - b for a, b in zip(poly[i + 1], o)]
        s[0] += u[1] * v[2] - u[2] * v[1]
        s[1] += u[2] * v[0] - u[0] * v[2]
        s[2] += u[0] * v[1] - u[1] * v[0]
    return math.sqrt(s[0] ** 2 + s[1] ** 2 + s[2] ** 2) / 2


def volume(A):
    return sum(d * area(p) for p, _, d in A) / 3


def inter(A, B):
    """Volume of A with B grown by a hair: a face shared by both counts once, as A's."""
    kept = []
    for X, Y, hair in ((A, B, 1e-10), (B, A, -1e-10)):
        for poly, n, d in X:
            for _, m, e in Y:
                poly = clip(poly, m, e + hair)
                if len(poly) < 3:
                    break
            if len(poly) >= 3:
                kept.append((poly, n, d))
    pts = [p for poly, _, _ in kept for p in poly]
    if not pts:
        return 0.0
    c = [sum(x) / len(pts) for x in zip(*pts)]
    v = sum((d - sum(x * y for x, y in zip(n, c))) * area(poly) / 3 for poly, n, d in kept)
    return max(v, 0.0)


def judge(rec, name, A, B, vol, iou, want, va, vb, key=None, rel=1e-3):
    """A, B: boxes for the message; vol/iou: reported floats; want: exact intersection."""
    tol = rel * min(va, vb)
    rec.trace()
    if not abs(vol - want) <= tol:
        raise Violation(f"{name}: intersection volume {vol} instead of {want} for\n{A.tolist()}\n{B.tolist()}", key=key or name)
    u = want / (va + vb - want)
    if not abs(iou - u) <= 2 * rel * min(va, vb) / max(va, vb) + 1e-6:
        raise Violation(f"{name}: IoU {iou} instead of {u} for\n{A.tolist()}\n{B.tolist()}", key=key or name)
    if not -1e-6 <= iou <= 1 + rel:
        raise Violation(f"{name}: IoU {iou} outside of [0, 1]", key=key or name)


def table(rec, name, As, Bs, want=None, swap=True, rel=1e-3):
    """All pairs in one call, plus the call with the arguments exchanged."""
    a, b = torch.stack(As).float(), torch.stack(Bs).float()
    vol, iou = box3d_overlap(a, b)
    expect(tuple(vol.shape) == (len(As), len(Bs)) == tuple(iou.shape), f"{name}: result shape {tuple(vol.shape)}")
    if swap:
        vol2, iou2 = box3d_overlap(b, a)
    FA, FB = [faces_of(x) for x in As], [faces_of(x) for x in Bs]
    VA, VB = [volume(x) for x in FA], [volume(x) for x in FB]
    vl, il = vol.tolist(), iou.tolist()
    if swap:
        vl2, il2 = vol2.t().tolist(), iou2.t().tolist()
    for i in range(len(As)):
        for j in range(len(Bs)):
            w = inter(FA[i], FB[j]) if want is None else want[i][j]
            judge(rec, name, As[i], Bs[j], vl[i][j], il[i][j], w, VA[i], VB[j], rel=rel)
            if swap:
                judge(rec, name + " exchanged", Bs[j], As[i], vl2[i][j], il2[i][j], w, VB[j], VA[i], rel=rel)
    for x in As:
        for y in Bs:
            rec.state((x, y))
    rec.step(len(As) * len(Bs))


# every relation of two intervals; the first is [0, 1]
ALLEN = [(-1.0, -0.25), (-1.0, 0.0), (-0.5, 0.5), (-0.5, 1.0), (-0.5, 1.5), (0.0, 0.5), (0.0, 1.0), (0.0, 1.5), (0.25, 0.5), (0.25, 1.0), (0.5, 1.5), (1.0, 1.5), (1.25, 2.0)]
COMMON = [((0, 0, 1), 0.0), ((1, 2, 3), 0.7), ((0, 1, 0), math.pi / 4), ((1, 0, 0), 0.3), ((1, 1, 1), 2 * math.pi / 3), ((0, 0, 1), math.pi), ((2, -1, 1), 2.5)]
ROTS = [((0, 0, 1), 0.0), ((0, 0, 1), math.pi / 4), ((0, 0, 1), math.atan2(3, 4)), ((1, 0, 0), math.pi / 4), ((0, 1, 0), math.pi / 2), ((1, 1, 0), 0.7),
        ((1, 2, 3), 1.1), ((1, 1, 1), 2 * math.pi / 3), ((1, 1, 1), math.pi / 3), ((0, 1, 0), 0.2), ((-1, 2, 0.5), 2.0),
        ((0, 1, 1), 0.15), ((1, 0, 1), 3.0), ((3, 1, 2), 0.5), ((1, -1, 0), math.pi / 2), ((0, 0, 1), 2.9), ((1, 3, -2), 1.7)]
SIZES = [(1, 1, 1), (0.5, 1, 2), (2, 2, 0.25), (0.3, 0.3, 0.3)]


def rotated(tier, second):
    rots = ROTS[:11] if tier == "quick" else ROTS
    if second:
        offs = [(0, 0, 0), (0.25, 0.5, 0.0)] if tier == "quick" else [(0, 0, 0), (0.25, 0.5, 0), (1, 0, 0), (-0.5, 0, 0.25), (0.125, 0.125, 0.125)]
        sizes = SIZES[:2]
    else:
        offs = list(itertools.product((0, 0.5), repeat=3)) if tier == "quick" else list(itertools.product((0, 0.5, 1), repeat=3))
        sizes = SIZES[:3] if tier == "quick" else SIZES
    return [(o, s, r) for o in offs for s in sizes for r in rots]


def hexahedra():
    """Sheared and tapered boxes (planar faces)."""
    out = []
    base = torch.tensor(CORN, dtype=f64)
    for sx, sy in ((0.3, 0.0), (0.0, -0.4), (0.25, 0.5)):
        P = base.clone()
        P[:, 0] += sx * base[:, 2]
        P[:, 1] += sy * base[:, 2] + 0.2 * base[:, 0]
        out.append(P)
    for k in (0.5, 0.75, 1.5):  # frusta: the top face scaled about its centre
        P = base.clone()
        top = base[:, 2:] * (k - 1) + 1
        P[:, :2] = (base[:, :2] - 0.5) * top + 0.5
        out.append(P)
    moved = []
    for i, P in enumerate(out):
        for off, r in (((0, 0, 0), 0), ((0.5, 0.25, 0.25), 6), ((-0.25, 0.5, 0.5), 8), ((0.1, 0, 0.9), 5)):
            moved.append(P @ rot(*ROTS[r]).T + torch.tensor(off, dtype=f64))
    return moved


PAIRS = [(box((0, 0, 0), (1, 1, 1)), box((0.5, 0.25, 0), (1, 1, 1))), (box((0, 0, 0), (1, 1, 1)), box((0, 0, 0), (1, 1, 1))),
         (box((0, 0, 0), (1, 2, 0.5)), box((0.25, 0.5, 0.125), (1, 0.5, 1), rot((1, 2, 3), 1.1))), (box((0, 0, 0), (1, 1, 1)), box((0.25, 0.25, 0.25), (0.5, 0.5, 0.25))),
         (box((0, 0, 0), (1, 1, 1), rot((0, 0, 1), math.pi / 4)), box((0, 0, 0.5), (1, 1, 1))), (box((0, 0, 0), (2, 0.2, 1)), box((0.5, -0.5, 0.25), (0.5, 2, 0.5), rot((1, 0, 0), 0.3))),
         (box((0, 0, 0), (1, 1, 1)), box((1, 0, 0), (1, 1, 1))), (box((0, 0, 0), (1, 1, 1)), box((0, 0, 0), (0.5, 1, 1))),
         (box((5, 5, 5), (1, 1, 1)), box((5.25, 5.5, 5), (1, 1, 1), rot((1, 1, 1), math.pi / 3))), (box((0, 0, 0), (1, 1, 1)), box((0, 0, 0), (1, 1, 1), rot((0, 1, 0), math.pi / 2))),
         (box((0, 0, 0), (4, 3, 2)), box((1, 1, -1), (1, 1, 4), rot((0, 0, 1), math.atan2(3, 4)))), (box((0, 0, 0), (1, 1, 1)), box((0.9, 0.9, 0.9), (1, 1, 1), rot((1, 1, 0), 0.7)))]


def cases(tier):
    q = tier == "quick"
    for r in range(3 if q else 7):
        for x in range(13):
            yield {"kind": "aligned", "r": r, "x": x}
    for p in range(6 if q else 12):
        yield {"kind": "order", "p": p}
    n = len(rotated(tier, True))
    for i in range(0, n, 4):
        yield {"kind": "rotated", "i": i, "tier": tier}
    for i in range(24):
        yield {"kind": "hexa", "i": i}
    for n in range(0, 4 if q else 5):
        for m in range(0, 4 if q else 5):
            yield {"kind": "batch", "n": n, "m": m}
    for s in (0.125, 1.0, 8.0):
        for o in ((0, 0, 0), (10, -20, 5)):
            yield {"kind": "scale", "s": s, "o": o}
    yield {"kind": "invalid"}
    for r in (0, 6) if q else (0, 3, 6, 8, 10):
        for a in (1e-4, 1e-3, 3e-3, 1e-2, 0.03, 0.06) if q else (1e-4, 2e-4, 5e-4, 1e-3, 1.5e-3, 2e-3, 3e-3, 5e-3, 1e-2, 0.015, 0.02, 0.03, 0.045, 0.06, 0.08):
            for what in ("tilt", "gap"):
                yield {"kind": "near", "r": r, "a": a, "what": what}


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def run_aligned(case, rec):
    R = rot(*COMMON[case["r"]])
    A = box((0, 0, 0), (1, 1, 1))
    Bs, want = [], []
    x = ALLEN[case["x"]]
    for y, z in itertools.product(ALLEN, repeat=2):
        Bs.append(box((x[0], y[0], z[0]), (x[1] - x[0], y[1] - y[0], z[1] - z[0])) @ R.T)
        v = 1.0
        for lo, hi in (x, y, z):
            v *= max(0.0, min(hi, 1.0) - max(lo, 0.0))
        want.append(v)
    table(rec, "parallel boxes", [A @ R.T], Bs, [want])


def run_order(case, rec):
    A, B = PAIRS[case["p"]]
    w = inter(faces_of(A), faces_of(B))
    table(rec, "corner orderings", [A[o] for o in ORDERS], [B[o] for o in ORDERS], [[w] * 48] * 48, swap=False)


def run_rotated(case, rec):
    tier = case["tier"]
    for (lo, sz, r) in rotated(tier, True)[case["i"]:case["i"] + 4]:
        Ra = rot(*ROTS[ROTS.index(r)])
        A = box(lo, sz, Ra)
        Bs = [box(o, s, rot(*q)) for o, s, q in rotated(tier, False)]
        table(rec, "rotated boxes", [A], Bs)


def run_hexa(case, rec):
    H = hexahedra()

    A = H[case["i"]]
    table(rec, "hexahedra", [A], H)


def run_batch(case, rec):
    boxes = [PAIRS[0][0], PAIRS[2][1], PAIRS[3][1], box((3, 3, 3), (1, 1, 1))]
    F = [faces_of(b) for b in boxes]
    V = [volume(f) for f in F]
    W = [[inter(f, g) for g in F] for f in F]
    n, m = case["n"], case["m"]
    for ia in itertools.product(range(4), repeat=n):
        if n == 4 and ia[0] > ia[3]:
            continue
        for ib in itertools.product(range(4), repeat=m):
            if m == 4 and ib[0] > ib[3]:
                continue
            a = torch.stack([boxes[i] for i in ia]).float() if n else torch.zeros(0, 8, 3)
            b = torch.stack([boxes[i] for i in ib]).float() if m else torch.zeros(0, 8, 3)
            a0, b0 = a.clone(), b.clone()
            vol, iou = box3d_overlap(a, b)
            rec.state((ia, ib))
            expect(tuple(vol.shape) == (n, m) == tuple(iou.shape), f"batch {n}x{m}: shapes {tuple(vol.shape)}, {tuple(iou.shape)}")
            expect(torch.equal(a, a0) and torch.equal(b, b0), "inputs changed")
            rec.step()
            vl, il = vol.tolist(), iou.tolist()
            for i, x in enumerate(ia):
                for j, y in enumerate(ib):
                    judge(rec, "batch", boxes[x], boxes[y], vl[i][j], il[i][j], W[x][y], V[x], V[y])


def run_scale(case, rec):
    """Uniform scaling and a common displacement of both boxes."""
    s, o = case["s"], torch.tensor(case["o"], dtype=f64)
    for A, B in PAIRS:
        table(rec, f"scaled by {s}", [A * s + o], [B * s + o])


def run_invalid(case, rec):
    good = box((0, 0, 0), (1, 1, 1))
    bad = []
    for c in range(8):
        for d in itertools.product((0, 0.1, -0.1, 0.4), repeat=3):
            if d == (0, 0, 0):
                continue
            P = good.clone()
            P[c] += torch.tensor(d, dtype=f64)
            bad.append(("a corner out of its planes", P))
    for k in range(3):
        P = good.clone()
        P[:, k] = 0.5
        bad.append(("flat box", P))
    bad.append(("box without corners apart", torch.zeros(8, 3, dtype=f64)))
    for what, P in bad:
        for pos in range(3):
            L = [good, box((0, 0, 0), (1, 2, 1))]
            L.insert(pos, P)
            x = torch.stack(L).float()
            g = good.float()[None]
            expect_raises(lambda: box3d_overlap(x, g), f"{what} at position {pos} of boxes1", (ValueError,))
            expect_raises(lambda: box3d_overlap(g, x), f"{what} at position {pos} of boxes2", (ValueError,))
            rec.state((what, P, pos))
            rec.step(2)
    g = good.float()[None]
    for shape in ((1, 4, 3), (1, 8, 2), (8, 3)):
        expect_raises(lambda: box3d_overlap(torch.rand(shape), g), f"shape {shape}")
        rec.state(shape)
        rec.step()


def run_near(case, rec):
    """Faces which nearly coincide: a small gap, overlap or tilt."""
    a, R = case["a"], rot(*ROTS[case["r"]])
    As = [box((0, 0, 0), (1, 1, 1)) @ R.T, box((0, 0, 0), (1, 0.5, 2)) @ R.T]
    Bs = []
    for lo in ((0, 0, 0), (0.5, 0, 0), (0.25, 0.25, 0), (0, -0.25, 0.25), (-1, 0, 0)):
        for sz in SIZES:
            if case["what"] == "tilt":
                for ax in ((0, 0, 1), (1, 0, 0), (1, 2, 3), (0, 1, 1)):
                    Bs.append(box(lo, sz, rot(ax, a)) @ R.T)
            else:
                for d in ((a, 0, 0), (0, 0, -a), (a, -a, a)):
                    Bs.append(box([x + y for x, y in zip(lo, d)], sz) @ R.T)
    table(rec, f"nearly coplanar faces ({case['what']})", As, Bs, rel=5e-3)
