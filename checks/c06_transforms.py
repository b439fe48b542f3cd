"""C06: histories of building, composing, inverting, indexing, stacking and cloning 3D transforms against 4x4 float64 matrices."""
import math

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.transforms import Rotate, RotateAxisAngle, Scale, Transform3d, Translate

PROPERTY = "C06"
ASSUMPTIONS = [
    "CPU; every part is invertible and no explored point falls on the plane at infinity (closer than 1e-2 to it: point skipped)",
    "batches of different length are only combined when one of them has length 1 (others are rejected, also checked)",
    "normals are checked for affine transforms",
]
BOUNDS = {
    "quick": "14 starting transforms x float32/float64, every history of 2 operations out of 33, every history of 3 out of 14 (compose with each kind of part, "
             "method forms, inverse both ways, 6 index forms, stack, clone, dtype change), every object checked after every operation",
    "thorough": "every history of 3 operations out of 33",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


def eye(n):
    return torch.eye(4, dtype=f64).repeat(n, 1, 1)


def mT(v):
    v = torch.tensor(v, dtype=f64).reshape(-1, 3)
    m = eye(len(v))
    m[:, 3, :3] = v
    return m


def mS(v):
    v = torch.tensor(v, dtype=f64).reshape(-1, 3)
    m = eye(len(v))
    for i in range(3):
        m[:, i, i] = v[:, i]
    return m


def mA(axis, angles):
    m = eye(len(angles))
    i, j = {"X": (1, 2), "Y": (2, 0), "Z": (0, 1)}[axis]
    for k, a in enumerate(angles):
        # row vectors: a quarter turn about Z takes +X to +Y
        m[k, i, i] = m[k, j, j] = math.cos(a)
        m[k, i, j], m[k, j, i] = math.sin(a), -math.sin(a)
    return m


R0 = (mA("X", [0.7]) @ mA("Z", [-1.1]))[:, :3, :3]
R3 = (mA("Y", [0.3, 2.0, -1.4]) @ mA("X", [1.0, -0.5, 0.2]))[:, :3, :3]
GEN = torch.tensor([[1.2, 0.3, -0.1, 0], [0.2, 0.8, 0.4, 0], [-0.3, 0.1, 1.1, 0], [0.5, -0.2, 0.3, 1]], dtype=f64)
PROJ = torch.tensor([[1.1, 0.1, 0, 0.1], [0, 0.9, 0.2, -0.05], [0.1, 0, 1, 0.2], [0.2, 0.1, 0.3, 3]], dtype=f64)
GEN3 = torch.stack([GEN, GEN.flip(0).flip(1).T.contiguous() + torch.eye(4, dtype=f64), PROJ])
GEN3[1, :, 3] = torch.tensor([0, 0, 0, 1.0], dtype=f64)


def m3(r):
    m = eye(len(r))
    m[:, :3, :3] = r
    return m


T3 = [[0.5, -1.0, 2.0], [0.1, 0.2, 0.3], [-0.7, 0.0, 0.4]]
t = torch.tensor
PARTS = {
    "T": (lambda d: Translate(0.5, -0.25, 1.5, dtype=d), mT([0.5, -0.25, 1.5])),
    "T3": (lambda d: Translate(t(T3, dtype=d), dtype=d), mT(T3)),
    "Tmix": (lambda d: Translate(t([0.1, 0.7, -0.3], dtype=d), 2, t(0.5, dtype=d), dtype=d), mT([[0.1, 2, 0.5], [0.7, 2, 0.5], [-0.3, 2, 0.5]])),
    "S": (lambda d: Scale(0.7, dtype=d), mS([0.7] * 3)),
    "Sxyz": (lambda d: Scale(0.5, -2.0, 1.3, dtype=d), mS([0.5, -2.0, 1.3])),
    "S3": (lambda d: Scale(t([[0.5, 1.1, -0.8], [2.0, 0.9, 1.0], [1.0, -1.0, 0.6]], dtype=d), dtype=d),
           mS([[0.5, 1.1, -0.8], [2.0, 0.9, 1.0], [1.0, -1.0, 0.6]])),
    "R": (lambda d: Rotate(R0[0].to(d), dtype=d), m3(R0)),
    "R3": (lambda d: Rotate(R3.to(d), dtype=d), m3(R3)),
    "AX": (lambda d: RotateAxisAngle(40.0, axis="X", dtype=d), mA("X", [math.radians(40)])),
    "AY": (lambda d: RotateAxisAngle(t([0.3, -1.0, 2.5], dtype=d), axis="y", degrees=False, dtype=d), mA("Y", [0.3, -1.0, 2.5])),
    "AZ": (lambda d: RotateAxisAngle(t(90.0, dtype=d), axis="Z", dtype=d), mA("Z", [math.pi / 2])),
    "M": (lambda d: Transform3d(matrix=GEN.to(d)), GEN[None]),
    "P": (lambda d: Transform3d(matrix=PROJ.to(d)), PROJ[None]),
    "M3": (lambda d: Transform3d(matrix=GEN3.to(d)), GEN3),
}
START = list(PARTS)


def bb(a, b):
    return a @ b


def comp(name):
    f, m = PARTS[name]
    return (lambda o: o.compose(f(o.dtype)), lambda r: None if len(r) != len(m) and 1 not in (len(r), len(m)) else bb(r, m))


def idx(i):
    ii = [i] if isinstance(i, int) else i
    return (lambda o: o[i(len(o)) if callable(i) else i], lambda r: r[ii(len(r)) if callable(ii) else ii])


OPS = {"c" + k: comp(k) for k in PARTS}
OPS.update({
    "c2": (lambda o: o.compose(PARTS["S"][0](o.dtype), PARTS["AX"][0](o.dtype)), lambda r: r @ PARTS["S"][1] @ PARTS["AX"][1]),
    "cself": (lambda o: o.compose(o), lambda r: r @ r),
    "translate": (lambda o: o.translate(1, 2, -3), lambda r: r @ mT([1, 2, -3])),
    "scale": (lambda o: o.scale(t([0.5]), t([2.0]), t([1.5])), lambda r: r @ mS([0.5, 2.0, 1.5])),
    "rotate": (lambda o: o.rotate(R0.to(o.dtype)), lambda r: r @ m3(R0)),
    "raa": (lambda o: o.rotate_axis_angle(-30, axis="Y"), lambda r: r @ mA("Y", [-math.pi / 6])),
    "inv": (lambda o: o.inverse(), lambda r: torch.inverse(r)),
    "invc": (lambda o: o.inverse(invert_composed=True), lambda r: torch.inverse(r)),
    "i0": idx(0), "ilast": (lambda o: o[-1], lambda r: r[-1:]),
    "ilist": idx(lambda n: [n - 1, 0]), "islice": idx(lambda n: slice(0, max(1, n - 1))),
    "ibool": idx(lambda n: torch.tensor([k != 1 for k in range(n)])), "ilong": idx(lambda n: torch.tensor([n - 1, 0, 0])),
    "stack": (lambda o: o.stack(o), lambda r: torch.cat([r, r])),
    "stackp": (lambda o: o.stack(PARTS["AX"][0](o.dtype), PARTS["T3"][0](o.dtype)), lambda r: torch.cat([r, PARTS["AX"][1], PARTS["T3"][1]])),
    "clone": (lambda o: o.clone(), lambda r: r),
    "to64": (lambda o: o.to("cpu", dtype=f64), lambda r: r),
    "tocopy": (lambda o: o.to("cpu", copy=True), lambda r: r),
})
SMALL = ["cT3", "cR", "cAY", "cP", "cSxyz", "inv", "invc", "i0", "ilist", "islice", "stack", "clone", "to64", "translate"]
PTS = t([[0.3, -0.2, 0.5], [1.0, 2.0, -1.0], [0.0, 0.0, 0.0], [-0.6, 0.4, 1.7]], dtype=f64)


LOW = [False]  # whether the values went through float32 (then only float32 accuracy is asked for, in the current dtype)


def near(name, got, want, prec, scale=1.0):
    tol = (2e-3 if prec == torch.float32 or LOW[0] else 1e-7) * scale
    expect(got.dtype == prec, "%s has dtype %s, want %s" % (name, got.dtype, prec))
    expect_close(name, got.double(), want, atol=tol, rtol=tol)


def observe(o, r, prec, where, full=True):
    B = len(r)
    cond = float(torch.linalg.cond(r).max())
    expect(o.dtype == prec, where + ": dtype %s want %s" % (o.dtype, prec))
    m = o.get_matrix()
    near(where + ": matrix", m, r, prec, max(1.0, float(r.abs().max())))
    expect(len(o) == B, where + ": length")
    if not full:
        return
    inv = o.inverse()
    affine = bool((r[:, :3, 3].abs().max() < 1e-9)) and bool(((r[:, 3, 3] - 1).abs() < 1e-9).all())
    for shape in ("2d", "one", "batch"):
        p = PTS if shape == "2d" else PTS[None] if shape == "one" else PTS[None] * torch.arange(1, B + 1, dtype=f64)[:, None, None] * 0.5
        ph = torch.cat([p, torch.ones_like(p[..., :1])], -1)
        w = (ph if p.ndim == 3 else ph[None]) @ r
        ok = (w[..., 3:].abs() > 0.05 * w.abs().amax(-1, keepdim=True).clamp(min=0.2)).expand(-1, -1, 3)
        want = w[..., :3] / torch.where(ok[..., :1], w[..., 3:], torch.ones_like(w[..., 3:]))
        got = o.transform_points(p.to(prec))
        if shape == "2d" and B == 1:
            expect(got.ndim == 2, where + ": points of shape (P, 3) give shape %s" % (tuple(got.shape),))
            got = got[None]
        z = torch.zeros_like(want)
        sc = max(1.0, float(torch.where(ok, want, z).abs().max()))
        near(where + ": points (%s)" % shape, torch.where(ok, got.double(), z).to(prec), torch.where(ok, want, z), prec, 10 * sc)
        if cond < 200:
            back = inv.transform_points(torch.where(ok, got, torch.zeros_like(got)))
            src = (p if p.ndim == 3 else p[None]).expand_as(want)
            near(where + ": inverse of points (%s)" % shape, torch.where(ok, back.double(), z).to(prec), torch.where(ok, src, z), prec, 10 * sc * cond)
        if affine:
            n = o.transform_normals(p.to(prec))
            wn = (p if p.ndim == 3 else p[None]) @ torch.inverse(r[:, :3, :3]).transpose(1, 2)
            near(where + ": normals (%s)" % shape, n.reshape(wn.shape), wn, prec, 10 * cond)
    for eps in (1e-2,):
        got = o.transform_points(PTS.to(prec), eps=eps)
        w = torch.cat([PTS, torch.ones(4, 1, dtype=f64)], -1)[None] @ r
        d = w[..., 3:]
        safe = (d.abs() - eps).abs() > 1e-3
        d = torch.where(d < 0, -1.0, 1.0).to(f64) * d.abs().clamp(min=eps)
        ok = safe & (d.abs() > 0.05)
        z = torch.zeros_like(w[..., :3])
        near(where + ": points with eps", torch.where(ok, got.reshape(w.shape[0], 4, 3).double(), z).to(prec), torch.where(ok, w[..., :3] / d, z), prec,
             10 * max(1.0, float(torch.where(ok, w[..., :3] / d, z).abs().max())))


def cases(tier):
    out = []
    for s in START:
        for d in ("float32", "float64"):
            for a in OPS:
                out.append([s, d, a, tier])
    return out


def apply(objs, op, prec, hist, rec):
    o, r, p = objs[-1]
    real, ref = OPS[op]
    want = ref(r)
    where = "history %s" % (hist,)
    if want is not None and float(torch.linalg.cond(want).max()) > 1e4:
        return None
    if want is None:
        x = real(o)
        try:
            x.get_matrix()
        except ValueError:
            return None
        raise Violation(where + ": transforms of different batch lengths were combined")
    n = real(o)
    rec.step()
    p2 = f64 if op == "to64" else p
    observe(n, want, p2, where)
    for k, (oo, rr, pp) in enumerate(objs):
        observe(oo, rr, pp, where + ": object %d" % k, full=False)
    rec.state([op, want, str(p2)])
    return n, want, p2


def run(case, rec):
    s, d, a, tier = case[:4]
    prec = getattr(torch, d)
    LOW[0] = d == "float32"

    def walk(objs, hist, ops_left):
        rec.trace()
        for op in ops_left[0]:
            h = hist + [op]
            try:
                res = apply(objs, op, prec, h, rec)
            except Exception as e:
                e.case = [s, d, a, tier, h[2:]]
                raise
            if res is not None and len(ops_left) > 1:
                walk(objs + [res], h, ops_left[1:])
    o = PARTS[s][0](prec)
    r = PARTS[s][1]
    observe(o, r, prec, "start %s %s" % (s, d))
    if len(case) > 4:  # replay of one history
        walk([(o, r, prec)], [s, d], [[x] for x in case[4]])
        return
    if tier == "thorough":
        walk([(o, r, prec)], [s, d], [[a], list(OPS), list(OPS)])
    else:
        walk([(o, r, prec)], [s, d], [[a], list(OPS)])
        if a in SMALL:
            walk([(o, r, prec)], [s, d], [[a], SMALL, SMALL])
    rec.sample({"start": s, "dtype": d, "first": a})
