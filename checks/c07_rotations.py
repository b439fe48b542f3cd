"""C07: every path of rotation conversions over a complete set of axes and angles, against float64 rotation matrices."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close

import pytorch3d.transforms as tr

PROPERTY = "C07"
ASSUMPTIONS = [
    "Euler conventions: rotations closer than 0.02 rad to the convention's gimbal lock are left out of that conversion",
    "the fast axis-angle conversion is asked for its documented accuracy only: looser tolerance within 0.02 rad of a half turn",
    "gradients: finiteness everywhere; exact value for axis-angle, quaternion, 6D, Euler and rigid-motion to matrix",
]
BOUNDS = {
    "quick": "32 axes (all sign/zero patterns and 6 generic) x 24 angles from 0 over 1e-8, near and at the half turn to a full turn; every "
             "conversion path of <= 4 steps through 18 representations; float32 and float64; every rotation alone, in a batch and in 2D batches; all "
             "pairs of 60 rotations for products; 40 x 12 rigid motions",
    "thorough": "as quick with paths of <= 6 steps",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64
CONV = ["".join(c) for c in itertools.product("XYZ", repeat=3) if c[1] != c[0] and c[1] != c[2]]
ANG = [0.0, 1e-8, 1e-6, 1e-5, 1e-4, 3e-3, 0.02, 0.3, 1.0, math.pi / 2, 2.0, 2.7, 3.1, math.pi - 3e-3, math.pi - 1e-4, math.pi - 1e-5,
       math.pi - 1e-6, math.pi - 1e-8, math.pi]
ANG_A = ANG + [3.5, 4.5, 2 * math.pi - 0.01, 2 * math.pi, 7.0]


def axes():
    a = [list(v) for v in itertools.product((-1.0, 0, 1), repeat=3) if any(v)]
    a += [[0.3, -0.5, 0.8], [0.9, 0.1, 0.2], [-0.05, 0.99, 0.1], [0.01, -0.02, 0.999], [-0.6, -0.7, 0.1], [0.4, 0.4, -0.9]]
    a = torch.tensor(a, dtype=f64)
    return a / a.norm(dim=-1, keepdim=True)


def rodrigues(aa):
    """reference: axis-angle -> matrix, float64"""
    th = aa.norm(dim=-1)
    u = aa / torch.where(th > 0, th, torch.ones_like(th))[..., None]
    K = torch.zeros(aa.shape[:-1] + (3, 3), dtype=aa.dtype)
    K[..., 0, 1], K[..., 0, 2], K[..., 1, 2] = -u[..., 2], u[..., 1], -u[..., 0]
    K[..., 1, 0], K[..., 2, 0], K[..., 2, 1] = u[..., 2], -u[..., 1], u[..., 0]
    s, c = torch.sin(th)[..., None, None], torch.cos(th)[..., None, None]
    return torch.eye(3, dtype=aa.dtype) + s * K + (1 - c) * (K @ K)


def qmat(q):
    q = q / q.norm(dim=-1, keepdim=True)
    w, x, y, z = q.unbind(-1)
    return torch.stack([1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w), 2 * (x * y + z * w), 1 - 2 * (x * x + z * z),
                        2 * (y * z - x * w), 2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)], -1).reshape(q.shape[:-1] + (3, 3))


def d6mat(d):
    a, b = d[..., :3], d[..., 3:]
    x = a / a.norm(dim=-1, keepdim=True)
    y = b - (x * b).sum(-1, keepdim=True) * x
    y = y / y.norm(dim=-1, keepdim=True)
    return torch.stack([x, y, torch.linalg.cross(x, y)], -2)


def emat(e, conv):
    m = torch.eye(3, dtype=e.dtype)
    for k, c in enumerate(conv):
        v = torch.zeros(e.shape[:-1] + (3,), dtype=e.dtype)
        v[..., "XYZ".index(c)] = e[..., k]
        m = m @ rodrigues_smooth(v)
    return m


REF = {"M": lambda x: x, "Q": qmat, "A": rodrigues, "L": rodrigues, "D": d6mat}
for _c in CONV:
    REF["E" + _c] = lambda x, c=_c: emat(x, c)
EDGE = {
    ("M", "Q"): tr.matrix_to_quaternion, ("Q", "M"): tr.quaternion_to_matrix, ("Q", "A"): tr.quaternion_to_axis_angle,
    ("A", "Q"): tr.axis_angle_to_quaternion, ("M", "A"): tr.matrix_to_axis_angle, ("A", "M"): tr.axis_angle_to_matrix,
    ("M", "A", "fast"): lambda m: tr.matrix_to_axis_angle(m, fast=True), ("A", "M", "fast"): lambda a: tr.axis_angle_to_matrix(a, fast=True),
    ("M", "D"): tr.matrix_to_rotation_6d, ("D", "M"): tr.rotation_6d_to_matrix,
    ("M", "L"): lambda m: tr.so3_log_map(m.reshape(-1, 3, 3)).reshape(m.shape[:-2] + (3,)),
    ("L", "M"): lambda a: tr.so3_exp_map(a.reshape(-1, 3)).reshape(a.shape[:-1] + (3, 3)),
    ("Q", "Q", "neg"): lambda q: -q, ("Q", "Q", "std"): tr.standardize_quaternion,
}
for _c in CONV:
    EDGE[("M", "E" + _c)] = lambda m, c=_c: tr.matrix_to_euler_angles(m, c)
    EDGE[("E" + _c, "M")] = lambda e, c=_c: tr.euler_angles_to_matrix(e, c)


def start(rep, dtype):
    ax = axes()
    ang = torch.tensor(ANG_A if rep in ("A", "L", "Q") else ANG, dtype=f64)
    aa = (ax[:, None] * ang[None, :, None]).reshape(-1, 3)
    if rep in ("A", "L"):
        x = aa
    elif rep == "M":
        x = rodrigues(aa)
    elif rep == "Q":
        th = ang[None].expand(len(ax), -1).reshape(-1, 1)
        x = torch.cat([torch.cos(th / 2), ax.repeat_interleave(len(ang), 0) * torch.sin(th / 2)], -1)
        x = torch.cat([x, torch.tensor([[-1.0, 1e-8, 0, 0], [-1, 0, -1e-7, 0], [-1, 1e-6, 1e-6, 0], [-1, 1e-4, 0, 1e-4], [-1, 0, 0, 0]], dtype=f64)])
        x = x / x.norm(dim=-1, keepdim=True)
    elif rep == "D":
        R = rodrigues(aa)
        x = torch.cat([R[:, 0] * 0.7, R[:, 1] * 1.9 + 0.3 * R[:, 0]], -1)
    else:
        g = torch.tensor([-3.0, -1.2, -0.4, 0.0, 0.5, 1.3, 2.9], dtype=f64)
        mid = torch.tensor([0.3, 1.0, 1.5, 2.5], dtype=f64) if rep[1] == rep[3] else torch.tensor([-1.5, -0.6, 0.0, 0.5, 1.4], dtype=f64)
        x = torch.stack(torch.meshgrid(g, mid, g, indexing="ij"), -1).reshape(-1, 3)
    x = x.to(dtype)
    return x, REF[rep](x.double())


def gimbal_ok(R, conv):
    i, k = "XYZ".index(conv[0]), "XYZ".index(conv[2])
    return R[..., i, k].abs() < math.cos(0.02) if i != k else R[..., i, i].abs() < math.cos(0.02)


def ang_of(R):
    v = torch.stack([R[..., 2, 1] - R[..., 1, 2], R[..., 0, 2] - R[..., 2, 0], R[..., 1, 0] - R[..., 0, 1]], -1).norm(dim=-1) / 2
    return torch.atan2(v, (R.diagonal(dim1=-2, dim2=-1).sum(-1) - 1) / 2)


def cases(tier):
    out = []
    for d in ("float32", "float64"):
        for rep in REF:
            out.append(["paths", rep, d, 6 if tier == "thorough" else 4])
        for e in EDGE:
            out.append(["alone", list(e), d])
            out.append(["grad", list(e), d])
        out += [["products", d], ["rigid", d], ["angle", d]]
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def show(x, i):
    return [float("%.9g" % v) for v in x.reshape(len(x), -1)[i].tolist()]


def step(e, x, R, low, where, rec):
    """-> (converted, reference) with gimbal-locked elements removed, after comparing"""
    if len(e) > 2 and e[2] == "fast" and e[0] == "M":
        pass
    if e[1].startswith("E"):
        ok = gimbal_ok(R, e[1][1:])
        x, R = x[ok], R[ok]
        if not len(x):
            return None
    y = EDGE[tuple(e)](x)
    rec.step(len(x))
    expect(y.dtype == x.dtype, where + ": dtype changed to %s" % y.dtype)
    expect(bool(torch.isfinite(y).all()), lambda: where + ": not finite, for %s" % show(x, int((~torch.isfinite(y)).reshape(len(y), -1).any(1).nonzero()[0])))
    got = REF[e[1]](y.double())
    err = (got - R).abs().reshape(len(R), -1).max(-1).values
    tol = torch.full_like(err, 5e-5 if low else 1e-8)
    if len(e) > 2 and e[2] == "fast" and e[0] == "M":
        near = (math.pi - ang_of(R)).abs()
        tol = torch.where(near < 0.02, torch.full_like(err, 2e-2 if low else 1e-4), tol)
    if e[1].startswith("E"):
        tol = tol * (40 if low else 1000)  # conditioning close to the excluded band
    bad = err > tol
    if bool(bad.any()):
        i = int(bad.nonzero()[0])
        raise Violation("%s: %s becomes %s: another rotation (matrix entries off by %.3g)" % (where, show(x, i), show(y, i), err[i]))
    return y, R


def run_paths(case, rec):
    _, rep, d, depth = case[:4]
    dt = getattr(torch, d)
    low = d == "float32"
    x, R = start(rep, dt)
    only = case[4] if len(case) > 4 else None

    def walk(r, x, R, hist, left):
        rec.state([r, x])
        rec.trace()
        if not left:
            return
        for e in EDGE:
            if e[0] != r:
                continue
            h = hist + ["-".join(e)]
            if only is not None and only[len(hist)] != h[-1]:
                continue
            # after a first Euler step, further Euler conventions are explored through the matrix anyway: keep the branching bounded
            if len(hist) >= 2 and e[1].startswith("E") and e[1] not in ("EXYZ", "EZXZ"):
                continue
            try:
                res = step(e, x, R, low, "path %s (%s)" % (h, d), rec)
            except Exception as ex:
                ex.case = ["paths", rep, d, len(h), h]
                raise
            if res is not None:
                # accumulated rounding: the next step is judged against what this step really produced
                walk(e[1], res[0], REF[e[1]](res[0].double()), h, left - 1)
    walk(rep, x, R, [], len(only) if only else depth)


def run_alone(case, rec):
    _, e, d = case
    x, R = start(e[0], getattr(torch, d))
    if e[1].startswith("E"):
        x = x[gimbal_ok(R, e[1][1:])]
    f = EDGE[tuple(e)]
    y = f(x)
    tol = 1e-5 if d == "float32" else 1e-12
    for i in range(len(x)):
        expect_close("%s (%s): %s converted alone and inside a batch" % ("-".join(e), d, show(x, i)), f(x[i:i + 1])[0], y[i], atol=tol)
    rec.step(len(x))
    if e[0] != "L" and e[1] != "L":
        expect_close("%s: without batch dimension" % e, f(x[7]), y[7], atol=tol)
    n = len(x) // 4
    shp = x[: 4 * n].reshape((2, n, 2) + x.shape[1:])
    expect_close("%s: with three batch dimensions" % e, f(shp).reshape(y[: 4 * n].shape), y[: 4 * n], atol=tol)
    rec.trace(len(x))
    rec.state([e, d, y])


def run_grad(case, rec):
    _, e, d = case
    dt = getattr(torch, d)
    x, R = start(e[0], dt)
    if e[1].startswith("E"):
        x = x[gimbal_ok(R, e[1][1:])]
    x = x.clone().requires_grad_(True)
    y = EDGE[tuple(e)](x)
    w = ((torch.arange(y[0].numel(), dtype=f64) * 0.618034 + 0.3) % 1 + 0.2).reshape(y[0].shape)
    (g,) = torch.autograd.grad((y * w.to(dt)).sum(), x)
    bad = ~torch.isfinite(g.reshape(len(g), -1)).all(1)
    expect(not bool(bad.any()), lambda: "%s (%s): the gradient for %s is %s" % ("-".join(e), d, show(x.detach(), int(bad.nonzero()[0])), show(g, int(bad.nonzero()[0]))))
    if e[1] == "M" and e[0] != "M":
        f = REF[e[0]] if e[0] not in ("A", "L") else rodrigues_smooth
        z = x.detach().double().requires_grad_(True)
        (r,) = torch.autograd.grad((f(z) * w).sum(), z)
        expect_close("%s (%s): gradient" % ("-".join(e), d), g, r, atol=2e-3 if d == "float32" else 1e-6, rtol=1e-3)
    rec.step(len(x))
    rec.trace(len(x))
    rec.state([e, d, g])


def rodrigues_smooth(aa):
    """differentiable at zero: coefficients by their series there"""
    t2 = (aa * aa).sum(-1)
    small = t2 < 1e-6
    th = torch.where(small, torch.ones_like(t2), t2).sqrt()
    a = torch.where(small, 1 - t2 / 6, torch.sin(th) / th)[..., None, None]
    b = torch.where(small, 0.5 - t2 / 24, (1 - torch.cos(th)) / th ** 2)[..., None, None]
    x, y, z = aa.unbind(-1)
    o = torch.zeros_like(x)
    K = torch.stack([o, -z, y, z, o, -x, -y, x, o], -1).reshape(aa.shape[:-1] + (3, 3))
    return torch.eye(3, dtype=aa.dtype) + a * K + b * (K @ K)


def run_products(case, rec):
    dt = getattr(torch, case[1])
    tol = 2e-5 if case[1] == "float32" else 1e-10
    q, R = start("Q", dt)
    q, R = q[::13], R[::13]
    q = torch.cat([q, -q[::3]])
    R = torch.cat([R, R[::3]])
    n = len(q)
    a, b = q[:, None].expand(n, n, 4), q[None].expand(n, n, 4)
    ref = R[:, None] @ R[None]
    for nm, f in (("quaternion_multiply", tr.quaternion_multiply), ("quaternion_raw_multiply", tr.quaternion_raw_multiply)):
        p = f(a, b)
        expect_close(nm + " against the matrix product", qmat(p.double()), ref, atol=tol)
        expect_close(nm + ": norm", p.norm(dim=-1), torch.ones(n, n), atol=tol)
    expect(not bool((tr.quaternion_multiply(a, b)[..., 0] < 0).any()), "quaternion_multiply: negative real part")
    inv = tr.quaternion_invert(q)
    expect_close("quaternion_invert", qmat(inv.double()), R.transpose(-1, -2), atol=tol)
    expect_close("q * q^-1", tr.quaternion_raw_multiply(q, inv), torch.tensor([1.0, 0, 0, 0]).expand(n, 4), atol=tol)
    pts = torch.tensor([[1.0, 0, 0], [0, 1, 0], [0, 0, 1], [0.3, -0.7, 2.0], [0, 0, 0]], dtype=dt)
    got = tr.quaternion_apply(q[:, None], pts[None])
    expect_close("quaternion_apply", got, (R[:, None] @ pts.double()[None, :, :, None])[..., 0], atol=5 * tol)
    expect_close("quaternion_apply, one", tr.quaternion_apply(q[3], pts[3]), (R[3] @ pts[3].double()), atol=5 * tol)
    if case[1] == "float64" or True:
        s = tr.standardize_quaternion(q)
        expect(not bool((s[..., 0] < 0).any()), "standardize_quaternion: negative real part")
        expect_close("standardize_quaternion", qmat(s.double()), R, atol=tol)
    sc = q * torch.linspace(0.2, 3, n, dtype=dt)[:, None]
    expect_close("quaternion_to_matrix of non-unit quaternions", tr.quaternion_to_matrix(sc), R, atol=tol)
    rec.step(n * n + 5 * n)
    rec.trace(n * n)
    rec.state([q, case])


def run_rigid(case, rec):
    dt = getattr(torch, case[1])
    low = case[1] == "float32"
    aa, R = start("A", dt)
    sel = torch.arange(0, len(aa), 1)
    tv = torch.tensor([[0.0, 0, 0], [1, 0, 0], [0, -2, 0.5], [0.3, 0.4, -1.7]], dtype=dt)
    for ti, tt in enumerate(tv):
        v = torch.cat([tt.expand(len(sel), 3), aa[sel]], -1)
        M = tr.se3_exp_map(v)
        rec.step(len(v))
        # reference: exponential of the 4x4 twist
        tw = torch.zeros(len(v), 4, 4, dtype=f64)
        x, y, z = v[:, 3].double(), v[:, 4].double(), v[:, 5].double()
        tw[:, 0, 1], tw[:, 0, 2], tw[:, 1, 2] = -z, y, -x
        tw[:, 1, 0], tw[:, 2, 0], tw[:, 2, 1] = z, -y, x
        tw[:, :3, 3] = v[:, :3].double()
        ref = torch.linalg.matrix_exp(tw).transpose(1, 2)
        expect_close("se3_exp_map (%s) translation %s" % (case[1], tt.tolist()), M, ref, atol=3e-4 if low else 3e-5)
        lg = tr.se3_log_map(M)
        back = tr.se3_exp_map(lg)
        rec.step(2 * len(v))
        expect(bool(torch.isfinite(lg).all()), "se3_log_map (%s): not finite" % case[1])
        expect_close("se3_exp_map of se3_log_map (%s) translation %s" % (case[1], tt.tolist()), back, M, atol=5e-4 if low else 1e-6)
        th = aa[sel].norm(dim=-1)
        inner = th < math.pi - 1e-2
        expect_close("se3_log_map of se3_exp_map (%s)" % case[1], lg[inner], v[inner], atol=5e-4 if low else 1e-5)
        for i in range(0, len(v), 7):
            expect_close("se3_exp_map alone", tr.se3_exp_map(v[i:i + 1])[0], M[i], atol=1e-5)
            expect_close("se3_log_map alone", tr.se3_log_map(M[i:i + 1])[0], lg[i], atol=1e-4)
        t3 = tr.Transform3d(matrix=M)
        expect_close("Transform3d.get_se3_log", t3.get_se3_log(), lg, atol=1e-5)
        vv = v.clone().requires_grad_(True)
        (g,) = torch.autograd.grad(tr.se3_exp_map(vv).square().sum(), vv)
        mm = M.clone().requires_grad_(True)
        (g2,) = torch.autograd.grad((tr.se3_log_map(mm) * 0.7).sum(), mm)
        expect(bool(torch.isfinite(g).all()) and bool(torch.isfinite(g2).all()), "se3 maps (%s): gradient not finite" % case[1])
        rec.state([ti, case, M])
        rec.trace(len(v))
    v = aa[:50]
    expect_close("hat", tr.so3.hat(v) @ tv[3], torch.linalg.cross(v, tv[3].expand(50, 3)), atol=1e-5)
    expect_close("hat_inv", tr.so3.hat_inv(tr.so3.hat(v)), v, atol=0, rtol=0)


def run_angle(case, rec):
    dt = getattr(torch, case[1])
    x, R = start("M", dt)
    n = len(x)
    th = ang_of(R)
    mid = (th > 0.03) & (th < math.pi - 0.03)
    tol = 2e-4 if case[1] == "float32" else 1e-8
    expect_close("so3_rotation_angle cosine", tr.so3_rotation_angle(x, cos_angle=True), torch.cos(th), atol=tol)
    a = tr.so3_rotation_angle(x)
    expect_close("so3_rotation_angle", a[mid], th[mid], atol=tol)
    expect(bool(((a - th).abs() < 0.015).all()), "so3_rotation_angle near the ends")
    for sh in (1, 5, 29, 77):
        y = x.roll(sh, 0)
        rel = R @ R.roll(sh, 0).transpose(1, 2)
        th2 = ang_of(rel)
        m = (th2 > 0.03) & (th2 < math.pi - 0.03)
        expect_close("so3_relative_angle", tr.so3_relative_angle(x, y, eps=1e-3)[m], th2[m], atol=tol)
        expect_close("so3_relative_angle cosine", tr.so3_relative_angle(x, y, cos_angle=True, eps=1e-3), torch.cos(th2), atol=tol)
        rec.step(2 * n)
    rec.step(2 * n)
    rec.trace(n)
    rec.state([case, a])
