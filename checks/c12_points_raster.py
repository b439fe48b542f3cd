"""C12: point rasterization against a float64 per-pixel reference over complete point-set spaces."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from checks.c10_raster import pixel_centers, weights
from pytorch3d import _C
from pytorch3d.renderer import (FoVOrthographicCameras, FoVPerspectiveCameras, OrthographicCameras, PerspectiveCameras,
                                PointsRasterizationSettings, PointsRasterizer)
from pytorch3d.renderer.points.rasterize_points import rasterize_points
from pytorch3d.structures import Pointclouds

PROPERTY = "C12"
ASSUMPTIONS = ["CPU rasterizer; coarse binning checked on its own through _C._rasterize_points_coarse",
               "pixels with a point within 1e-5 of the disc's edge, or with equal depths inside the list, are skipped and counted"]
BOUNDS = {
    "quick": "all 256 subsets of 8 points and all ordered triples of 9 points (incl. behind the camera, at z=0, duplicates) with empty "
             "clouds in between x 7 image sizes x 4 global radii, per-point radii as tensor and list x K in {1,2,3,8}; gradients; "
             "coarse bins; PointsRasterizer with 4 camera models x batch layouts",
    "thorough": "as quick with all subsets of 10 points and all ordered quadruples of 9 and 12 image sizes",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
PTS = [(-0.93, -0.71, 1.0), (0.13, 0.27, 0.5), (0.17, 0.21, 2.0), (0.67, -0.53, 1.5), (-0.41, 0.83, 0.75), (0.11, 0.31, -0.4),
       (1.27, 0.19, 1.25), (-0.03, -0.09, 0.9), (-1.53, -0.29, 0.6), (0.37, 1.41, 0.0), (0.77, 0.71, 1.75)]
RAD = [0.33, 0.8, 0.05, 1.3, 0.55, 0.9, 0.21, 2.5, 0.7, 0.45, 1.1]
SIZES = [(1, 1), (1, 4), (3, 1), (2, 3), (5, 3), (4, 4), (3, 7)]
SIZES_T = SIZES + [(2, 2), (6, 5), (8, 8), (9, 4), (7, 7)]


def clouds(name):
    if name[0] == "subsets":
        return [[k for k in range(name[1]) if m >> k & 1] for m in range(1 << name[1])]
    if name[0] == "tuples":
        out = []
        for i, t in enumerate(itertools.product(range(9), repeat=name[1] - 1)):
            out.append([name[2]] + list(t))
            if i % 10 == 4:
                out.append([])
        return out
    return name[1]


def reference(xyz, valid, r, H, W, K):
    N, M = valid.shape
    p = pixel_centers(H, W)
    d2 = ((xyz[:, None, :, :2] - p[None, :, None]) ** 2).sum(-1)
    r2 = (r * r)[:, None]
    z = xyz[:, None, :, 2].expand_as(d2)
    front = valid[:, None] & (z >= 0)
    hit = front & (d2 < r2)
    amb = (front & ((d2 - r2).abs() < 1e-5)).any(-1)
    zz = torch.where(hit, z, torch.full_like(z, float("inf")))
    zs, idx = torch.sort(zz, dim=-1, stable=True)
    k = min(K, M)
    if M > 1:
        amb = amb | (((zs[..., 1:] - zs[..., :-1]) < 1e-6) & torch.isfinite(zs[..., 1:]))[..., :K].any(-1)
    f = torch.isfinite(zs[..., :k])
    fid = torch.full((N, H * W, K), -1, dtype=torch.int64)
    rz = torch.full((N, H * W, K), -1.0, dtype=torch.float64)
    rd = rz.clone()
    fid[..., :k] = torch.where(f, idx[..., :k], torch.full_like(idx[..., :k], -1))
    rz[..., :k] = torch.where(f, zs[..., :k], rz[..., :k])
    rd[..., :k] = torch.where(f, d2.gather(-1, idx[..., :k]), rd[..., :k])
    return fid, rz, rd, amb


def build(cl, grad=False):
    M = max(1, max(len(c) for c in cl))
    xyz = torch.zeros(len(cl), M, 3, dtype=torch.float64)
    rad = torch.full((len(cl), M), 0.123, dtype=torch.float64)
    valid = torch.zeros(len(cl), M, dtype=torch.bool)
    lst = []
    for i, c in enumerate(cl):
        t = torch.tensor([PTS[k] for k in c], dtype=torch.float32).reshape(-1, 3)
        lst.append(t.requires_grad_(True) if grad else t)
        xyz[i, : len(c)] = t.detach().double()
        rad[i, : len(c)] = torch.tensor([RAD[k] for k in c], dtype=torch.float32).double()
        valid[i, : len(c)] = True
    return Pointclouds(lst), lst, xyz, rad, valid


def compare(out, ref, first, where, rec, H, W):
    idx, z, d = out
    fid, rz, rd, amb = ref
    N, P, K = fid.shape
    expect(tuple(idx.shape) == (N, H, W, K), where + ": shape %s" % (tuple(idx.shape),))
    idx, z, d = [x.reshape(N, P, K) for x in (idx, z, d)]
    gid = torch.where(fid >= 0, fid + first[:, None, None], fid)
    use = ~amb[..., None]
    rec.count("pixels", int(use.sum()))
    rec.count("skipped_pixels", int(amb.sum()))
    for what, g, w, tol in (("point", idx.long(), gid, 0), ("depth", z.double(), rz, 1e-5), ("squared distance", d.double(), rd, 1e-4)):
        bad = ~((g - w).abs() <= tol) & use
        if bool(bad.any()):
            n, p, k = bad.nonzero()[0].tolist()
            v = Violation("%s: cloud %d pixel (%d, %d) slot %d: %s %s, want %s" % (where, n, p // W, p % W, k, what, g[n, p, k].item(), w[n, p, k].item()))
            v.cloud = n
            raise v


def cases(tier):
    t = tier == "thorough"
    names = [["subsets", 10 if t else 8]] + [["tuples", 4 if t else 3, a] for a in range(9)]
    out = []
    for s in (SIZES_T if t else SIZES):
        for nm in names:
            for r in (0.06, 0.3, 0.8, 2.5, "tensor", "list"):
                out.append(["forward", nm, list(s), r, [1, 2, 3, 8] if nm[0] == "subsets" else [1, 2, 3]])
    for s in ((2, 3), (4, 4), (5, 1)):
        for nm in names[: None if t else 4]:
            out.append(["grad", nm, list(s)])
    for S in range(1, 9):
        for bs in range(1, S + 1):
            out.append(["coarse", S, bs])
    for cam in ("persp", "ortho", "fovp", "fovo"):
        for lay in ("one", "per"):
            for s in ((4, 4), (3, 5), (6, 2)):
                out.append(["camera", cam, lay, list(s)])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def _radius(r, rad, cl):
    if r == "tensor":
        return rad.float(), rad
    if r == "list":
        return rad.float().tolist(), rad
    return r, torch.full_like(rad, float(torch.tensor(r).float()))


def run_forward(case, rec):
    _, nm, (H, W), r, Ks = case
    cl = clouds(nm)
    pc, _, xyz, rad, valid = build(cl)
    arg, rr = _radius(r, rad, cl)
    for K in Ks:
        out = rasterize_points(pc, image_size=(H, W), radius=arg, points_per_pixel=K)
        ref = reference(xyz, valid, rr, H, W, K)
        rec.step(len(cl))
        try:
            compare(out, ref, pc.cloud_to_packed_first_idx(), "image %dx%d radius %s K %d" % (H, W, r, K), rec, H, W)
        except Violation as e:
            n = e.cloud
            e.args = (e.args[0] + " (points %s)" % ([PTS[k] for k in cl[n]],),)
            small = cl[max(0, n - 1): n + 2]
            e.case = ["forward", ["given", small], [H, W], r, [K]]
            raise
        rec.state([ref[0], H, W])
    rec.trace(len(cl) * len(Ks))


def run_grad(case, rec):
    _, nm, (H, W) = case
    cl = [c for c in clouds(nm) if c]
    K = 2
    pc, lst, xyz, rad, valid = build(cl, grad=True)
    for r in (0.5, 2.5):
        idx, z, d = rasterize_points(pc, image_size=(H, W), radius=r, points_per_pixel=K)
        N, P = len(cl), H * W
        loc = torch.where(idx >= 0, idx - pc.cloud_to_packed_first_idx()[:, None, None, None], idx).long().reshape(N, P * K)
        x = xyz.clone().requires_grad_(True)
        sel = x.gather(1, loc.clamp(min=0)[..., None].expand(N, P * K, 3)).reshape(N, P, K, 3)
        px = pixel_centers(H, W)[None, :, None]
        ok = (loc >= 0).reshape(N, P, K)
        uz, ud = weights((N, P, K), 1) * ok, weights((N, P, K), 2) * ok
        (want,) = torch.autograd.grad((uz * sel[..., 2]).sum() + (ud * ((sel[..., :2] - px) ** 2).sum(-1)).sum(), x)
        # padded slots get a weight too: they must not reach any point
        wz, wd = torch.where(ok, uz, torch.ones_like(uz)), torch.where(ok, ud, torch.ones_like(ud))
        got = torch.autograd.grad((z.reshape(N, P, K) * wz).sum() + (d.reshape(N, P, K) * wd).sum(), lst, retain_graph=True)
        for n in range(N):
            expect_close("image %dx%d radius %s: gradient of points %s" % (H, W, r, [PTS[k] for k in cl[n]]), got[n], want[n][valid[n]], atol=1e-3, rtol=1e-3)
        rec.step(N)
        rec.state([loc, H, W, "grad"])
    rec.trace(len(cl))


def run_coarse(case, rec):
    _, S, bs = case
    cl = clouds(["subsets", 8])[::2] + [[]]
    pc, _, xyz, rad, valid = build(cl)
    first, num = pc.cloud_to_packed_first_idx(), pc.num_points_per_cloud()
    nb = 1 + (S - 1) // bs
    for r in (0.06, 0.3, 0.8, "tensor"):
        rr = _radius(r, rad, cl)[1]
        bins = _C._rasterize_points_coarse(pc.points_packed(), first, num, (S, S), rr[valid].float(), bs, 9)
        ref = reference(xyz, valid, rr, S, S, 8)
        rec.step()
        expect(tuple(bins.shape) == (len(cl), nb, nb, 9), "coarse bins have shape %s" % (tuple(bins.shape),))
        for n in range(len(cl)):
            lo, hi = int(first[n]), int(first[n]) + int(num[n])
            li = bins[n].tolist()
            for by in range(nb):
                for bx in range(nb):
                    b = [q for q in li[by][bx] if q >= 0]
                    expect(len(set(b)) == len(b) and all(lo <= q < hi for q in b), "image %d bin size %d: bin lists %s for points %d..%d" % (S, bs, b, lo, hi))
            rows = ref[0][n].tolist()
            for p in range(S * S):
                for q in rows[p]:
                    if q >= 0:
                        expect(lo + q in li[(S - 1 - p // S) // bs][(S - 1 - p % S) // bs],
                               "image %d bin size %d radius %s: point %d covers pixel (%d, %d) but is missing in its bin" % (S, bs, r, q, p // S, p % S))
        rec.state([bins, S, bs])
    rec.trace(len(cl))


def run_camera(case, rec):
    _, cam, lay, (H, W) = case
    cl = [c for c in clouds(["subsets", 8])[1::9]] + [[], [1, 2, 3]]
    cl = [[k for k in c if k != 5] for c in cl]
    pc, lst, xyz, rad, valid = build(cl)
    N = len(cl)
    n = 1 if lay == "one" else N
    a = torch.arange(n, dtype=torch.float64) * 0.03 - 0.3
    R = torch.zeros(n, 3, 3, dtype=torch.float64)
    R[:, 0, 0] = R[:, 1, 1] = a.cos()
    R[:, 0, 1], R[:, 1, 0], R[:, 2, 2] = a.sin(), -a.sin(), 1
    T = torch.stack([0.1 * a, -0.2 * a, 0.5 + a.abs()], -1)
    f = torch.stack([1.1 + 0.3 * a, 0.9 - 0.2 * a], -1)
    pp = torch.stack([0.1 - a, 0.05 + 0.3 * a], -1) * 0.3
    kw = dict(R=R.float(), T=T.float())
    if cam == "persp":
        cams = PerspectiveCameras(focal_length=f.float(), principal_point=pp.float(), **kw)
    elif cam == "ortho":
        cams = OrthographicCameras(focal_length=f.float(), principal_point=pp.float(), **kw)
    elif cam == "fovp":
        fov = 60 + 20 * a
        cams = FoVPerspectiveCameras(fov=fov.float(), aspect_ratio=(1.0 + 0.2 * a).float(), **kw)
        s = 1 / torch.tan(fov * torch.pi / 360)
        f, pp = torch.stack([s / (1.0 + 0.2 * a), s], -1), torch.zeros(n, 2, dtype=torch.float64)
    else:
        mxy, mny, mxx, mnx = 1 + 0.1 * a, -1 + 0.2 * a, 1.2 + 0.1 * a, -0.9 + a * 0.1
        cams = FoVOrthographicCameras(max_y=mxy.float(), min_y=mny.float(), max_x=mxx.float(), min_x=mnx.float(), **kw)
        f = torch.stack([2 / (mxx - mnx), 2 / (mxy - mny)], -1)
        pp = torch.stack([-(mxx + mnx) / (mxx - mnx), -(mxy + mny) / (mxy - mny)], -1)
    view = xyz @ R.expand(N, 3, 3) + T.expand(N, 3)[:, None]
    xy = view[..., :2] / view[..., 2:] if cam in ("persp", "fovp") else view[..., :2]
    ndc = torch.cat([xy * f.expand(N, 2)[:, None] + pp.expand(N, 2)[:, None], view[..., 2:]], -1)
    before = pc.points_packed().clone()
    for r in (0.3, "tensor"):
        arg, rr = _radius(r, rad, cl)
        for K in (1, 3):
            rs = PointsRasterizationSettings(image_size=(H, W), radius=arg, points_per_pixel=K)
            for form in (0, 1):
                if form:
                    fr = PointsRasterizer()(pc, cameras=cams, raster_settings=rs)
                else:
                    fr = PointsRasterizer(cameras=cams, raster_settings=rs)(pc)
                compare((fr.idx, fr.zbuf, fr.dists), reference(ndc, valid, rr, H, W, K), pc.cloud_to_packed_first_idx(),
                        "camera %s (%s) image %dx%d radius %s K %d" % (cam, lay, H, W, r, K), rec, H, W)
                rec.step(N)
    expect(torch.equal(before, pc.points_packed()), "rasterizing changed the point cloud")
    rec.trace(N)
    rec.state([cam, lay, H, W])
