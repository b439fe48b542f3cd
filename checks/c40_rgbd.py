"""C40: RGB-D images, point clouds and sparse ray samples turn into each other at the right places."""
import itertools
import math

import torch
from mc.core import expect, expect_close

from pytorch3d.implicitron.models.model_dbir import ModelDBIR
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
from pytorch3d.implicitron.tools.camera_utils import (
    apply_camera_alignment,
    get_min_max_depth_bounds,
    jitter_extrinsics,
    volumetric_camera_overlaps,
)
from pytorch3d.implicitron.tools.depth_cleanup import cleanup_eval_depth
from pytorch3d.implicitron.tools.point_cloud_utils import get_rgbd_point_cloud, render_point_cloud_pytorch3d
from pytorch3d.implicitron.tools.rasterize_mc import rasterize_mc_samples, rasterize_sparse_ray_bundle
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.structures import Pointclouds
from pytorch3d.transforms import axis_angle_to_matrix

PROPERTY = "C40"
ASSUMPTIONS = [
    "perspective cameras in NDC or screen space; masks and depths are off their thresholds; no two points of a pixel are equally far from the camera",
    "points lie off the border of a pixel's radius, and at least 0.01 in front of or behind the camera plane",
]
BOUNDS = {
    "quick": "all depth maps over {-1, 0, 1, 2.5} of 2x2 and over {0, 1.5} of 2x3 and 3x2 images in batches of 2 with all masks, 5 camera kinds, both depth "
             "conventions and 3 colour image sizes; clouds of all choices of up to 3 of 9 points in padded pairs x 3 image shapes x cameras x radii; packed and "
             "padded ray bundles with all choices of 1..3 rays per camera x masks; all places and 5 depths of a point for the depth clean-up; camera "
             "alignments, jitters, depth bounds and overlaps of all ordered choices of up to 3 of 4 poses",
    "thorough": "choices of up to 4 points, 3x3 images, up to 4 rays per camera, more cameras",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64


def rot(*v):
    return axis_angle_to_matrix(torch.tensor([v], dtype=f64))[0]


POSES = [(rot(0, 0, 0), (0.0, 0.0, 0.0)), (rot(0.3, -0.4, 0.2), (0.1, -0.2, 0.3)), (rot(0.0, 2.0, 0.0), (-0.5, 0.25, 1.0)),
         (rot(-1.0, 0.1, 3.0), (0.2, 0.3, -0.4))]


class Cam:
    """a perspective camera of float64 formulas"""

    def __init__(self, pose, f, p, size, screen):
        self.R, self.T = POSES[pose][0], torch.tensor(POSES[pose][1], dtype=f64)
        self.f, self.p, self.size, self.screen = f, p, size, screen      # f, p in NDC

    def pixel_rays(self, H, W):
        """view-space points at depth 1 of the pixel centres"""
        s = min(H, W)
        y, x = torch.meshgrid(torch.arange(H, dtype=f64), torch.arange(W, dtype=f64), indexing="ij")
        xn, yn = (W - 2 * x - 1) / s, (H - 2 * y - 1) / s
        return torch.stack([(xn - self.p[0]) / self.f[0], (yn - self.p[1]) / self.f[1], torch.ones_like(xn)], -1)

    def to_world(self, v):
        return (v - self.T) @ self.R.T

    def view(self, w):
        return w @ self.R + self.T

    def ndc(self, v):
        return torch.stack([v[..., 0] * self.f[0] / v[..., 2] + self.p[0], v[..., 1] * self.f[1] / v[..., 2] + self.p[1]], -1)


def make(cams):
    kw = dict(R=torch.stack([c.R for c in cams]).float(), T=torch.stack([c.T for c in cams]).float())
    if cams[0].screen:
        H, W = cams[0].size
        s = min(H, W) / 2
        kw.update(in_ndc=False, image_size=torch.tensor([[H, W]] * len(cams)),
                  focal_length=torch.tensor([[c.f[0] * s, c.f[1] * s] for c in cams]),
                  principal_point=torch.tensor([[W / 2 - c.p[0] * s, H / 2 - c.p[1] * s] for c in cams]))
    else:
        kw.update(focal_length=torch.tensor([list(c.f) for c in cams]), principal_point=torch.tensor([list(c.p) for c in cams]))
    return PerspectiveCameras(**kw)


def camset(kind, n, size):
    f = [(1.0, 1.0), (2.0, 1.5), (0.7, 1.3)]
    p = [(0.0, 0.0), (0.15, -0.1), (-0.2, 0.05)]
    if kind == "plain":
        return [Cam(0, f[0], p[0], size, False) for _ in range(n)]
    if kind == "posed":
        return [Cam(1 + i, f[0], p[0], size, False) for i in range(n)]
    if kind == "intr":
        return [Cam(0, f[(i + 1) % 3], p[(i + 1) % 3], size, False) for i in range(n)]
    return [Cam((1 + i) % 4, f[(i + 1) % 3], p[(i + 1) % 3], size, kind == "screen") for i in range(n)]


# ------------------------------------------------------------------------------------------------ images to points
def colours(n, C, H, W, s):
    g = torch.Generator().manual_seed(7 * H + W + 100 * s)
    return torch.rand(n, C, H, W, generator=g)


def run_unproject(c, rec):
    H, W = c["size"]
    vals = c["vals"]
    cams = camset(c["cams"], 2, (H, W))
    C = make(cams)
    rays = torch.stack([k.pixel_rays(H, W) for k in cams])
    maps = list(itertools.product(vals, repeat=H * W))
    for di, d0 in enumerate(maps):
        d = torch.tensor([d0, maps[(di * 7 + 3) % len(maps)]]).view(2, 1, H, W)
        for eu in (False, True):
            up = (1, 2, 0)[(di + eu) % 3]      # image sizes: as the depth, twice, half
            ih, iw = (H, W) if up == 1 else (2 * H, 2 * W) if up == 2 else (1, 1)
            img = colours(2, 3 if di % 2 else 5, ih, iw, di % 4)
            m = [None, "one", "bits"][(di // 2 + eu) % 3]
            if m == "one":
                m = torch.full((2, 1, H, W), 0.8)
            elif m == "bits":
                m = torch.tensor([0.2 if (di * 13 >> b) & 1 else 0.7 for b in range(2 * H * W)]).view(2, 1, H, W)
            thr = 0.5 if di % 3 else 0.1
            d_in, img_in = d.clone(), img.clone()
            got = get_rgbd_point_cloud(C, img, d, m, thr, euclidean=eu)
            what = "%s cameras, %dx%d depth %s, euclidean=%s, mask %s > %s" % (c["cams"], H, W, d.flatten().tolist(), eu, None if m is None else m.flatten().tolist(), thr)
            expect(torch.equal(d, d_in) and torch.equal(img, img_in), "%s: the inputs were changed" % what)
            ok = d[:, 0] > 0
            if m is not None:
                ok &= m[:, 0] > thr
            dirs = rays / rays.norm(dim=-1, keepdim=True) if eu else rays
            pts = torch.stack([k.to_world(r) for k, r in zip(cams, dirs * d[:, 0, ..., None].double())])[ok]
            if up == 1:
                col = img
            elif up == 2:
                col = img.unfold(2, 2, 2).unfold(3, 2, 2).mean((-1, -2))
            else:
                col = img.expand(-1, -1, H, W)
            col = col.permute(0, 2, 3, 1)[ok]
            expect(len(got) == 1 and int(got.num_points_per_cloud()) == len(pts), "%s: %d points instead of %d" % (what, int(got.num_points_per_cloud()), len(pts)))
            expect_close(what + ": points", got.points_list()[0].double(), pts, 2e-5, 2e-5)
            expect_close(what + ": colours", got.features_list()[0], col, 1e-5, 1e-5)
            rec.step()
            rec.state((H, W, c["cams"], d0, eu, up))
    rec.trace()


# ------------------------------------------------------------------------------------------------ points to images
def ref_render(view, ndc, feats, H, W, r, topk, bg):
    """front to back composition of the points within r of each pixel centre, in float64"""
    s = min(H, W)
    C = feats.shape[-1]
    img, dep, msk = torch.zeros(C, H, W, dtype=f64), torch.zeros(1, H, W, dtype=f64), torch.zeros(1, H, W, dtype=f64)
    for y in range(H):
        for x in range(W):
            px, py = (W - 2 * x - 1) / s, (H - 2 * y - 1) / s
            hits = []
            for i in range(len(view)):
                d2 = float((ndc[i, 0] - px) ** 2 + (ndc[i, 1] - py) ** 2)
                expect(abs(d2 - r * r) > 1e-5, "harness: a point on the border of a radius")
                if view[i, 2] > 0 and d2 < r * r:
                    hits.append((float(view[i, 2]), 1 - d2 / (r * r), i))
            hits.sort()
            t = 1.0
            for z, w, i in hits[:topk]:
                img[:, y, x] += w * t * feats[i]
                dep[0, y, x] += w * t * z
                t *= 1 - w
            msk[0, y, x] = 1 - t
            if not hits and bg is not None:
                img[:, y, x] = torch.tensor(bg, dtype=f64)
    return img, msk, dep


VIEWPTS = [(0.1, 0.2, 1.0), (-0.45, 0.3, 1.3), (0.5, -0.4, 0.8), (-0.2, -0.65, 2.0), (0.15, 0.25, 1.7), (0.3, 0.1, -1.5), (1.9, 0.2, 2.4), (-0.02, 0.04, 0.35),
           (0.6, 1.1, 1.9)]


def pick(n, start, k):
    return [list(t) for t in itertools.combinations(range(n), k) if t[0] == start]


def run_render(c, rec):
    H, W = c["size"]
    cams = camset(c["cams"], 2, (H, W))
    C = make(cams)
    sel = pick(len(VIEWPTS), c["start"], c["k"])
    V = torch.tensor(VIEWPTS, dtype=f64)
    for si, a in enumerate(sel):
        b = [8 - a[0], a[0]][: 1 + si % 2]
        groups = [a, b] if si % 4 < 2 else [b, a]
        views = [V[g] for g in groups]
        feats = [torch.tensor([[0.1 * i + 0.05, 1.0 - 0.1 * i, 0.3] for i in g], dtype=f64) for g in groups]
        order = [torch.randperm(len(g), generator=torch.Generator().manual_seed(si)) for g in groups]
        pc = Pointclouds([k.to_world(v)[o].float() for k, v, o in zip(cams, views, order)], features=[f[o].float() for f, o in zip(feats, order)])
        for r, topk, bg in ((0.6, 10, None), (0.9, 1 + si % 2, (0.2, 0.4, 0.6))):
            kw = {} if bg is None else {"bg_color": list(bg)}
            keep = pc.points_packed().clone(), C.R.clone(), C.T.clone()
            got = render_point_cloud_pytorch3d(C, pc, (H, W), point_radius=r, topk=topk, **kw)
            what = "%s cameras, clouds of points %s, %dx%d, radius %s, %s per pixel" % (c["cams"], groups, H, W, r, topk)
            expect(torch.equal(keep[0], pc.points_packed()) and torch.equal(keep[1], C.R) and torch.equal(keep[2], C.T), "%s: inputs changed" % what)
            for i in range(2):
                want = ref_render(views[i], cams[i].ndc(views[i]), feats[i], H, W, r, topk, bg)
                for name, g, w in zip(("image", "mask", "depth"), got, want):
                    expect(g.shape == (2,) + w.shape, "%s: %s of shape %s" % (what, name, tuple(g.shape)))
                    expect_close("%s: %s %d" % (what, name, i), g[i].double(), w, 5e-4, 1e-4)
            rec.step()
        rec.state((H, W, c["cams"], a))
    rec.trace()


# ------------------------------------------------------------------------------------------------ sparse ray samples
RAYS = [(0.11, 0.21), (-0.43, 0.37), (0.52, -0.33), (-0.27, -0.61), (0.71, 0.63), (0.02, -0.04), (-0.78, 0.08)]


def run_sparse(c, rec):
    H, W = c["size"]
    counts = c["counts"]
    for first in range(len(RAYS)):
        for with_mask in (False, True):
            idx = [[(first + 3 * i + j * (1 + i)) % len(RAYS) for j in range(n)] for i, n in enumerate(counts)]
            xy = [torch.tensor([RAYS[k] for k in g]) for g in idx]
            F = [torch.tensor([[0.1 + 0.1 * k, 0.9 - 0.1 * k] for k in g]) for g in idx]
            D = [torch.tensor([[1.0 + 0.3 * k] for k in g]) for g in idx]
            M = [torch.tensor([[0.0 if (k + first) % 3 == 0 else 0.25 * (k % 4) + 0.1] for k in g]) for g in idx]
            n = len(counts)
            what = "rays %s of %d cameras, %dx%d, masks %s" % (idx, n, H, W, with_mask)
            mx = max(counts)
            r = 2.0 / math.sqrt(mx)
            cat = [torch.cat([f, d, m if with_mask else torch.ones_like(m)], 1).double() for f, d, m in zip(F, D, M)]
            ones = [torch.ones(k, 1, dtype=f64) for k in counts]
            kinds = ["packed"] + (["padded"] if len(set(counts)) == 1 else [])
            for kind in kinds:
                if kind == "packed":
                    rb = ImplicitronRayBundle(origins=torch.zeros(sum(counts), 1, 3), directions=torch.ones(sum(counts), 1, 3), lengths=torch.ones(sum(counts), 1, 2),
                                              xys=torch.cat(xy)[:, None], camera_ids=torch.arange(n), camera_counts=torch.tensor(counts))
                    args = torch.cat(F)[:, None], torch.cat(D)[:, None], torch.cat(M)[:, None]
                else:
                    rb = ImplicitronRayBundle(origins=torch.zeros(n, mx, 1, 3), directions=torch.ones(n, mx, 1, 3), lengths=torch.ones(n, mx, 1, 2),
                                              xys=torch.stack(xy)[:, :, None])
                    args = torch.stack(F)[:, :, None], torch.stack(D)[:, :, None], torch.stack(M)[:, :, None]
                img, dep, msk = rasterize_sparse_ray_bundle(rb, args[0], (H, W), args[1], masks=args[2] if with_mask else None)
                expect(img.shape == (n, 2, H, W) and dep.shape == (n, 1, H, W) and msk.shape == (n, 1, H, W), "%s: shapes" % what)
                for i in range(n):
                    v = torch.cat([xy[i].double(), ones[i]], 1)
                    # equally deep points: compare where at most one point or full weight decides, or by the known order of the points
                    want, alpha, _ = ref_render_ties(v, cat[i], H, W, r, 5)
                    expect_close("%s (%s): image %d" % (what, kind, i), img[i].double(), want[:2], 1e-3, 1e-3)
                    expect_close("%s (%s): depth %d" % (what, kind, i), dep[i].double(), want[2:3], 1e-3, 1e-3)
                    expect_close("%s (%s): mask %d" % (what, kind, i), msk[i].double(), want[3:] * alpha, 1e-3, 1e-3)
                rec.step()
            rec.state((counts, first, with_mask, H, W))
    rec.trace()


def ref_render_ties(v, feats, H, W, r, topk):
    """as ref_render for points at depth 1, which are taken in the order of the points"""
    s = min(H, W)
    img, msk = torch.zeros(feats.shape[1], H, W, dtype=f64), torch.zeros(1, H, W, dtype=f64)
    for y in range(H):
        for x in range(W):
            px, py = (W - 2 * x - 1) / s, (H - 2 * y - 1) / s
            t = 1.0
            k = 0
            for i in range(len(v)):
                w = 1 - float((v[i, 0] - px) ** 2 + (v[i, 1] - py) ** 2) / (r * r)
                if w > 0 and k < topk:
                    k += 1
                    img[:, y, x] += w * t * feats[i]
                    t *= 1 - w
            msk[0, y, x] = 1 - t
    return img, msk, None


# ------------------------------------------------------------------------------------------------ depth clean-up
def run_cleanup(c, rec):
    H, W = c["size"]
    cams = camset(c["cams"], 2, (H, W))
    C = make(cams)
    g = torch.Generator().manual_seed(H * 10 + W)
    for sigma in (0.1, 1.0):
        depth = 1.0 + torch.rand(2, 1, H, W, generator=g) * 2
        mask = (torch.rand(2, 1, H, W, generator=g) > 0.3).float()
        mask[:, :, 0, 0] = 1
        std = []
        for i in range(2):
            d, m = depth[i, 0].double().flatten(), mask[i, 0].double().flatten()
            mu = (d * m).sum() / m.sum()
            std.append(float((((d - mu) ** 2 * m).sum() / m.sum()).clamp(1e-4).sqrt()))
        cells = [(y, x) for y in range(-1, H + 1) for x in range(-1, W + 1)]
        rays = [k.pixel_rays(H, W) for k in cams]

        def point(i, y, x, off):
            s = min(H, W)
            xn, yn = (W - 2 * (x + 0.2) - 1) / s, (H - 2 * (y - 0.3) - 1) / s
            inside = 0 <= y < H and 0 <= x < W
            z = (float(depth[i, 0, y, x]) if inside else 0.02) + off * std[i] * sigma
            if not inside:
                z = abs(z) + 0.02
            return torch.tensor([(xn - cams[i].p[0]) / cams[i].f[0] * z, (yn - cams[i].p[1]) / cams[i].f[1] * z, z], dtype=f64), inside and abs(off) < 1
        for j, (y, x) in enumerate(cells):
            for o, off in enumerate((0.0, 0.9, -0.9, 1.1, -1.1)):
                pts, want = [], torch.zeros(2, 1, H, W)
                for i in range(2):
                    chosen = [(y, x, off)] + ([cells[(j * 5 + 2 * o + i) % len(cells)] + (0.5,)] if i == 0 else [])
                    ps = []
                    for q in chosen:
                        p, good = point(i, *q)
                        ps.append(p)
                        if good:
                            want[i, 0, q[0], q[1]] = 1
                    pts.append(cams[i].to_world(torch.stack(ps)).float())
                got = cleanup_eval_depth(Pointclouds(pts), C, depth, mask, sigma)
                expect(torch.equal(got, want), "%s cameras, %dx%d, point in pixel %s with %.1f of the threshold (sigma %s): kept %s instead of %s"
                       % (c["cams"], H, W, (y, x), off, sigma, got.tolist(), want.tolist()))
                rec.step()
        rec.state((H, W, c["cams"], sigma))
    rec.trace()


# ------------------------------------------------------------------------------------------------ cameras
def run_cameras(c, rec):
    X = torch.tensor([[0.2, 0.3, 0.4], [-1.0, 0.5, 2.0], [0.7, -0.6, 3.0]], dtype=f64)
    ids = c["poses"]
    R = torch.stack([POSES[i][0] for i in ids])
    T = torch.stack([torch.tensor(POSES[i][1], dtype=f64) for i in ids])
    n = len(ids)
    for a in range(4):
        for scale in (1.0, 0.3, 4.0):
            rig = torch.eye(4, dtype=f64).repeat(n, 1, 1)
            for i in range(n):
                rig[i, :3, :3] = POSES[(a + i) % 4][0]
                rig[i, 3, :3] = torch.tensor(POSES[(a + 2 * i + 1) % 4][1], dtype=f64)
            sc = scale * (1 + 0.5 * torch.arange(n, dtype=f64))
            Ra, Ta = apply_camera_alignment(R.clone(), T.clone(), rig, sc)
            for i in range(n):
                Xa = sc[i] * (X @ rig[i, :3, :3] + rig[i, 3, :3])
                expect_close("aligned camera %d of %s sees the aligned points as before" % (i, ids), Xa @ Ra[i] + Ta[i], sc[i] * (X @ R[i] + T[i]), 1e-9, 1e-9)
            rec.step()
    for seed in range(6):
        for ang, tr, st in ((0.0, 0.0, 0.0), (6.28, 0.0, 0.0), (0.5, 1.0, 0.0), (1.0, 0.5, 0.3)):
            torch.manual_seed(seed)
            Rf, Tf = R.float(), T.float()
            Rj, Tj = jitter_extrinsics(Rf.clone(), Tf.clone(), ang, tr, st)
            what = "jitter(%s, %s, %s)" % (ang, tr, st)
            expect_close(what + ": rotations", Rj @ Rj.transpose(1, 2), torch.eye(3).expand(n, 3, 3), 1e-4, 0)
            scale = None
            for i in range(n):
                for j in range(n):
                    expect_close(what + ": relative rotation", Rj[j].T @ Rj[i], Rf[j].T @ Rf[i], 1e-4, 0)
                    rel, relj = Tf[i] - Tf[j] @ Rf[j].T @ Rf[i], Tj[i] - Tj[j] @ Rj[j].T @ Rj[i]
                    if float(rel.norm()) > 1e-3:
                        s = float(relj.norm() / rel.norm())
                        scale = s if scale is None else scale
                        expect(abs(s - scale) < 1e-3 * scale, "%s: scales %s and %s" % (what, s, scale))
                        expect_close(what + ": relative translation", relj, rel * scale, 1e-3, 1e-3)
            if ang == tr == st == 0:
                expect_close(what + ": R", Rj, Rf, 1e-5, 0)
                expect_close(what + ": T", Tj, Tf, 1e-5, 0)
            if st == 0 and scale is not None:
                expect(abs(scale - 1) < 1e-4, "%s: scaled by %s" % (what, scale))
            rec.step()
    cams = PerspectiveCameras(R=R.float(), T=T.float())
    ctr = -(T[:, None] @ R.transpose(1, 2))[:, 0]
    for sc in ((0.0, 0.0, 0.0), (3.0, -2.0, 1.0)):
        for ext in (0.1, 1.0, 8.0):
            lo, hi = get_min_max_depth_bounds(cams, torch.tensor(sc), ext)
            d = (ctr - torch.tensor(sc, dtype=f64)).norm(dim=1)
            expect(lo.shape == (n,) and bool((lo > 0).all()) and bool((hi > lo).all()), "depth bounds %s %s" % (lo, hi))
            dd = d.clamp(min=0.001 ** 0.5).clamp(min=ext + 1e-3)
            expect_close("near bounds", lo.double(), dd - ext, 1e-5, 1e-4)
            expect_close("far bounds", hi.double(), dd + ext, 1e-5, 1e-4)
            rec.step()
    for ext, sc, resol in ((2.0371, (0.0113, 0.0271, -0.0193), 4), (1.5, (0.4137, -0.3071, 0.8213), 5)):
        ax = (torch.arange(resol, dtype=f64) - (resol - 1) / 2) * (2 * ext / resol) + 0.0
        grid = torch.stack(torch.meshgrid(ax, ax, ax, indexing="ij"), -1).flip(-1).reshape(-1, 3) + torch.tensor(sc, dtype=f64)
        see = []
        for i in range(n):
            v = grid @ R[i] + T[i]
            p = v[:, :2] / v[:, 2:]
            see.append((p.abs() <= 1).all(1) & (v[:, 2] > 0))
            border = ((p.abs() - 1).abs() < 2e-5).any(1) | (v[:, 2].abs() < 1e-4)
            expect(not bool(border.any()), "harness: a voxel on the border of an image")
        see = torch.stack(see).double()
        got = volumetric_camera_overlaps(cams, ext, sc, resol, weigh_by_ray_angle=False)
        inter = see @ see.T
        mass = torch.diag(inter)
        expect_close("overlaps of cameras %s" % ids, got.double(), inter / (mass[:, None] + mass[None] - inter).clamp(min=0.1), 1e-5, 1e-5)
        got = volumetric_camera_overlaps(cams, ext, sc, resol)
        ray = grid[None] - ctr[:, None]
        ray = ray / ray.norm(dim=-1, keepdim=True) * see[..., None]
        inter = resol ** 3 + torch.einsum("ikc,jkc->ij", ray, ray)
        mass = torch.diag(inter)
        expect_close("overlaps by angle of cameras %s" % ids, got.double(), inter / (mass[:, None] + mass[None] - inter).clamp(min=0.1), 1e-4, 1e-4)
        rec.step(2)
    rec.state(ids)
    rec.trace()


# ------------------------------------------------------------------------------------------------ depth-based image rendering
def run_dbir(c, rec):
    H, W = 4, 5
    n = 3
    cams = camset("posed" if c["cams"] == "posed" else "intr", n, (H, W))
    # all cameras close to each other so that they see each other's points
    base = POSES[1]
    for i, k in enumerate(cams):
        k.R, k.T = base[0] @ rot(0.03 * i, 0.05 * i, 0.02 * i), torch.tensor(base[1], dtype=f64) + 0.05 * i
    C = make(cams)
    model = ModelDBIR(render_image_width=24, render_image_height=20, bg_color=(0.1, 0.2, 0.3))
    g = torch.Generator().manual_seed(3)
    img = torch.rand(n, 3, H, W, generator=g)
    depth = 2 + torch.rand(n, 1, H, W, generator=g)
    depth[:, :, 1, 2] = 0
    fg = (torch.rand(n, 1, H, W, generator=g) > 0.3).float()
    for types in itertools.product(("known", "unseen"), repeat=n):
        ft = ["train_known" if (t == "known") else "train_unseen" for t in types]
        known = [i for i in range(n) if types[i] == "known"]
        tgt = [i for i in range(n) if types[i] != "known"]
        if not known or not tgt:
            continue
        out = model(image_rgb=img, camera=C, fg_probability=fg, mask_crop=torch.ones_like(fg), depth_map=depth, sequence_name=["s"] * n, frame_type=ft)
        ok = (depth[known][:, 0] > 0) & (fg[known][:, 0] > 0.5)
        pts = torch.stack([cams[i].to_world(cams[i].pixel_rays(H, W) * depth[i, 0, ..., None].double()) for i in known])[ok]
        col = img[known].permute(0, 2, 3, 1)[ok].double()
        expect_close("points of the known views %s" % known, out["point_cloud"].points_list()[0].double(), pts, 1e-4, 1e-4)
        r = out["implicitron_render"]
        for j, t in enumerate(tgt):
            v = cams[t].view(pts)
            expect_close("points seen from %d" % t, 0.0, 0.0)
            want = ref_render_lenient(v, cams[t].ndc(v), col, 20, 24, 0.01, 10, (0.1, 0.2, 0.3))
            off = want[3]
            for name, a, b in (("image", r.image_render[j], want[0]), ("mask", r.mask_render[j], (want[1] > 1e-4).double()), ("depth", r.depth_render[j], want[2])):
                d = (a.double() - b).abs().amax(0)
                expect(bool(((d < 0.05) | off).all()), "known views %s: %s of view %d is off by %s" % (known, name, t, float(d[~off].max())))
        rec.step()
        rec.state(types)
    rec.trace()


def ref_render_lenient(view, ndc, feats, H, W, r, topk, bg):
    s = min(H, W)
    img = torch.tensor(bg, dtype=f64)[:, None, None].repeat(1, H, W)
    dep, msk, off = torch.zeros(1, H, W, dtype=f64), torch.zeros(1, H, W, dtype=f64), torch.zeros(H, W, dtype=torch.bool)
    for y in range(H):
        for x in range(W):
            px, py = (W - 2 * x - 1) / s, (H - 2 * y - 1) / s
            d2 = (ndc[:, 0] - px) ** 2 + (ndc[:, 1] - py) ** 2
            near = d2 < (r * 1.1) ** 2
            off[y, x] = bool((near & (d2 > (r * 0.97) ** 2)).any())
            hits = sorted((float(view[i, 2]), 1 - float(d2[i]) / r ** 2, i) for i in torch.nonzero((d2 < r * r) & (view[:, 2] > 0))[:, 0].tolist())
            if hits:
                img[:, y, x] = 0
            t = 1.0
            for z, w, i in hits[:topk]:
                img[:, y, x] += w * t * feats[i]
                dep[0, y, x] += w * t * z
                t *= 1 - w
            msk[0, y, x] = 1 - t
    return img, msk, dep, off


RUN = {"unproject": run_unproject, "render": run_render, "sparse": run_sparse, "cleanup": run_cleanup, "cameras": run_cameras, "dbir": run_dbir}
CAMS = ("plain", "posed", "intr", "all", "screen")


def cases(tier):
    deep = tier == "thorough"
    out = []
    for ck in CAMS:
        for size, vals in (((2, 2), (-1.0, 0.0, 1.0, 2.5)), ((2, 3), (0.0, 1.5)), ((3, 2), (0.0, 1.5)), ((1, 4), (0.0, 0.3, 3.0))) + ((((3, 3), (0.0, 1.5)),) if deep else ()):
            out.append({"kind": "unproject", "cams": ck, "size": size, "vals": vals})
        for size in ((3, 3), (2, 5), (5, 2)):
            for k in (1, 2, 3, 4) if deep else (1, 2, 3):
                for start in range(9 - k + 1):
                    if ck in ("plain", "all", "screen") or deep:
                        out.append({"kind": "render", "cams": ck, "size": size, "k": k, "start": start})
        for size in ((3, 3), (2, 4), (5, 3)):
            out.append({"kind": "cleanup", "cams": ck, "size": size})
    for size in ((5, 5), (4, 7)):
        for n in (1, 2, 3):
            for counts in itertools.product(range(1, 5 if deep else 4), repeat=n):
                out.append({"kind": "sparse", "size": size, "counts": list(counts)})
    for n in (1, 2, 3):
        for p in itertools.permutations(range(4), n):
            out.append({"kind": "cameras", "poses": list(p)})
    for ck in ("posed", "intr"):
        out.append({"kind": "dbir", "cams": ck})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
