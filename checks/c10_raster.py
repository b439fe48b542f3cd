"""C10: mesh rasterization against a float64 per-pixel reference over complete scene spaces."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d import _C
from pytorch3d.renderer import (FoVOrthographicCameras, FoVPerspectiveCameras, MeshRasterizer, OrthographicCameras,
                                PerspectiveCameras, RasterizationSettings)
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes
from pytorch3d.structures import Meshes

PROPERTY = "C10"
ASSUMPTIONS = [
    "CPU rasterizer (no GPU here); the coarse binning step is checked on its own through _C._rasterize_meshes_coarse",
    "pixels where a decision falls within 1e-5 of its boundary (coverage, blur radius, equal depth) or that look past a face near its horizon are skipped and counted",
    "a face with a vertex at z < 1e-8 is dropped unless clipping is on (C11), as the code documents",
]
BOUNDS = {
    "quick": "all ordered triangles over 8 lattice positions x 4 depth patterns, all ordered pairs of 13 triangles, all triples of "
             "8 and all subsets of 8 triangles; each x 6 image sizes (1x1 to 5x4) x blur {0, .02, .5} x perspective/clip/cull x "
             "K in {1,2,3,8}; gradients for the single, pair and triple scenes; worker-thread counts 1..8 x heights 1..9; coarse bins; "
             "MeshRasterizer with 4 camera models x batch layouts",
    "thorough": "as quick with 10 positions, 9 image sizes, all triples of 13 triangles, and gradients for every configuration",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1

POS = [(-0.93, -0.71), (0.13, -0.97), (0.87, -0.53), (-0.77, 0.19), (0.07, 0.11), (1.31, 0.29), (-0.47, 0.91), (0.59, 1.17),
       (-1.43, 0.83), (0.39, -0.23)]
ZPAT = [(1.0, 1.0, 1.0), (0.5, 1.25, 2.0), (3.0, 0.75, 1.5), (1.0, -0.4, 0.8)]
TRI = [  # (positions, depths)
    ((0, 2, 6), (1.0, 1.0, 1.0)), ((2, 0, 6), (2.0, 2.0, 2.0)), ((0, 5, 7), (0.5, 2.0, 3.0)), ((3, 1, 4), (1.5, 1.5, 1.5)),
    ((4, 2, 7), (0.75, 1.5, 0.6)), ((6, 3, 4), (2.5, 0.5, 1.0)), ((1, 2, 4), (1.25, 1.25, 3.0)), ((0, 1, 2), (0.3, 0.3, 0.3)),
    ((0, 2, 6), (3.0, 0.4, 2.0)), ((5, 1, 3), (1.75, 1.75, 1.7)), ((7, 6, 4), (0.9, 2.2, 1.1)), ((0, 4, 2), (1.0, 0.0, 2.0)),
    ((4, 4, 2), (1.0, 1.0, 1.0)),
]
SIZES = [(1, 1), (1, 3), (3, 2), (2, 5), (5, 4), (4, 4)]
SIZES_T = SIZES + [(6, 3), (3, 7), (8, 8)]
FLAGS = list(itertools.product((False, True), repeat=3))  # perspective, clip, cull


def tri(k):
    p, z = TRI[k]
    return [[POS[i][0], POS[i][1], zz] for i, zz in zip(p, z)]


def scenes(name):
    """-> list of scenes, each a list of triangles"""
    kind = name[0]
    if kind == "single":
        n, z = name[1], ZPAT[name[2]]
        return [[[[POS[i][0], POS[i][1], zz] for i, zz in zip(t, z)]] for t in itertools.permutations(range(n), 3)]
    if kind == "pairs":
        return [[tri(a), tri(b)] for a in range(len(TRI)) for b in range(len(TRI))]
    if kind == "triples":
        n = name[1]
        return [[tri(name[2]), tri(b), tri(c)] for b in range(n) for c in range(n)]
    if kind == "subsets":
        return [[tri(k) for k in range(8) if m >> k & 1] for m in range(256)]
    raise ValueError(name)


def to_meshes(sc, grad=False):
    verts = [torch.tensor(s, dtype=torch.float32).reshape(-1, 3) for s in sc]
    if grad:
        for v in verts:
            v.requires_grad_(True)
    faces = [torch.arange(len(v)).reshape(-1, 3) for v in verts]
    return Meshes(verts=verts, faces=faces), verts


def pixel_centers(H, W):
    def ax(n, other):
        r = n / other if n > other else 1.0
        return torch.tensor([r - (2 * i + 1) * r / n for i in range(n)], dtype=torch.float64)
    return torch.stack(torch.meshgrid(ax(H, W), ax(W, H), indexing="ij"), -1).flip(-1).reshape(-1, 2)  # (x, y), +x left, +y up


def cross(a, b):
    return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]


def seg_dist2(p, a, b):
    d = b - a
    l2 = (d * d).sum(-1)
    t = (((p - a) * d).sum(-1) / torch.where(l2 > 0, l2, torch.ones_like(l2))).clamp(0, 1)
    q = a + t[..., None] * d - p
    return (q * q).sum(-1)


def attributes(fv, p, persp, clip):
    """fv [..., 3, 3], p [..., 2] -> bary, depth, distance, inside margin, area, denominator"""
    xy, z = fv[..., :2], fv[..., 2]
    a, b, c = xy[..., 0, :], xy[..., 1, :], xy[..., 2, :]
    area = cross(c - a, b - a)
    safe = torch.where(area.abs() > 1e-9, area, torch.ones_like(area))
    w = torch.stack([cross(c - p, b - p), cross(a - p, c - p), cross(b - p, a - p)], -1) / safe[..., None]
    den = torch.ones_like(area)
    if persp:
        top = torch.stack([w[..., 0] * z[..., 1] * z[..., 2], w[..., 1] * z[..., 0] * z[..., 2], w[..., 2] * z[..., 0] * z[..., 1]], -1)
        den = top.sum(-1)
        w = top / torch.where(den.abs() > 1e-6, den, torch.ones_like(den))[..., None]
    margin = w.min(-1).values
    if clip:
        wc = w.clamp(min=0)
        s = wc.sum(-1)
        w = wc / s.clamp(min=1e-5)[..., None]
    depth = (w * z).sum(-1)
    dist = torch.minimum(torch.minimum(seg_dist2(p, a, b), seg_dist2(p, b, c)), seg_dist2(p, a, c))
    return w, depth, dist, margin, area, den


def reference(fv, valid, H, W, blur, K, persp, clip, cull):
    """fv [N, F, 3, 3] double, valid [N, F] -> per pixel top-K lists and an ambiguity mask"""
    N, F = valid.shape
    P = H * W
    px = pixel_centers(H, W)
    bary, z, dist, margin, area, den = attributes(fv[:, :, None].expand(N, F, P, 3, 3), px.expand(N, F, P, 2), persp, clip)
    usable = valid[:, :, None] & (area.abs() > 1e-8) & (fv[..., 2].min(-1).values > 1e-8)[:, :, None]
    if cull:
        usable = usable & (area > 0)
    inside = margin > 0
    hit = usable & (z >= 0) & (inside | (dist < blur))
    near = (dist - blur).abs() < 1e-5
    amb = usable & ((margin.abs() < 1e-5) | (~inside & near & (blur > 0)) | ((z.abs() < 1e-5) & (inside | (dist < blur + 1e-5))))
    if persp:
        amb = amb | (usable & (den < 0.05) & (dist < blur + 1e-4) & ~inside)
        hit = hit & ~((den < 0.05) & ~inside)
    zz = torch.where(hit, z, torch.full_like(z, float("inf"))).permute(0, 2, 1)  # N P F
    order = torch.sort(zz, dim=-1, stable=True).indices
    zs = zz.gather(-1, order)
    gap = zs[..., 1:] - zs[..., :-1]
    tie = ((gap < 1e-5) & torch.isfinite(zs[..., 1:]))[..., :K].any(-1) if F > 1 else torch.zeros(N, P, dtype=torch.bool)
    skip = amb.any(1) | tie
    k = min(K, F)
    idx = order[..., :k]
    found = torch.isfinite(zs[..., :k])

    def pick(x, fill):  # x [N, F, P, ...] -> [N, P, K, ...]
        x = x.transpose(1, 2)
        ii = idx.reshape(idx.shape + (1,) * (x.ndim - 3)).expand(idx.shape + x.shape[3:])
        g = x.gather(2, ii)
        g = torch.where(found.reshape(found.shape + (1,) * (x.ndim - 3)), g, torch.full_like(g, fill))
        out = torch.full((N, P, K) + x.shape[3:], fill, dtype=g.dtype)
        out[:, :, :k] = g
        return out
    fid = torch.full((N, P, K), -1, dtype=torch.int64)
    fid[:, :, :k] = torch.where(found, idx, torch.full_like(idx, -1))
    sd = torch.where(inside, -dist, dist)
    return fid, pick(z, -1.0), pick(bary, -1.0), pick(sd, -1.0), skip


def pad_scenes(sc):
    F = max(1, max(len(s) for s in sc))
    fv = torch.zeros(len(sc), F, 3, 3, dtype=torch.float64)
    valid = torch.zeros(len(sc), F, dtype=torch.bool)
    for i, s in enumerate(sc):
        if s:
            fv[i, : len(s)] = torch.tensor(s, dtype=torch.float32).double()
            valid[i, : len(s)] = True
    return fv, valid


def compare(out, ref, first, where, rec, H, W):
    pix, z, bary, dist = out
    fid, rz, rb, rd, skip = ref
    N, P, K = fid.shape
    pix, z, bary, dist = pix.reshape(N, P, K), z.reshape(N, P, K), bary.reshape(N, P, K, 3), dist.reshape(N, P, K)
    gid = torch.where(fid >= 0, fid + first[:, None, None], fid)
    use = ~skip
    rec.count("pixels", int(use.sum()))
    rec.count("skipped_pixels", int(skip.sum()))

    def fail(bad, what, got, want):
        n, p, k = bad.nonzero()[0].tolist()[:3]
        v = Violation("%s: scene %d pixel (row %d, col %d) slot %d: %s is %s, want %s" % (
            where, n, p // W, p % W, k, what, got[n, p, k].tolist(), want[n, p, k].tolist()))
        v.scene = n
        raise v
    bad = (pix != gid) & use[:, :, None]
    if bool(bad.any()):
        fail(bad, "the face", pix, gid)
    for what, g, w in (("the depth", z, rz), ("the signed squared distance", dist, rd)):
        bad = ~((g.double() - w).abs() <= 2e-4 + 2e-4 * w.abs()) & use[:, :, None]
        if bool(bad.any()):
            fail(bad, what, g, w)
    bad = ~((bary.double() - rb).abs() <= 5e-4 + 5e-4 * rb.abs()).all(-1) & use[:, :, None]
    if bool(bad.any()):
        fail(bad, "the barycentric coordinate", bary, rb)


def settings(tier):
    sizes = SIZES_T if tier == "thorough" else SIZES
    return [(s, b) for s in sizes for b in (0.0, 0.02, 0.5)]


def cases(tier):
    t = tier == "thorough"
    names = [["single", 10 if t else 8, i] for i in range(len(ZPAT))] + [["pairs"], ["subsets"]]
    names += [["triples", 13 if t else 8, a] for a in range(13 if t else 8)]
    out = []
    for nm in names:
        Ks = {"single": [1, 2], "pairs": [1, 2, 3], "triples": [1, 2, 3], "subsets": [1, 3, 8]}[nm[0]]
        for (s, b) in settings(tier):
            out.append(["forward", nm, list(s), b, Ks])
    for nm in names:
        if nm[0] == "subsets" and not t:
            continue
        for (s, b) in settings(tier):
            if t or s in ((3, 2), (4, 4)):
                out.append(["grad", nm, list(s), b, 2])
    for H in range(1, 10):
        out.append(["threads", H])
    for s in range(1, 9):
        for bs in range(1, s + 1):
            out.append(["coarse", s, bs])
    for cam in ("persp", "ortho", "fovp", "fovo"):
        for lay in ("one", "per"):
            for s in ((4, 4), (3, 5), (6, 2)):
                out.append(["camera", cam, lay, list(s)])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def run_forward(case, rec):
    _, nm, (H, W), blur, Ks = case[:5]
    sc = scenes(nm) if not isinstance(nm, dict) else nm["scenes"]
    # an empty mesh between the scenes must not shift anything
    sc = sc[:1] + [[]] + sc[1:] if any(len(s) for s in sc) else sc
    fv, valid = pad_scenes(sc)
    meshes, _ = to_meshes(sc)
    first = meshes.mesh_to_faces_packed_first_idx()
    for persp, clip, cull in FLAGS:
        for K in Ks:
            out = rasterize_meshes(meshes, image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp,
                                   clip_barycentric_coords=clip, cull_backfaces=cull)
            ref = reference(fv, valid, H, W, blur, K, persp, clip, cull)
            rec.step(len(sc))
            try:
                compare(out, ref, first, "image %dx%d blur %s K %d perspective %s clip %s cull %s" % (H, W, blur, K, persp, clip, cull), rec, H, W)
            except Violation as e:
                n = e.scene
                e.args = (e.args[0] + " (triangles %s)" % (sc[n],),)
                e.case = ["forward", {"scenes": sc[max(0, n - 1): n + 1]}, [H, W], blur, [K]]
                raise
            rec.state([ref[0], H, W, persp, clip])
    rec.trace(len(sc) * len(FLAGS) * len(Ks))


def weights(shape, salt):
    n = 1
    for s in shape:
        n *= s
    x = (torch.arange(n, dtype=torch.float64) + 1 + 97 * salt) * 0.6180339887498949
    return ((x - x.floor()) * 2 - 1).reshape(shape)


def run_grad(case, rec):
    _, nm, (H, W), blur, K = case
    sc = [s for s in scenes(nm) if s]
    fv0, valid = pad_scenes(sc)
    for persp, clip, cull in FLAGS:
        if cull and nm[0] != "single":
            continue
        meshes, verts = to_meshes(sc, grad=True)
        pix, z, bary, dist = rasterize_meshes(meshes, image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp,
                                              clip_barycentric_coords=clip, cull_backfaces=cull)
        N, P = len(sc), H * W
        first = meshes.mesh_to_faces_packed_first_idx()
        loc = torch.where(pix >= 0, pix - first[:, None, None, None], pix).reshape(N, P, K)
        # pixels at a kink of the distance (two nearest edges), of the clamp, or of a denominator have no derivative: weight zero
        f = fv0.clone().requires_grad_(True)
        gi = loc.clamp(min=0)[..., None, None].expand(N, P, K, 3, 3).reshape(N, P * K, 3, 3)
        sel = f.gather(1, gi).reshape(N, P, K, 3, 3)
        px = pixel_centers(H, W)[None, :, None].expand(N, P, K, 2)
        wb, wz, wd, margin, area, den = attributes(sel, px, persp, clip)
        a, b, c = sel[..., 0, :2], sel[..., 1, :2], sel[..., 2, :2]
        ds = torch.stack([seg_dist2(px, a, b), seg_dist2(px, b, c), seg_dist2(px, a, c)], -1).sort(-1).values
        # a corner is shared by two edges: equal distances with the same derivative there
        ok = (loc >= 0) & (margin.abs() > 1e-3) & (den > 1e-2) & (area.abs() > 1e-6)
        raw, *_ = attributes(sel, px, persp, False)
        ok &= (raw.abs().min(-1).values > 1e-3)
        okd = ok & ((ds[..., 1] - ds[..., 0] > 1e-3) | (ds[..., 1] - ds[..., 0] < 1e-9))
        for which, (real, ref, msk) in {"depth": (z, wz, ok), "distance": (dist, torch.where(margin > 0, -wd, wd), okd),
                                        "barycentric": (bary, wb, ok)}.items():
            u = weights((N, P, K) + ((3,) if which == "barycentric" else ()), 3)
            u = u * (msk[..., None] if which == "barycentric" else msk)
            (g_ref,) = torch.autograd.grad((u * ref).sum(), f, retain_graph=True)
            g = torch.autograd.grad((real.reshape(u.shape) * u.float()).sum(), verts, retain_graph=True, allow_unused=True)
            for n in range(N):
                got = torch.zeros_like(verts[n]) if g[n] is None else g[n]
                want = g_ref[n][valid[n]].reshape(-1, 3)
                try:
                    expect_close("gradient of %s, scene %s, image %dx%d blur %s perspective %s clip %s" % (which, sc[n], H, W, blur, persp, clip),
                                 got, want, atol=3e-3 * (1 + float(want.abs().max())), rtol=5e-3)
                except Violation:
                    raise
            rec.step(N)
        rec.count("gradient_entries", int(ok.sum()))
        rec.state([loc, H, W, persp, clip, "grad"])
    rec.trace(len(sc))


def run_threads(case, rec):
    H = case[1]
    sc = scenes(["subsets"])[1::3]
    meshes, _ = to_meshes(sc)
    want = None
    try:
        for W in (1, 4):
            want = None
            for n in range(1, 9):
                torch.set_num_threads(n)
                out = rasterize_meshes(meshes, image_size=(H, W), blur_radius=0.02, faces_per_pixel=3)
                rec.step()
                if want is None:
                    want = [o.clone() for o in out]
                    fv, valid = pad_scenes(sc)
                    compare(out, reference(fv, valid, H, W, 0.02, 3, False, False, False), meshes.mesh_to_faces_packed_first_idx(),
                            "image %dx%d, one worker" % (H, W), rec, H, W)
                for a, b in zip(out, want):
                    expect(torch.equal(a, b), "image %dx%d: the result with %d workers differs from one worker" % (H, W, n))
    finally:
        torch.set_num_threads(1)
    rec.trace(8)
    rec.state([H, "threads", want[0]])


def run_coarse(case, rec):
    _, S, bs = case
    sc = scenes(["subsets"])[1::5] + [[]] + [[t[0]] for t in scenes(["pairs"])[:: len(TRI)]]
    meshes, _ = to_meshes(sc)
    fvp = meshes.verts_packed()[meshes.faces_packed()]
    first = meshes.mesh_to_faces_packed_first_idx()
    nf = meshes.num_faces_per_mesh()
    fv, valid = pad_scenes(sc)
    for blur in (0.0, 0.02, 0.5):
        bins = _C._rasterize_meshes_coarse(fvp, first, nf, (S, S), blur, bs, 12)
        ref = reference(fv, valid, S, S, blur, 8, False, False, False)
        rec.step()
        nb = 1 + (S - 1) // bs
        expect(tuple(bins.shape) == (len(sc), nb, nb, 12), "coarse bins have shape %s" % (tuple(bins.shape),))
        for n in range(len(sc)):
            lists = [[[int(q) for q in bins[n, by, bx] if q >= 0] for bx in range(nb)] for by in range(nb)]
            lo, hi = int(first[n]), int(first[n]) + int(nf[n])
            for by in range(nb):
                for bx in range(nb):
                    li = lists[by][bx]
                    expect(len(set(li)) == len(li) and all(lo <= q < hi for q in li), "image %d bin size %d: bin lists %s for faces %d..%d" % (S, bs, li, lo, hi))
            for p in range(S * S):
                r, c = p // S, p % S
                for q in ref[0][n, p].tolist():
                    if q >= 0:
                        expect(lo + q in lists[(S - 1 - r) // bs][(S - 1 - c) // bs],
                               "image %d bin size %d blur %s: face %d covers pixel (%d, %d) but is missing in its bin" % (S, bs, blur, q, r, c))
        rec.state([bins, S, bs])
    rec.trace(len(sc))


def run_camera(case, rec):
    _, cam, lay, (H, W) = case
    sc = [[tri(k), tri((k + 3) % 11)] for k in range(11)] + [[]]
    sc = [[[[x * 0.9, y * 0.9, z + 1.0] for x, y, z in t] for t in s] for s in sc]
    N = len(sc)
    n = 1 if lay == "one" else N
    ang = torch.arange(n, dtype=torch.float64) * 0.07 - 0.3
    R = torch.zeros(n, 3, 3, dtype=torch.float64)
    R[:, 0, 0] = R[:, 1, 1] = ang.cos()
    R[:, 0, 1], R[:, 1, 0] = ang.sin(), -ang.sin()
    R[:, 2, 2] = 1
    T = torch.stack([0.1 * ang, -0.2 * ang, 0.5 + ang.abs()], -1)
    f = torch.stack([1.1 + 0.3 * ang, 0.9 - 0.2 * ang], -1)
    pp = torch.stack([0.1 - ang, 0.05 + 0.3 * ang], -1) * 0.3
    kw = dict(R=R.float(), T=T.float())
    if cam == "persp":
        cams = PerspectiveCameras(focal_length=f.float(), principal_point=pp.float(), **kw)
    elif cam == "ortho":
        cams = OrthographicCameras(focal_length=f.float(), principal_point=pp.float(), **kw)
    elif cam == "fovp":
        cams = FoVPerspectiveCameras(znear=0.05, zfar=50.0, fov=(60 + 20 * ang).float(), aspect_ratio=(1.0 + 0.2 * ang).float(), **kw)
        s = 1 / torch.tan((60 + 20 * ang) * torch.pi / 360)
        f, pp = torch.stack([s / (1.0 + 0.2 * ang), s], -1), torch.zeros(n, 2, dtype=torch.float64)
    else:
        cams = FoVOrthographicCameras(znear=0.05, zfar=50.0, max_y=(1 + 0.1 * ang).float(), min_y=(-1 + 0.2 * ang).float(),
                                      max_x=(1.2 + 0.1 * ang).float(), min_x=(-0.9 + ang * 0.1).float(), **kw)
        mxy, mny, mxx, mnx = 1 + 0.1 * ang, -1 + 0.2 * ang, 1.2 + 0.1 * ang, -0.9 + ang * 0.1
        f = torch.stack([2 / (mxx - mnx), 2 / (mxy - mny)], -1)
        pp = torch.stack([-(mxx + mnx) / (mxx - mnx), -(mxy + mny) / (mxy - mny)], -1)
    meshes, _ = to_meshes(sc)
    fv, valid = pad_scenes(sc)
    view = fv @ (R.expand(N, 3, 3)[:, None]) + T.expand(N, 3)[:, None, None]
    xy = view[..., :2]
    if cam in ("persp", "fovp"):
        xy = xy / view[..., 2:]
    ndc = torch.cat([xy * f.expand(N, 2)[:, None, None] + pp.expand(N, 2)[:, None, None], view[..., 2:]], -1)
    if H != W and cam in ("persp", "ortho", "fovp", "fovo"):
        pass  # NDC cameras: the shorter side spans [-1, 1] and the coordinates are used as they are
    for blur in (0.0, 0.05):
        for setp in (None, True, False):
            for setc in (None, True, False):
                for K in (1, 3):
                    persp = cam in ("persp", "fovp") if setp is None else setp
                    clip = blur > 0 if setc is None else setc
                    rs = RasterizationSettings(image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=setp,
                                               clip_barycentric_coords=setc)
                    for form in (0, 1):
                        if form:
                            fr = MeshRasterizer()(meshes, cameras=cams, raster_settings=rs)
                        else:
                            fr = MeshRasterizer(cameras=cams, raster_settings=rs)(meshes)
                        ref = reference(ndc, valid, H, W, blur, K, persp, clip, False)
                        compare((fr.pix_to_face, fr.zbuf, fr.bary_coords, fr.dists), ref, meshes.mesh_to_faces_packed_first_idx(),
                                "camera %s (%s) image %dx%d blur %s perspective_correct %s clip_barycentric %s K %d" % (
                                    cam, lay, H, W, blur, setp, setc, K), rec, H, W)
                        rec.step(N)
    rec.trace(N)
    rec.state([cam, lay, H, W])
