"""C11: near-plane clipping and frustum culling against a float64 ray/plane reference on complete sets of triangles and batches."""
import itertools

import torch
from mc.core import Violation, expect, expect_close
from checks.c10_raster import cross, pixel_centers, seg_dist2

from pytorch3d.renderer import FoVPerspectiveCameras, MeshRasterizer, PerspectiveCameras, RasterizationSettings
from pytorch3d.renderer.mesh.clip import clip_faces, ClipFrustum
from pytorch3d.renderer.mesh.rasterize_meshes import rasterize_meshes, rasterize_meshes_python
from pytorch3d.structures import Meshes

PROPERTY = "C11"
ASSUMPTIONS = [
    "the clipping depth is positive; CPU rasterizer (no GPU here)",
    "pixels whose coverage, blur or depth order is decided by less than 1e-4, or that lie on the seam between the two pieces of a clipped face (where, as on every "
    "shared edge, neither piece covers a pixel exactly on it), are skipped and counted",
    "with a blur radius, the distance of a pixel inside a clipped face is that to the nearest edge of its piece; only its sign is specified",
    "a blurred pixel that looks past the horizon of a face (projected depth below 0.02) is skipped",
]
BOUNDS = {
    "quick": "all triangles of 5 view-space layouts x 6^3 vertex depths around the plane x perspective/linear x 2 clipping depths x frustum culling x backface "
             "culling x 5 image sizes x blur 0/.02/.3 x K 1..2; clip_faces on every one of them (pieces, orientation, area, barycentric conversion) with every "
             "subset of the 6 frustum planes; every batch of 1..3 meshes over 9 meshes (empty, behind, front, both clip cases, mixed); gradients of depth and "
             "barycentric coordinates for every single triangle; MeshRasterizer with 3 cameras; the Python rasterizer on every 7th",
    "thorough": "as quick with 8 layouts, 7^3 depths, 7 image sizes and gradients at both clipping depths",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64

# view-space X, Y directions: the triangles' points are (X, Y, Z) with X, Y fixed per vertex
LAY = [
    [(-0.53, -0.61), (0.67, -0.43), (0.11, 0.71)],
    [(0.67, -0.43), (-0.53, -0.61), (0.11, 0.71)],
    [(-1.31, 0.17), (0.23, -1.13), (1.07, 1.21)],
    [(0.31, 0.43), (1.73, 0.37), (1.19, 1.61)],
    [(1.37, -0.29), (2.11, 0.53), (1.61, 0.91)],
    [(-0.93, -1.51), (0.71, -1.67), (-0.17, -1.23)],
    [(0.05, 0.02), (0.03, -0.04), (-0.06, 0.01)],
    [(-3.1, 2.3), (4.7, 1.9), (0.3, -2.7)],
]
Z = [-1.0, -0.25, 0.25, 0.5, 0.9, 2.0]
Z_T = Z + [-3.0]
CLIP = [0.5, 0.3]
SIZES = [(5, 5), (4, 7), (7, 3), (1, 2), (6, 6)]
SIZES_T = SIZES + [(9, 4), (2, 9)]


def singles(layouts, zs):
    return [[[x, y, z] for (x, y), z in zip(LAY[l], zz)] for l in layouts for zz in itertools.product(zs, repeat=3)]


# meshes of the batch alphabet: lists of triangles in view space
def T(l, *z):
    return [[x, y, zz] for (x, y), zz in zip(LAY[l], z)]


MESH = [
    [],
    [T(0, 1.0, 2.0, 1.5)],
    [T(0, -1.0, -0.2, 0.3)],
    [T(2, 1.0, -0.4, 0.2)],
    [T(2, -0.5, 0.9, 1.4)],
    [T(1, 1.2, 0.1, 0.9), T(0, 3.0, 2.5, 2.2), T(2, -0.5, -1, -2)],
    [T(4, 1.0, 1.1, 1.2), T(0, 0.2, 0.7, 0.1), T(5, 0.4, 0.9, 1.0)],
    [T(2, 0.9, 0.8, 0.2), T(1, 1.5, -1.0, -0.5)],
    [T(3, 1.0, 0.7, -0.6), T(2, -0.3, 2.0, 2.0), T(0, 2.0, 2.0, 2.5), T(1, 0.6, 0.6, 0.45)],
]


def ndc(tris, persp):
    t = torch.tensor(tris, dtype=f64).reshape(-1, 3, 3)
    if persp:
        t = torch.cat([t[..., :2] / t[..., 2:], t[..., 2:]], -1)
    return t.float()


def make(scenes, persp, grad=False):
    vs = [ndc(s, persp).reshape(-1, 3) for s in scenes]
    if grad:
        for v in vs:
            v.requires_grad_(True)
    return Meshes(verts=vs, faces=[torch.arange(len(v)).reshape(-1, 3) for v in vs]), vs


def view(fv, persp):
    """NDC (float32 values) -> view space in double"""
    fv = fv.double()
    return torch.cat([fv[..., :2] * fv[..., 2:], fv[..., 2:]], -1) if persp else fv


def solve(fv, px, persp):
    """fv (..., 3, 3) NDC double, px (P, 2) -> w (..., P, 3), z (..., P), orientation (...): > 0 is front"""
    V = view(fv, persp)
    one = torch.ones(px.shape[0], 1, dtype=f64)
    if persp:
        M = V.transpose(-1, -2)  # columns are vertices
        det = torch.linalg.det(M)
        ok = det.abs() > 1e-7
        M = torch.where(ok[..., None, None], M, torch.eye(3, dtype=f64).expand(M.shape))
        w = torch.einsum("...ij,pj->...pi", torch.linalg.inv(M), torch.cat([px, one], 1))
        s = w.sum(-1)
        s = torch.where(s.abs() > 1e-9, s, torch.full_like(s, 1e-9))
        return w / s[..., None], 1 / s, torch.where(ok, -det, torch.zeros_like(det))
    a, b, c = (V[..., None, i, :2] for i in range(3))
    area = cross(V[..., 2, :2] - V[..., 0, :2], V[..., 1, :2] - V[..., 0, :2])
    ok = area.abs() > 1e-7
    sa = torch.where(ok, area, torch.ones_like(area))[..., None]
    w = torch.stack([cross(c - px, b - px) / sa, cross(a - px, c - px) / sa, cross(b - px, a - px) / sa], -1)
    return w, (w * V[..., None, :, 2]).sum(-1), torch.where(ok, area, torch.zeros_like(area))


def clip_poly(fv, persp, zc):
    """the part with z >= zc of one NDC triangle (double) as NDC polygon with barycentric coordinates: list of (xyz, bary)"""
    V = view(fv, persp)
    pts = [(V[i], torch.eye(3, dtype=f64)[i]) for i in range(3)]
    if zc is not None:
        out = []
        for i in range(3):
            (p, a), (q, b) = pts[i], pts[(i + 1) % 3]
            if p[2] >= zc:
                out.append((p, a))
            if (p[2] >= zc) != (q[2] >= zc):
                t = (p[2] - zc) / (p[2] - q[2])
                out.append((p + t * (q - p), a + t * (b - a)))
        pts = out
    if persp:
        pts = [(torch.cat([p[:2] / p[2], p[2:]]), b) for p, b in pts]
    return pts


_poly = {}


def poly_dist(fv, persp, zc, px):
    """squared distance of every pixel to the boundary of the visible polygon and to the seams (lines between its corners)"""
    key = (tuple(fv.reshape(-1).tolist()), persp, zc)
    if key not in _poly:
        if len(_poly) > 5000:
            _poly.clear()
        _poly[key] = [p[:2] for p, _ in clip_poly(fv, persp, zc)]
    pts = _poly[key]
    inf = torch.full((px.shape[0],), float("inf"), dtype=f64)
    if len(pts) < 3:
        return inf, inf
    d = inf
    for i in range(len(pts)):
        d = torch.minimum(d, seg_dist2(px, pts[i], pts[(i + 1) % len(pts)]))
    s = inf
    if len(pts) == 4:
        for i, j in ((0, 2), (1, 3)):
            s = torch.minimum(s, seg_dist2(px, pts[i], pts[j]))
    return d, s


def reference(fv, valid, H, W, persp, zc, blur, cull, K, clip_bary=False):
    """fv (N, F, 3, 3) -> face id, z, bary, sign, outside distance, skip; all per pixel and slot"""
    N, F = valid.shape
    px = pixel_centers(H, W)
    P = H * W
    w, z, orient = solve(fv, px, persp)
    usable = valid & (orient.abs() > 0)
    if zc is None:
        usable = usable & (fv[..., 2].min(-1).values > 1e-8)
        lim = -1e9
    else:
        whole = fv[..., 2].min(-1).values >= zc  # all of the face is visible
        usable = usable & (whole | (fv[..., 2].max(-1).values > zc + 1e-5))
        lim = torch.where(whole, -1e9, zc)[..., None]
    if cull:
        usable = usable & (orient > 0)
    u = usable[..., None]
    m = torch.minimum(w.min(-1).values, z - lim)
    if persp:  # past the horizon
        m = torch.where(z > 0, m, torch.full_like(m, -1.0))
    inside = u & (m > 0)
    d = torch.full((N, F, P), float("inf"), dtype=f64)
    seam = torch.full((N, F, P), float("inf"), dtype=f64)
    for n in range(N):
        for f in range(F):
            if usable[n, f]:
                d[n, f], seam[n, f] = poly_dist(fv[n, f], persp, zc, px)
    skip = u & ((m.abs() < 1e-4) | (d < 1e-8)) | (inside & (seam < 1e-8))
    hit = inside
    if blur > 0:
        near = u & ~inside & (d < blur + 1e-5)
        skip = skip | (near & ((d - blur).abs() < 1e-5))
        if not clip_bary:
            skip = skip | (near & (z.abs() < 0.02)) | (near & (1 / z < 0.05) if persp else near & (z.abs() < 1e-4))
            hit = hit | (near & (d < blur) & (z >= 0))
        else:
            hit = hit | (near & (d < blur))
    zz = torch.where(hit, z, torch.full_like(z, float("inf"))).transpose(1, 2)
    o = torch.sort(zz, dim=-1, stable=True).indices
    zs = zz.gather(-1, o)
    sk = skip.any(1)
    if F > 1:
        g = zs[..., 1:] - zs[..., :-1]
        sk = sk | ((g < 1e-4) & torch.isfinite(zs[..., 1:]))[..., :K].any(-1)
    return dict(order=o, zs=zs, w=w, inside=inside, d=d, skip=sk, hit=hit)


def compare(out, R, first, K, where, rec, H, W, bary_out=True, clip_bary=False):
    pix, zb, bary, dist = out
    N, P, F = R["zs"].shape
    pix, zb, bary, dist = pix.reshape(N, P, K), zb.reshape(N, P, K), bary.reshape(N, P, K, 3), dist.reshape(N, P, K)
    use = ~R["skip"]
    rec.count("pixels", int(use.sum()))
    rec.count("skipped_pixels", int(R["skip"].sum()))

    def bad(mask, what, got, want):
        if bool(mask.any()):
            n, p = mask.nonzero()[0].tolist()[:2]
            raise Violation(f"{where}: scene {n} pixel (row {p // W}, col {p % W}): {what} {got[n, p].tolist()}, want {want[n, p].tolist()}")
    for k in range(K):
        if k >= F:
            bad((pix[..., k] != -1) & use, f"slot {k}: face", pix[..., k], torch.full_like(pix[..., k], -1))
            continue
        o = R["order"][..., k]
        found = torch.isfinite(R["zs"][..., k])
        want = torch.where(found, o + first[:, None], torch.full_like(o, -1))
        ins = R["inside"].transpose(1, 2).gather(-1, o[..., None])[..., 0]
        if clip_bary:  # blurred pixels have a clipped depth, which may reorder them: identify only covered pixels with no blurred ones
            u = use & (R["inside"] == R["hit"]).all(1)
        else:
            u = use
        bad((pix[..., k] != want) & u, f"slot {k}: face", pix[..., k], want)
        on = found & u & (ins if clip_bary else torch.ones_like(ins))
        zr = torch.where(found, R["zs"][..., k], torch.full_like(R["zs"][..., k], -1))
        bad(~((zb[..., k].double() - zr).abs() <= 2e-4 + 1e-3 * zr.abs()) & on, f"slot {k}: depth", zb[..., k], zr)
        wr = R["w"].transpose(1, 2).gather(2, o[..., None, None].expand(N, P, 1, 3))[:, :, 0]
        bad(~((bary[:, :, k].double() - wr).abs() <= 5e-4 + 1e-3 * wr.abs().max(-1, keepdim=True).values).all(-1) & on, f"slot {k}: barycentric coordinates", bary[:, :, k], wr)
        dr = R["d"].transpose(1, 2).gather(-1, o[..., None])[..., 0]
        ds = dist[..., k].double()
        bad(((ds > 0) & ins) & on, f"slot {k}: signed distance of a covered pixel", ds, -dr)
        bad(((ds.abs() > dr + 1e-4 + 1e-3 * dr) & ins) & on, f"slot {k}: distance of a covered pixel (at most)", ds.abs(), dr)
        bad((~((ds - dr).abs() <= 1e-4 + 2e-3 * dr) & ~ins) & on, f"slot {k}: distance of an uncovered pixel", ds, dr)


def pad(scenes, persp):
    F = max(1, max(len(s) for s in scenes))
    fv = torch.zeros(len(scenes), F, 3, 3, dtype=f64)
    valid = torch.zeros(len(scenes), F, dtype=torch.bool)
    for i, s in enumerate(scenes):
        if s:
            fv[i, :len(s)] = ndc(s, persp).double()
            valid[i, :len(s)] = True
    return fv, valid


def cases(tier):
    th = tier == "thorough"
    lays = range(len(LAY)) if th else (0, 1, 2, 3, 4)
    out = []
    for l in lays:
        for persp in (True, False):
            for zc in CLIP:
                for s in (SIZES_T if th else SIZES):
                    out.append(dict(kind="single", lay=l, persp=persp, zc=zc, size=s, th=th))
                out.append(dict(kind="faces", lay=l, persp=persp, zc=zc, th=th))
                if th or zc == CLIP[0]:
                    out.append(dict(kind="grad", lay=l, persp=persp, zc=zc, th=th))
            out.append(dict(kind="faces", lay=l, persp=persp, zc=None, th=th))
        out.append(dict(kind="python", lay=l))
    for n in (1, 2, 3):
        for a in range(len(MESH)):
            for persp in (True, False):
                out.append(dict(kind="batch", n=n, first=a, persp=persp))
    for cam in range(3):
        for size in ((6, 6), (4, 8), (7, 3)):
            out.append(dict(kind="camera", cam=cam, size=size))
    return out


def run_single(c, rec):
    H, W = c["size"]
    scenes = [[t] for t in singles([c["lay"]], Z_T if c["th"] else Z)]
    m, _ = make(scenes, c["persp"])
    fv, valid = pad(scenes, c["persp"])
    first = torch.arange(len(scenes))
    for blur, K, frustum, cull, cb in itertools.product((0.0, 0.02, 0.3), (1, 2), (False, True), (False, True), (False, True)):
        if blur == 0 and cb or K == 2 and (cull or blur == 0.02):
            continue
        where = f"layout {c['lay']}, {'perspective' if c['persp'] else 'linear'}, clip at {c['zc']}, image {H}x{W}, blur {blur}, K={K}, frustum culling {frustum}, " \
                f"backface culling {cull}, clipped barycentrics {cb}"
        out = rasterize_meshes(m, image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=c["persp"], clip_barycentric_coords=cb,
                               cull_backfaces=cull, z_clip_value=c["zc"], cull_to_frustum=frustum)
        rec.step(len(scenes))
        R = reference(fv, valid, H, W, c["persp"], c["zc"], blur, cull, K, cb)
        compare(out, R, first, K, where, rec, H, W, clip_bary=cb)
    for i in range(len(scenes)):
        rec.state((c["lay"], c["persp"], c["zc"], c["size"], i))
    rec.trace()


PL = [("left", 0, -1), ("right", 0, 1), ("top", 1, -1), ("bottom", 1, 1), ("znear", 2, -1), ("zfar", 2, 1)]


def outside_area(poly, planes):
    """area (in barycentric measure) left of the polygon inside all planes; poly = list of (ndc xyz, bary), planes = (axis, sign, value)"""
    pts = poly
    for ax, sg, val in planes:
        out = []
        for i in range(len(pts)):
            p, q = pts[i], pts[(i + 1) % len(pts)]
            a, b = sg * (val - p[ax]), sg * (val - q[ax])
            if a >= 0:
                out.append(p)
            if (a > 0 and b < 0) or (a < 0 and b > 0):
                t = a / (a - b)
                out.append([x + t * (y - x) for x, y in zip(p, q)])
        pts = out
        if not pts:
            return 0.0
    s = 0.0
    for i in range(1, len(pts) - 1):
        u = [x - y for x, y in zip(pts[i], pts[0])]
        v = [x - y for x, y in zip(pts[i + 1], pts[0])]
        s += abs(u[0] * v[1] - u[1] * v[0]) / 2
    return s


def run_faces(c, rec):
    tris = singles([c["lay"]], Z_T if c["th"] else Z)
    persp, zc = c["persp"], c["zc"]
    fvn = ndc(tris, persp)
    F = len(tris)
    counts = torch.tensor([F // 3, 0, F - F // 3, 0])  # a batch with empty meshes in the middle and at the end
    firsts = torch.cat([torch.zeros(1, dtype=torch.int64), counts.cumsum(0)[:-1]])
    polys = [clip_poly(fvn[i].double(), persp, zc) for i in range(F)]
    V = view(fvn, persp)
    vals = dict(left=-0.8, right=0.9, top=-0.7, bottom=0.6, znear=0.4, zfar=1.4)
    for mask in range(64):
        used = [PL[k] for k in range(6) if mask >> k & 1]
        kw = {n: vals[n] for n, _, _ in used}
        where = f"clip_faces of layout {c['lay']}, {'perspective' if persp else 'linear'}, clip at {zc}, planes {sorted(kw)}"
        res = clip_faces(fvn.clone(), firsts.clone(), counts.clone(), ClipFrustum(**kw, perspective_correct=persp, cull=bool(used), z_clip_value=zc))
        rec.step(F)
        back = res.faces_clipped_to_unclipped_idx
        n_out = res.face_verts.shape[0]
        if back is None:
            expect(n_out == F, f"{where}: no map to the original faces, but {n_out} faces of {F}")
            back = torch.arange(F)
        bl = back.tolist()
        expect(bl == sorted(bl), f"{where}: pieces are out of order")
        pieces = [[] for _ in range(F)]
        for j, i in enumerate(bl):
            pieces[i].append(j)
        # the batch layout
        own = [0 if i < int(counts[0]) else 2 for i in bl]
        wc = [own.count(k) for k in range(4)]
        expect(res.num_faces_per_mesh.tolist() == wc, f"{where}: faces per mesh {res.num_faces_per_mesh.tolist()}, want {wc}")
        wf = [0, wc[0], wc[0], wc[0] + wc[2]]
        gf = res.mesh_to_face_first_idx.tolist()
        expect(all(g == w for g, w, k in zip(gf, wf, wc) if k > 0), f"{where}: first faces {gf}, want {wf}")
        conv, cidx, nb = res.barycentric_conversion, res.faces_clipped_to_conversion_idx, res.clipped_faces_neighbor_idx
        for i in range(F):
            poly = polys[i]
            zv = [float(x) for x in fvn[i, :, 2]]
            P = pieces[i]
            planes = [(ax, sg, vals[n]) for n, ax, sg in used]
            if not P:
                if zc is not None and max(zv) < zc:
                    continue
                if zc is None and persp and min(zv) <= 0:
                    continue  # not drawn
                pp = [p.tolist() for p, _ in poly]
                left = outside_area(pp, planes)
                expect(left <= 1e-6, f"{where}: face {tris[i]} is removed, but {left:.4g} of its visible area {outside_area(pp, []):.4g} is inside the frustum")
                continue
            in_front = min(zv) > 0 or not persp
            if in_front:
                gone = [n for n, ax, sg in used if all(sg * (float(fvn[i, k, ax]) - vals[n]) > 0 for k in range(3))]
                expect(not gone, f"{where}: face {tris[i]} is kept, but lies wholly beyond the {gone} plane")
            expect(zc is None or max(zv) >= zc, f"{where}: face {tris[i]} lies behind the clipping plane, but is kept")
            nvis = sum(z >= zc for z in zv) if zc is not None else 3
            want_n = 2 if nvis == 2 else 1
            expect(len(P) == want_n, f"{where}: face {tris[i]} with {nvis} visible corners gives {len(P)} pieces")
            if mask not in (0, 1, 2, 4, 8, 16, 32, 45, 63):  # the geometry of the pieces does not depend on the culling
                continue
            tot = 0.0
            for j in P:
                fv = res.face_verts[j].double()
                if nvis == 3:
                    expect(bool((fv == fvn[i].double()).all()), f"{where}: face {tris[i]} is wholly visible, but changed to {fv.tolist()}")
                    expect(cidx is None or int(cidx[j]) == -1, f"{where}: face {tris[i]} is wholly visible, but its barycentric coordinates are converted")
                    expect(nb is None or int(nb[j]) == -1, f"{where}: unclipped face has a neighbour")
                    continue
                B = conv[int(cidx[j])].double()  # columns: corners of the piece
                expect(bool(((B > -1e-6) & (B < 1 + 1e-6)).all()) and bool(((B.sum(0) - 1).abs() < 1e-5).all()),
                       f"{where}: face {tris[i]} piece {j}: corners {B.T.tolist()} are not in the triangle")
                Pv = (V[i].T @ B).T  # corners in view space
                want = torch.cat([Pv[:, :2] / Pv[:, 2:], Pv[:, 2:]], 1) if persp else Pv
                expect_close(f"{where}: face {tris[i]} piece {j} corners against its barycentric conversion", fv, want, atol=2e-5, rtol=1e-4)
                expect(bool((fv[:, 2] >= zc - 1e-5).all()), f"{where}: face {tris[i]} piece {j} reaches behind the plane: {fv.tolist()}")
                det = float(torch.linalg.det(B))
                # a piece of no area (a corner exactly on the plane) has no orientation
                expect(det > -1e-6, f"{where}: face {tris[i]} piece {j} is turned over")
                tot += det
                wantnb = (P[0] + P[1] - j) if len(P) == 2 else -1
                expect(int(nb[j]) == wantnb, f"{where}: face {tris[i]} piece {j} has neighbour {int(nb[j])}, want {wantnb}")
            if nvis < 3:
                # Sutherland-Hodgman area in barycentric measure
                w = 0.0
                bs = [b for _, b in poly]
                for k in range(1, len(bs) - 1):
                    w += float(torch.linalg.det(torch.stack([bs[0], bs[k], bs[k + 1]])))
                expect(abs(tot - w) < 1e-5, f"{where}: the pieces of face {tris[i]} cover {tot:.6g} of it, the visible part is {w:.6g}")
        rec.state((c["lay"], persp, zc, mask))
    rec.trace()


def run_grad(c, rec):
    scenes = [[t] for t in singles([c["lay"]], Z_T if c["th"] else Z)]
    persp, zc = c["persp"], c["zc"]
    for H, W in ((5, 5), (3, 6)):
        m, vs = make(scenes, persp, grad=True)
        pix, zb, bary, dist = rasterize_meshes(m, image_size=(H, W), blur_radius=0.0, faces_per_pixel=1, perspective_correct=persp, z_clip_value=zc)
        fv, valid = pad(scenes, persp)
        R = reference(fv, valid, H, W, persp, zc, 0.0, False, 1)
        N, P = len(scenes), H * W
        ok = (R["inside"][:, 0] & ~R["skip"])
        leaf = fv.clone().requires_grad_(True)
        w, z, _ = solve(leaf, pixel_centers(H, W), persp)
        gz = ((torch.arange(N * P) * 7 % 5) - 2.0).reshape(N, P).double() * ok
        gb = ((torch.arange(N * P * 3) * 5 % 7) - 3.0).reshape(N, P, 3).double() * ok[..., None]
        for which in ("depth", "barycentric coordinates"):
            if which == "depth":
                g = torch.autograd.grad((zb.reshape(N, P).double() * gz).sum(), vs, retain_graph=True, allow_unused=True)
                want, = torch.autograd.grad((torch.where(ok, z[:, 0], torch.zeros_like(z[:, 0])) * gz).sum(), leaf, retain_graph=True)
            else:
                g = torch.autograd.grad((bary.reshape(N, P, 3).double() * gb).sum(), vs, retain_graph=True, allow_unused=True)
                want, = torch.autograd.grad((torch.where(ok[..., None], w[:, 0], torch.zeros_like(w[:, 0])) * gb).sum(), leaf, retain_graph=True)
            g = torch.stack([x if x is not None else torch.zeros(3, 3) for x in g]).double()
            want = want[:, 0]
            rec.step(N)
            scale = want.abs().amax((1, 2), keepdim=True)
            bad = ((g - want).abs() > 2e-3 + 5e-3 * scale).any(-1).any(-1)
            if bool(bad.any()):
                i = int(bad.nonzero()[0])
                raise Violation(f"gradient of {which}, {'perspective' if persp else 'linear'}, clip at {zc}, image {H}x{W}, triangle {scenes[i][0]}: "
                                f"{g[i].tolist()}, want {want[i].tolist()}")
        rec.state((c["lay"], persp, zc, H, "grad"))
    rec.trace()


def run_batch(c, rec):
    persp = c["persp"]
    for rest in itertools.product(range(len(MESH)), repeat=c["n"] - 1):
        b = (c["first"],) + rest
        scenes = [MESH[i] for i in b]
        if not any(scenes):
            continue
        m, _ = make(scenes, persp)
        fv, valid = pad(scenes, persp)
        first = torch.tensor([sum(len(s) for s in scenes[:i]) for i in range(len(scenes))])
        for (H, W), zc, K, frustum, blur in (((5, 5), 0.5, 2, False, 0.0), ((4, 7), 0.3, 3, True, 0.0), ((5, 4), 0.5, 1, True, 0.0), ((3, 5), None, 2, True, 0.0),
                                             ((4, 4), 0.5, 4, False, 0.05), ((2, 5), 0.5, 3, True, 0.05)):
            where = f"batch of meshes {b}, {'perspective' if persp else 'linear'}, clip at {zc}, image {H}x{W}, K={K}, frustum culling {frustum}, blur {blur}"
            out = rasterize_meshes(m, image_size=(H, W), blur_radius=blur, faces_per_pixel=K, perspective_correct=persp, z_clip_value=zc, cull_to_frustum=frustum)
            rec.step()
            compare(out, reference(fv, valid, H, W, persp, zc, blur, False, K), first, K, where, rec, H, W)
        rec.state((b, persp))
        rec.trace()


def run_python(c, rec):
    """The Python rasterizer clips and culls like the C++ one."""
    scenes = [[t] for t in singles([c["lay"]], Z)][c["lay"]::7]
    for persp, frustum, (H, W) in ((True, False, (3, 3)), (False, True, (2, 4)), (True, True, (4, 2))):
        m, _ = make(scenes, persp)
        fv, valid = pad(scenes, persp)
        out = rasterize_meshes_python(m, image_size=(H, W), blur_radius=0.0, faces_per_pixel=1, perspective_correct=persp, z_clip_value=0.5, cull_to_frustum=frustum)
        rec.step()
        compare(out, reference(fv, valid, H, W, persp, 0.5, 0.0, False, 1), torch.arange(len(scenes)), 1, f"Python rasterizer, layout {c['lay']}, perspective {persp}", rec, H, W)
        rec.state((c["lay"], "python", persp))
    rec.trace()


def run_camera(c, rec):
    """MeshRasterizer on view-space meshes around the camera."""
    H, W = c["size"]
    scenes = [MESH[i] for i in range(len(MESH))]
    meshes = Meshes(verts=[torch.tensor(s, dtype=torch.float32).reshape(-1, 3) for s in scenes], faces=[torch.arange(3 * len(s)).reshape(-1, 3) for s in scenes])
    first = torch.tensor([sum(len(s) for s in scenes[:i]) for i in range(len(scenes))])
    for zset, frustum, K, blur in itertools.product((None, 0.5, 0.3), (False, True), (1, 3), (0.0, 0.05)):
        if c["cam"] == 0:  # focal length 1: no near plane of its own
            cams, zc = PerspectiveCameras(focal_length=1.0), zset
        elif c["cam"] == 1:
            cams, zc = FoVPerspectiveCameras(fov=90.0, znear=0.8), (zset if zset is not None else 0.4)
        else:
            cams = FoVPerspectiveCameras(fov=90.0, znear=torch.tensor([0.8 + 0.1 * i for i in range(len(scenes))]), zfar=torch.full((len(scenes),), 50.0),
                                         R=torch.eye(3)[None].expand(len(scenes), 3, 3), T=torch.zeros(len(scenes), 3))
            zc = zset if zset is not None else 0.4
        rs = RasterizationSettings(image_size=(H, W), blur_radius=blur, faces_per_pixel=K, z_clip_value=zset, cull_to_frustum=frustum,
                                   clip_barycentric_coords=False)
        fr = MeshRasterizer(cams, rs)(meshes)
        fv, valid = pad(scenes, True)
        rec.step()
        where = f"camera {c['cam']}, image {H}x{W}, z_clip_value {zset}, frustum culling {frustum}, K={K}, blur {blur}"
        compare((fr.pix_to_face, fr.zbuf, fr.bary_coords, fr.dists), reference(fv, valid, H, W, True, zc, blur, False, K), first, K, where, rec, H, W)
        rec.state((c["cam"], c["size"], zset, frustum, K, blur))
    rec.trace()


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)
