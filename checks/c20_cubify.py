"""C20: cubify of every occupancy pattern of small grids against the boundary of the occupied cells, counted quad by quad."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops import cubify

PROPERTY = "C20"
ASSUMPTIONS = ["grids with at least two voxels along every axis (the function refuses thinner ones)"]
BOUNDS = {
    "quick": "all occupancy patterns of 2x2x2, 2x2x3, 2x3x2 and 3x2x2 grids, as batches of up to 512 grids and one at a time, 3 alignments, values below, at and above "
             "3 thresholds, 3 voxel dtypes; per-voxel features",
    "thorough": "as quick with all patterns of 2x3x3, 3x2x3 and 3x3x2 (262144 each)",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64
ALIGN = ["topleft", "corner", "center"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for shape in ((2, 2, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2)):
        n = shape[0] * shape[1] * shape[2]
        for ai in range(3):
            for lo in range(0, 1 << n, 512):
                for kind in range(3):
                    out.append(["patterns", list(shape), ai, lo, min(512, 1 << n), kind, lo // 512 % 3 == kind])
    for ai in range(3):
        for lo in range(0, 256, 32):
            out.append(["single", [2, 2, 2], ai, lo])
        out.append(["single", [2, 3, 4], ai, 0])
        out.append(["none", ai])
    if th:
        for shape in ((2, 3, 3), (3, 2, 3), (3, 3, 2)):
            for lo in range(0, 1 << 18, 4096):
                out.append(["patterns", list(shape), lo // 4096 % 3, lo, 4096, lo // 4096 % 3, lo // 8192 % 2 == 0])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


THRESH = [0.5, 0.2, -1.0]


def values(occ, ti):
    """floats above/at/below the threshold"""
    n = occ.numel()
    m = ((torch.arange(n, dtype=torch.float32) * 0.618034) % 1).reshape(occ.shape)
    t = THRESH[ti]
    hi = torch.where(m < 0.3, torch.full_like(m, t), t + m)
    return torch.where(occ, hi, t - 0.01 - m), t


def corners(v, shape, align):
    """vertex positions -> integer corner coordinates (x,y,z), where voxel (z,y,x) spans [x,x+1]x[y,y+1]x[z,z+1]"""
    D, H, W = shape
    n = torch.tensor([W, H, D], dtype=f64)
    v = v.double()
    if align == "corner":
        c = (v + 1) / 2 * n
    elif align == "topleft":
        c = (v + 1) / 2 * (n - 1)
    else:
        c = (v + 1) / 2 * (n - 1) + 0.5
    r = c.round()
    expect(bool(((c - r).abs() < 1e-4).all()), lambda: "align %s grid %s: a vertex is not at a voxel corner: %s" % (
        align, list(shape), v[((c - r).abs() >= 1e-4).any(1)][0].tolist()))
    r = r.long()
    expect(bool(((r >= 0) & (r <= n.long())).all()), "align %s grid %s: a vertex outside the grid" % (align, list(shape)))
    return r


def expected_quads(occ):
    """bool (N, 6, D, H, W): side s of a voxel is a boundary; s = 2*axis + (1 for the positive side), axis 0=x 1=y 2=z"""
    N, D, H, W = occ.shape
    p = torch.zeros(N, D + 2, H + 2, W + 2, dtype=torch.bool)
    p[:, 1:-1, 1:-1, 1:-1] = occ
    out = []
    for ax in range(3):
        for d in (-1, 1):
            sh = [0, 0, 0]
            sh[2 - ax] = d
            q = p[:, 1 + sh[0]:1 + sh[0] + D, 1 + sh[1]:1 + sh[1] + H, 1 + sh[2]:1 + sh[2] + W]
            out.append(occ & ~q)
    return torch.stack(out, 1)


def check(occ, meshes, align, tag, feats=None):
    N, D, H, W = occ.shape
    expect(len(meshes) == N, tag + ": %d meshes for %d grids" % (len(meshes), N))
    want = expected_quads(occ)
    nf = want.flatten(1).sum(1) * 2
    got_nf = meshes.num_faces_per_mesh()
    bad = (got_nf != nf).nonzero().flatten()
    expect(len(bad) == 0, lambda: "%s: grid %d (occupied %s) has %d faces, want %d" % (
        tag, int(bad[0]), occ[bad[0]].nonzero().tolist(), got_nf[bad[0]], nf[bad[0]]))
    if int(nf.sum()) == 0:
        expect(int(meshes.num_verts_per_mesh().sum()) == 0, tag + ": vertices without faces")
        return
    v, f, m = meshes.verts_packed(), meshes.faces_packed(), meshes.faces_packed_to_mesh_idx()
    vm = meshes.verts_packed_to_mesh_idx()
    c = corners(v, (D, H, W), align)
    expect(bool((vm[f] == m[:, None]).all()), tag + ": a face uses a vertex of another mesh")
    expect(len(torch.unique(f)) == len(v), tag + ": unused vertices")
    allc = torch.cat([vm[:, None], c], 1)
    expect(len(torch.unique(allc, dim=0)) == len(c), tag + ": a corner has more than one vertex")
    t = c[f]  # F,3(corner),3(xyz)
    lo, hi = t.amin(1), t.amax(1)
    ext = hi - lo
    flat = (ext == 0)
    expect(bool(((flat.sum(1) == 1) & (ext.amax(1) == 1)).all()), tag + ": a face is not half of a voxel side")
    ax = flat.long().argmax(1)
    nrm = torch.linalg.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0])
    sgn = nrm.gather(1, ax[:, None])[:, 0]
    expect(bool((sgn.abs() == 1).all()), tag + ": degenerate face")
    # an outward face on the positive side of its voxel has the voxel below it
    vox = lo.clone()
    pos = sgn > 0
    vox.scatter_add_(1, ax[:, None], -pos.long()[:, None])
    expect(bool(((vox >= 0) & (vox < torch.tensor([W, H, D]))).all()), tag + ": a face points into the grid from outside (inverted orientation)")
    # code of the corner of the side that the triangle leaves out
    other = torch.tensor([[1, 2], [0, 2], [0, 1]])[ax]
    uv = (t - lo[:, None]).gather(2, other[:, None].expand(-1, 3, -1))  # F,3,2
    code = uv[..., 0] * 2 + uv[..., 1]
    miss = 6 - code.sum(1)
    expect(bool((torch.sort(code, 1).values.diff(dim=1) > 0).all()), tag + ": degenerate face")
    side = 2 * ax + pos.long()
    q = (((m * 6 + side) * D + vox[:, 2]) * H + vox[:, 1]) * W + vox[:, 0]
    first = torch.full((want.numel(),), 0, dtype=torch.long)
    cnt = first.clone().index_add_(0, q, torch.ones_like(q))
    tot = first.clone().index_add_(0, q, miss)
    wantf = want.flatten()
    bad = ((cnt > 0) != wantf).nonzero().flatten()
    if len(bad):
        b = int(bad[0])
        w_ = b % W, b // W % H, b // W // H % D
        raise Violation("%s: grid %d: side %d of voxel (x,y,z)=%s is %s although it is %sa boundary of the occupied cells %s" % (
            tag, b // (6 * D * H * W), b // (D * H * W) % 6, w_, "covered" if cnt[b] else "missing", "" if wantf[b] else "not ",
            occ[b // (6 * D * H * W)].nonzero().tolist()))
    expect(bool((cnt[wantf] == 2).all()) and bool((tot[wantf] == 3).all()), tag + ": the two triangles of a side do not cover it")
    if feats is not None:
        tex = meshes.textures.atlas_packed()
        expect(tuple(tex.shape) == (len(f), 1, 1, feats.shape[1]), tag + ": shape of the texture atlas")
        expect_close(tag + ": features of the faces", tex[:, 0, 0], feats[m, :, vox[:, 2], vox[:, 1], vox[:, 0]])


def occupancy(shape, lo, n):
    k = torch.arange(lo, lo + n)
    return torch.stack([(k >> b) & 1 for b in range(shape[0] * shape[1] * shape[2])], -1).bool().reshape(n, *shape)


def run_patterns(case, rec):
    _, shape, ai, lo, n, kind, with_feats = case
    occ = occupancy(shape, lo, n)
    vox, t = values(occ, kind)
    if kind == 1:
        vox = vox.permute(0, 3, 2, 1).contiguous().permute(0, 3, 2, 1)
    if kind == 2:
        vox = vox.double()
    feats = None
    if with_feats:
        feats = ((torch.arange(n * 3 * occ[0].numel(), dtype=torch.float32) * 0.618034) % 1).reshape(n, 3, *shape)
    m = cubify(vox, t, feats=feats, align=ALIGN[ai])
    tag = "cubify grid %s align %s patterns from %d threshold %s" % (shape, ALIGN[ai], lo, t)
    check(occ, m, ALIGN[ai], tag, feats if ALIGN[ai] == "center" else None)
    rec.step(n)
    rec.trace(n)
    for b in range(n):
        rec.state([shape, ai, lo + b, kind])


def run_single(case, rec):
    _, shape, ai, lo = case
    for p in range(lo, lo + 32):
        if shape != [2, 2, 2]:
            k = p * 2654435761 % (1 << 24)
            occ = torch.tensor([(k >> b) & 1 for b in range(24)]).bool().reshape(1, *shape)
        else:
            occ = occupancy(shape, p, 1)
        vox, t = values(occ, p % 3)
        keep = vox.clone()
        m = cubify(vox, t, align=ALIGN[ai])
        check(occ, m, ALIGN[ai], "cubify single grid %s pattern %d align %s" % (shape, p, ALIGN[ai]))
        expect(torch.equal(vox, keep), "cubify changed its input")
        # as 0/1 values in other types and in a batch with an empty and a full grid
        for dt in (torch.float32, torch.float64, torch.int64, torch.uint8):
            b = torch.cat([torch.zeros_like(occ), occ, torch.ones_like(occ), occ.flip(1)])
            check(b, cubify(b.to(dt), 0.5 if dt.is_floating_point else 1, align=ALIGN[ai]), ALIGN[ai], "cubify batch around grid %s pattern %d dtype %s" % (shape, p, dt))
            rec.step()
        rec.trace()
        rec.state([case, p])


def run_none(case, rec):
    m = cubify(torch.zeros(0, 2, 3, 4), 0.5, align=ALIGN[case[1]])
    expect(len(m) == 0, "cubify of an empty batch")
    m = cubify(torch.zeros(3, 2, 3, 4), 0.5, align=ALIGN[case[1]])
    expect(len(m) == 3 and m.verts_packed().shape[0] == 0 and m.faces_packed().shape[0] == 0, "cubify of empty grids")
    try:
        cubify(torch.ones(1, 2, 2, 2), 0.5, align="centre")
    except ValueError:
        pass
    else:
        raise Violation("cubify accepts an unknown alignment")
    rec.step(2)
    rec.trace()
    rec.state(case)
