"""C19: marching cubes on every inside/outside/at-level pattern of small grids, both implementations."""
import itertools
import math

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops.marching_cubes import marching_cubes, marching_cubes_naive

PROPERTY = "C19"
ASSUMPTIONS = [
    "voxel values are either exactly at the level or differ from it by more than 1e-3 (the code snaps values within 1e-5 of the level)",
    "coincident vertices, which occur at voxels exactly at the level, count as one vertex for closedness",
]
BOUNDS = {
    "quick": "C++: all in/out patterns of 2x2x2, 2x2x3, 3x2x2 and 2x3x2 grids without and with an outside border (of either sign), all in/out/at-level "
             "patterns of 2x2x2 grids bordered and not, both signs of border, 3 levels, local and voxel coordinates; Python: all of 2x2x2 and every 8th of the larger ones; "
             "batches of 2 and 3 with given and default level",
    "thorough": "as quick with all in/out patterns (262144 each) of 3x2x3 unbordered, 2x3x3 and 3x3x2 bordered with either sign, all in/out/at patterns of bordered 2x2x3, Python on all smaller ones",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


def magnitude(shape, level, variant):
    n = shape[0] * shape[1] * shape[2]
    m = 0.2 + 1.3 * ((torch.arange(n, dtype=f64) * 0.7548776662 + 0.1 * variant) % 1)
    return m.reshape(shape)


def field(shape, code, base, border, level, variant):
    """code: base-3 or base-2 digits per voxel: 0 high side, 1 low side, 2 at level; border None / 'high' / 'low'"""
    n = shape[0] * shape[1] * shape[2]
    d = [(code // base ** k) % base for k in range(n)]
    s = torch.tensor([1.0, -1.0, 0.0], dtype=f64)[torch.tensor(d)].reshape(shape)
    if border is not None:
        full = torch.full([k + 2 for k in shape], 1.0 if border == "high" else -1.0, dtype=f64)
        full[1:-1, 1:-1, 1:-1] = s
        s = full
    v = (s * magnitude(s.shape, level, variant) + level).float()
    v[s == 0] = level
    return v, s


def cases(tier):
    th = tier == "thorough"
    out = []

    def add(impl, shape, base, border, level, stride=1, block=512, local=False):
        n = shape[0] * shape[1] * shape[2]
        tot = base ** n
        for lo in range(0, tot, block * stride):
            out.append(["grid", impl, list(shape), base, border, level, local, lo, min(tot, lo + block * stride), stride])

    for border in (None, "high", "low"):
        for level in (0.0, 0.37, -2.5):
            add("cpp", (2, 2, 2), 2, border, level, local=level == 0.37)
            add("naive", (2, 2, 2), 2, border, level, block=32, local=level == 0.37, stride=1 if th or level == 0 or border is None else 8)
        add("cpp", (2, 2, 2), 3, border, 0.0, block=1024)
        add("naive", (2, 2, 2), 3, border, 0.0, block=64, stride=1 if th or border is None else 16)
        for shape in ((2, 2, 3), (2, 3, 2), (3, 2, 2)):
            add("cpp", shape, 2, border, 0.37, block=1024, local=border == "low")
            add("naive", shape, 2, border, 0.37, block=16, stride=8 if th else 64, local=border == "high")
        if th:
            if border == "high":
                add("cpp", (2, 2, 3), 3, border, 0.0, block=8192)
            for shape in ((2, 3, 3), (3, 2, 3), (3, 3, 2)):
                if (border is None) == (shape == (3, 2, 3)):
                    add("cpp", shape, 2, border, 0.0, block=8192)
    for impl in ("cpp", "naive"):
        for lv in (None, 0.0, 0.4):
            for local in (True, False):
                for n in (1, 2, 3):
                    out.append(["batch", impl, lv, local, n])
        for shape in ((1, 1, 1), (1, 3, 3), (3, 1, 3), (3, 3, 1), (2, 2, 1)):
            out.append(["thin", impl, list(shape)])
        out.append(["default", impl])
    out.sort(key=lambda c: c[0] == "grid")
    return out


FN = {"cpp": marching_cubes, "naive": marching_cubes_naive}


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def to_voxel(v, shape):
    D, H, W = shape
    return (v.double() + 1) * (torch.tensor([W, H, D], dtype=f64) - 1) / 2


def check_surface(impl, vol, sgn, level, verts, faces, tag, want_closed, out_sign):
    """verts in voxel coordinates"""
    D, H, W = vol.shape
    at_level = bool((sgn == 0).any())
    inside = vol < level  # the classification of the implementation: strictly below, at the level counts as above
    sides = []
    for ax, (dx, dy, dz) in ((2, (1, 0, 0)), (1, (0, 1, 0)), (0, (0, 0, 1))):
        a, b = vol.narrow(ax, 0, vol.shape[ax] - 1), vol.narrow(ax, 1, vol.shape[ax] - 1)
        ia, ib = inside.narrow(ax, 0, vol.shape[ax] - 1), inside.narrow(ax, 1, vol.shape[ax] - 1)
        w = (ia != ib).nonzero()
        if len(w):
            va, vb = a[ia != ib].double(), b[ia != ib].double()
            t = (level - va) / (vb - va)
            p = w[:, [2, 1, 0]].double()
            p[:, 2 - ax] += t
            sides.append(p)
    want = torch.cat(sides) if sides else torch.zeros(0, 3, dtype=f64)
    if len(want) == 0:
        expect(len(verts) == 0 and len(faces) == 0, tag + ": surface although all voxels are on one side")
        return
    if len(verts) == 0:
        expect(at_level, tag + ": no surface although voxels are on different sides")
        verts, faces = torch.zeros(0, 3, dtype=f64), torch.zeros(0, 3, dtype=torch.int64)
    expect(faces.dtype == torch.int64, tag + ": face dtype")
    if len(faces):
        expect(int(faces.min()) >= 0 and int(faces.max()) < len(verts), tag + ": face index out of range")
        expect(len(torch.unique(faces)) == len(verts), tag + ": a vertex is not used by any face")
        d = (verts[:, None] - want[None]).abs().amax(-1)
        expect(bool((d.min(1).values < 2e-5).all()), lambda: "%s: vertex %s is not at a level crossing of a grid edge" % (
            tag, verts[int(d.min(1).values.argmax())].tolist()))
        if not at_level:
            expect(len(verts) == len(want) and bool((d.min(0).values < 2e-5).all()),
                   lambda: "%s: %d vertices for %d grid edges with ends on different sides" % (tag, len(verts), len(want)))
    # identify coincident vertices
    key = (verts * 4096).round().long()
    uniq, inv = torch.unique(key, dim=0, return_inverse=True) if len(key) else (key, torch.zeros(0, dtype=torch.long))
    f = inv[faces]
    n = max(len(uniq), 1)
    e = torch.cat([f[:, [0, 1]], f[:, [1, 2]], f[:, [2, 0]]])
    expect(not bool((e[:, 0] == e[:, 1]).any()), tag + ": degenerate triangle")
    net = torch.zeros(n * n, dtype=torch.long)
    net.index_add_(0, e[:, 0] * n + e[:, 1], torch.ones(len(e), dtype=torch.long))
    net = net.reshape(n, n)
    open_ = (net - net.t()).nonzero()
    if want_closed:
        expect(len(open_) == 0, lambda: "%s: surface is open or badly oriented at the edge %s - %s" % (
            tag, (uniq[open_[0, 0]] / 4096).tolist(), (uniq[open_[0, 1]] / 4096).tolist()))
    else:
        pa, pb = uniq[open_[:, 0]] / 4096, uniq[open_[:, 1]] / 4096
        hi = torch.tensor([W, H, D], dtype=torch.float) - 1
        onb = (((pa == 0) & (pb == 0)) | ((pa == hi) & (pb == hi))).any(1)
        expect(bool(onb.all()), lambda: "%s: surface is open inside the grid at %s - %s" % (tag, pa[~onb][0].tolist(), pb[~onb][0].tolist()))
        # every piece of surface separates the ends of its edges: checked by the closed cases and by orientation here
    if not at_level:
        # every edge is used by at most two triangles of opposite direction, or four where two sheets touch never happens
        expect(int(net.max()) <= 1 if net.numel() else True, tag + ": an edge is used twice in the same direction")
    if want_closed:
        # winding number of every voxel centre not at the level
        P = (sgn != 0).nonzero()[:, [2, 1, 0]].double()
        s = sgn[sgn != 0]
        T = verts[faces]  # F,3,3
        r = T[None] - P[:, None, None]  # P,F,3,3
        nrm = r.norm(dim=-1)
        det = torch.linalg.det(r)
        den = nrm.prod(-1) + (r[:, :, 0] * r[:, :, 1]).sum(-1) * nrm[..., 2] + (r[:, :, 1] * r[:, :, 2]).sum(-1) * nrm[..., 0] + \
            (r[:, :, 2] * r[:, :, 0]).sum(-1) * nrm[..., 1]
        wind = (2 * torch.atan2(det, den)).sum(1) / (4 * math.pi)
        # one orientation for all surfaces: normals point towards lower values
        want_w = torch.where(s == out_sign, torch.zeros_like(wind), torch.full_like(wind, ORIENT * out_sign))
        bad = ((wind - want_w).abs() > 1e-3).nonzero().flatten()
        expect(len(bad) == 0, lambda: "%s: voxel (x,y,z)=%s has winding number %.3f, want %.0f" % (
            tag, P[bad[0]].tolist(), wind[bad[0]], want_w[bad[0]]))


ORIENT = 1.0
SPHERES = [((2.09, 2.44, 3.1), 1.37), ((2.29, 2.08, 3.11), 1.44), ((1.62, 2.22, 3.29), 1.33)]


def tri_set(verts, faces):
    out = []
    k = (verts.double() * 4096).round().long().tolist()
    for a, b, c in faces.tolist():
        t = [tuple(k[a]), tuple(k[b]), tuple(k[c])]
        i = t.index(min(t))
        out.append(tuple(t[i:] + t[:i]))
    return sorted(out)


def run_grid(case, rec):
    _, impl, shape, base, border, level, local, lo, hi, stride = case
    B = 8
    codes = list(range(lo, hi, stride))
    for i in range(0, len(codes), B):
        fs = [field(shape, c, base, border, level, c % 7) for c in codes[i:i + B]]
        vol = torch.stack([f[0] for f in fs])
        verts, faces = FN[impl](vol, level, return_local_coords=local)
        expect(len(verts) == len(faces) == len(fs), "%s: wrong number of meshes" % impl)
        for j, (c, (v, s)) in enumerate(zip(codes[i:i + B], fs)):
            tag = "%s grid %s pattern %d base %d border %s level %s" % (impl, shape, c, base, border, level)
            vj, fj = verts[j], faces[j]
            if len(vj):
                expect(vj.dtype == torch.float32, tag + ": vertex dtype")
                vj = to_voxel(vj, v.shape) if local else vj.double()
            check_surface(impl, v, s, level, vj, fj, tag, border is not None, 1.0 if border == "high" else -1.0)
            if impl == "naive":
                v2, f2 = marching_cubes(v[None], level, return_local_coords=local)
                same = len(v2[0]) == len(vj)
                if same and len(vj):
                    w2 = to_voxel(v2[0], v.shape) if local else v2[0].double()
                    t1, t2 = tri_set(vj, fj), tri_set(w2, f2[0])
                    same = len(t1) == len(t2) and (t1 == t2 or all(
                        max(abs(x - y) for p, q in zip(a, b) for x, y in zip(p, q)) <= 1 for a, b in zip(t1, t2)))
                expect(same, tag + ": the C++ and Python implementations give different surfaces")
            rec.step()
            rec.trace()
            rec.state([impl, shape, base, border, level, c])


def sphere_fields():
    out = []
    g = torch.stack(torch.meshgrid(torch.arange(5.0), torch.arange(6.0), torch.arange(7.0), indexing="ij"), -1)
    for c, r in SPHERES:
        out.append((g - torch.tensor(c, dtype=torch.float32)).norm(dim=-1) - r)
    return out


def run_batch(case, rec):
    _, impl, lv, local, n = case
    fields = sphere_fields() + [torch.full((5, 6, 7), 3.0), -sphere_fields()[1] * 3 + 0.7]
    for sel in itertools.permutations(range(5), n):
        vol = torch.stack([fields[i] for i in sel])
        for mem in (0, 1):
            if mem:
                vol = vol.permute(0, 3, 1, 2).contiguous().permute(0, 2, 3, 1)
            verts, faces = FN["cpp"](vol, lv, local) if impl == "cpp" else FN[impl](vol, lv, local)
            for j, i in enumerate(sel):
                f = fields[i]
                level = lv if lv is not None else float((f.max() + f.min()) / 2)
                tag = "%s batch %s element %d level %s local %s" % (impl, list(sel), j, lv, local)
                vj = verts[j]
                if len(vj):
                    vj = to_voxel(vj, f.shape) if local else vj.double()
                s = torch.sign(f - level)
                s[(f - level).abs() < 1e-3] = 0
                out = bool((f[0] > level).all())
                closed = all(bool(((p > level) == out).all()) for p in (f[0], f[-1], f[:, 0], f[:, -1], f[:, :, 0], f[:, :, -1]))
                check_surface(impl, f, s, level, vj, faces[j], tag, closed, 1.0 if out else -1.0)
                rec.step()
                rec.trace()
            rec.state(case + list(sel))
        if impl == "naive" and n == 3 and sel[0] > 0:
            break


def run_thin(case, rec):
    _, impl, shape = case
    v = torch.ones(2, *shape)
    v.view(-1)[::2] = -1
    verts, faces = FN[impl](v, 0.0)
    expect(len(verts) == 2 and all(len(x) == 0 for x in verts) and all(len(x) == 0 for x in faces), "%s: surface in a one-voxel-thin grid" % impl)
    rec.step()
    rec.trace()
    rec.state(case)


def run_default(case, rec):
    """the defaults: own level per volume, local coordinates"""
    f = sphere_fields()
    a = FN[case[1]](torch.stack(f))
    for i in range(3):
        b = FN[case[1]](f[i][None], float((f[i].max() + f[i].min()) / 2), True)
        expect_close("%s default vertices of volume %d" % (case[1], i), a[0][i], b[0][0], atol=1e-6)
        expect_close("%s default faces of volume %d" % (case[1], i), a[1][i], b[1][0])
        expect(float(a[0][i].abs().max()) <= 1 + 1e-6, "local coordinates outside [-1, 1]")
    rec.step(3)
    rec.trace()
    rec.state(case)
