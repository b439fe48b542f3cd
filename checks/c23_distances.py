"""C23: point-to-face/edge distances and chamfer distance of every small batch against exact closest points in float64."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d import _C
from pytorch3d.loss import chamfer_distance, point_mesh_edge_distance, point_mesh_face_distance
from pytorch3d.loss.point_mesh_distance import edge_point_distance, face_point_distance, point_edge_distance, point_face_distance
from pytorch3d.structures import Meshes, Pointclouds

PROPERTY = "C23"
ASSUMPTIONS = [
    "no triangle area within 2% of min_triangle_area (smaller ones count as their edges, as documented)",
    "the distance of a point to a batch element without faces (and of a face to an empty cloud) is undefined; other elements are still checked",
    "gradients are compared where the nearest face/point is unique by 1e-4",
    "chamfer: the normal term of a point whose counterpart cloud is empty is undefined; all-zero weights are checked after batch reduction",
]
BOUNDS = {
    "quick": "34 triangles and 20 segments (all degenerate kinds) x 242 points; every batch of <= 3 elements over 7 (cloud size, mesh) kinds "
             "incl. empty ones, 3 area thresholds, losses and gradients; chamfer: N 1..2, every lengths x weights x normals x reduction x norm x "
             "direction x input-kind combination",
    "thorough": "as quick with batches of <= 4 elements and chamfer N 1..3",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 4
f64 = torch.float64


def tri_set():
    t = [
        [[0, 0, 0], [1, 0, 0], [0, 1, 0]], [[0, 0, 0], [0, 1, 0], [1, 0, 0]], [[0, 0, 1], [2, 0, 1], [0, 2, 1]], [[0, 0, 0], [0, 0, 2], [0, 1, 0]],
        [[-1, -1, -1], [1, 1, -1], [1, -1, 1]], [[-1, -1, 0], [1.5, -0.5, 0.5], [0.2, 1.1, -0.7]], [[0, 0, 0], [3, 0.3, 0], [-3, 0.3, 0]],
        [[0, 0, 0], [3, 0.1, 0], [1.5, 0.2, 0]], [[1, 1, 1], [1, 1, -1], [-1, 0, 0]], [[0.3, -0.4, 0.5], [1.2, 0.8, -0.6], [-0.7, 0.9, 1.1]],
        [[-2, -2, -2], [2, -2, -2], [0, 2, 2]], [[0.5, 0.5, 0.5], [1.5, 0.5, 0.5], [0.5, 1.5, 0.5]],
        # small area: counted as edges for the default threshold
        [[0, 0, 0], [0.05, 0, 0], [0, 0.05, 0]], [[0, 0, 0], [2, 0, 0], [1, 0.003, 0]], [[-1, 0.5, 0.25], [1, 0.5, 0.25], [0, 0.502, 0.25]],
        [[1, 1, 1], [1.001, 1, 1], [1, 1.001, 1.0005]],
        # degenerate
        [[0, 0, 0], [0, 0, 0], [0, 0, 0]], [[1, 0, 0], [1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, 1, 0], [1, 0, 0]], [[1, 0, 0], [0, 1, 0], [0, 1, 0]],
        [[0, 0, 0], [1, 1, 1], [2, 2, 2]], [[0, 0, 0], [2, 2, 2], [1, 1, 1]], [[1, 1, 1], [0, 0, 0], [2, 2, 2]], [[-1, 0, 0], [1, 0, 0], [0, 0, 0]],
    ]
    t = torch.tensor(t, dtype=f64)
    more = t[[4, 5, 8, 9, 10]]
    rot = torch.tensor([[0.36, 0.48, -0.8], [-0.8, 0.6, 0], [0.48, 0.64, 0.6]], dtype=f64)
    return torch.cat([t, more @ rot.T + torch.tensor([0.4, -0.2, 0.1], dtype=f64), more[:, [1, 2, 0]]])


def seg_set():
    s = [[[0, 0, 0], [1, 0, 0]], [[1, 0, 0], [0, 0, 0]], [[0, -1, 0], [0, 1, 0]], [[0, 0, -2], [0, 0, 0.5]], [[-1, -1, -1], [1, 1, 1]], [[0.3, -0.4, 0.5], [1.2, 0.8, -0.6]],
         [[2, 2, 2], [-1, 0.5, 0]], [[0, 0, 0], [0.01, 0, 0]], [[1, 1, 1], [1, 1, 1.02]], [[0, 0, 0], [0, 0, 0]], [[1, -1, 0.5], [1, -1, 0.5]],
         [[0, 0, 0], [1e-5, 0, 0]], [[-2, 0, 1], [2, 0, 1]], [[0, 1, 2], [2, 1, 0]], [[0.5, 0.5, 0.5], [0.5, 0.5, -0.5]], [[-3, 1, 1], [3, 1, 1]],
         [[0, 2, 0], [0, 2.5, 1]], [[-0.25, 0.1, 0.9], [-0.2, 0.4, -0.7]], [[1, 2, 3], [-3, -2, -1]], [[0, 0, 1], [1, 0, 0]]]
    return torch.tensor(s, dtype=f64)


def pts_set():
    v = torch.tensor([-1.0, 0, 0.5, 1, 2], dtype=f64)
    p = torch.stack(torch.meshgrid(v, v, v, indexing="ij"), -1).reshape(-1, 3)
    g = torch.arange(117 * 3, dtype=f64).reshape(-1, 3)
    return torch.cat([p, ((g * 0.6180339887) % 1 - 0.5) * 4])


def near_seg(p, a, b):
    """p (...,3), a, b broadcast -> squared distance, weights of a and b"""
    d = b - a
    l2 = (d * d).sum(-1)
    t = ((p - a) * d).sum(-1) / torch.where(l2 > 1e-12, l2, torch.ones_like(l2))
    t = torch.where(l2 > 1e-12, t.clamp(0, 1), torch.zeros_like(t))
    c = a + t[..., None] * d
    return ((p - c) ** 2).sum(-1), torch.stack([1 - t, t], -1)


def near_tri(p, v, min_area):
    """p (...,3), v (...,3,3) broadcast -> squared distance, barycentric weights of the closest point"""
    a, b, c = v[..., 0, :], v[..., 1, :], v[..., 2, :]
    n = torch.linalg.cross((b - a).expand(torch.broadcast_shapes(p.shape, a.shape)), (c - a).expand(torch.broadcast_shapes(p.shape, a.shape)))
    nn = (n * n).sum(-1)
    area = nn.sqrt() / 2
    big = (area >= min_area) & (nn > 1e-14)
    nns = torch.where(nn > 0, nn, torch.ones_like(nn))
    q = p - a

    def sub(x, y):
        return (torch.linalg.cross(x.expand_as(n), y.expand_as(n)) * n).sum(-1) / nns
    w1, w2 = sub(q, c - a), sub(b - a, q)
    w0 = 1 - w1 - w2
    inside = big & (w0 >= 0) & (w1 >= 0) & (w2 >= 0)
    plane = ((q * n).sum(-1)) ** 2 / nns
    z = torch.zeros_like(plane)
    ds, ws = [], []
    for (i, x), (j, y) in (((0, a), (1, b)), ((0, a), (2, c)), ((1, b), (2, c))):
        d, w = near_seg(p, x, y)
        full = [z, z, z]
        full[i], full[j] = w[..., 0], w[..., 1]
        ds.append(d)
        ws.append(torch.stack(full, -1))
    D, W = torch.stack(ds, -1), torch.stack(ws, -2)
    k = D.argmin(-1)
    ed = D.gather(-1, k[..., None])[..., 0]
    ew = W.gather(-2, k[..., None, None].expand(k.shape + (1, 3)))[..., 0, :]
    return torch.where(inside, plane, ed), torch.where(inside[..., None], torch.stack([w0, w1, w2], -1), ew)


# ------------------------------------------------------------------ batches
KINDS = [(0, "none"), (0, "one"), (1, "one"), (3, "two"), (2, "tet"), (2, "none"), (4, "small")]
MESH = {
    "none": (0, []),
    "one": (3, [[0, 1, 2]]),
    "two": (4, [[0, 1, 2], [2, 1, 3]]),
    "tet": (4, [[0, 2, 1], [0, 1, 3], [1, 2, 3], [0, 3, 2]]),
    "small": (5, [[0, 1, 2], [2, 3, 4]]),
}


def elem(kind, pos):
    npts, mk = kind
    nv, F = MESH[mk]
    g = torch.arange(3 * (npts + nv) + 40 * pos, 3 * (npts + nv) * 2 + 40 * pos, dtype=f64)
    v = (((g * 0.754877 + 0.1 * pos) % 1 - 0.5) * 3).reshape(-1, 3)
    p, vv = v[:npts], v[npts:npts + nv]
    if mk == "small":
        vv = vv.clone()
        vv[1:3] = vv[0] + (vv[1:3] - vv[0]) * 0.06
    return p.float(), vv.float(), torch.tensor(F, dtype=torch.int64).reshape(-1, 3)


def edges_of(F):
    e = set()
    for f in F.tolist():
        for i in range(3):
            a, b = f[i], f[(i + 1) % 3]
            e.add((min(a, b), max(a, b)))
    return torch.tensor(sorted(e), dtype=torch.int64).reshape(-1, 2)


def cases(tier):
    th = tier == "thorough"
    out = [["single", "tri", a] for a in (0.005, 0.001, 0.3)] + [["single", "seg", 0.0]]
    for n in range(1, 5 if th else 4):
        for ks in itertools.product(range(len(KINDS)), repeat=n):
            out.append(["batch", list(ks)])
    for N in range(1, 4 if th else 3):
        for xl in itertools.product((0, 1, 3), repeat=N):
            for yl in itertools.product((0, 2), repeat=N):
                out.append(["chamfer", list(xl), list(yl)])
    out.append(["chamfer_errors"])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.trace()
    rec.sample({"case": case})


def run_single(case, rec):
    _, what, area = case
    P = pts_set()
    H = tri_set() if what == "tri" else seg_set()
    if what == "tri":
        D, W = near_tri(P[:, None], H[None], area)
        arr = _C.point_face_array_dist_forward(P.float(), H.float(), area)
    else:
        D, W = near_seg(P[:, None], H[None, :, 0], H[None, :, 1])
        arr = _C.point_edge_array_dist_forward(P.float(), H.float())
    expect_close("%s distance of every point to every one" % what, arr, D, atol=2e-5, rtol=1e-4)
    rec.step(D.numel())
    rec.state([what, area, D])
    degenerate = torch.stack([(h - h.roll(1, 0)).norm(dim=-1).min() < 1e-4 for h in H])
    if what == "tri":
        degenerate |= torch.linalg.cross(H[:, 1] - H[:, 0], H[:, 2] - H[:, 0]).norm(dim=-1) < 1e-6
    C = (W[..., None] * H[None]).sum(2)
    z = torch.tensor([0])
    for j in range(len(H)):
        h = H[j:j + 1].float()
        p = P.float().requires_grad_(True)
        hh = h.clone().requires_grad_(True)
        d = point_face_distance(p, z, hh, z, len(P), area) if what == "tri" else point_edge_distance(p, z, hh, z, len(P))
        expect_close("%s %s: distances" % (what, H[j].tolist()), d, D[:, j], atol=2e-5, rtol=1e-4)
        w = ((torch.arange(len(P)) * 0.618) % 1 + 0.2)
        gp, gh = torch.autograd.grad((d * w).sum(), (p, hh))
        diff = 2 * w[:, None] * (P - C[:, j])
        if not (degenerate[j] and what == "tri"):
            expect_close("%s %s: gradient of the points" % (what, H[j].tolist()), gp, diff, atol=3e-4, rtol=1e-3)
        if not degenerate[j]:
            # sensitive triangles (slivers) amplify rounding in the weights: allow for it
            expect_close("%s %s: gradient of the corners" % (what, H[j].tolist()), gh[0], -(W[:, j, :, None] * diff[:, None]).sum(0),
                         atol=2e-2 if what == "tri" else 2e-3, rtol=5e-3)
        # the other direction: the face's distance to the nearest point
        for part in (slice(0, 40), slice(100, 140), slice(150, 242)):
            Pq = P[part].float()
            p, hh = Pq.clone().requires_grad_(True), h.clone().requires_grad_(True)
            d2 = face_point_distance(p, z, hh, z, 1, area) if what == "tri" else edge_point_distance(p, z, hh, z, 1)
            Dj = D[part, j]
            expect_close("%s %s: distance to the nearest of %d points" % (what, H[j].tolist(), len(Pq)), d2, Dj.min()[None], atol=2e-5, rtol=1e-4)
            srt = Dj.sort().values
            if not degenerate[j] and srt[1] - srt[0] > 1e-4:
                k = int(Dj.argmin())
                gp, gh = torch.autograd.grad(d2.sum() * 1.7, (p, hh))
                full = torch.zeros(len(Pq), 3, dtype=f64)
                dv = 3.4 * (P[part][k] - C[part][k, j])
                full[k] = dv
                expect_close("%s %s: gradient of the nearest point" % (what, H[j].tolist()), gp, full, atol=1e-3, rtol=1e-3)
                expect_close("%s %s: gradient of the corners to the nearest point" % (what, H[j].tolist()), gh[0], -(W[part][k, j][:, None] * dv), atol=2e-2, rtol=1e-2)
            rec.step(2)
        rec.step(3)
        rec.trace()
    # the pairwise (array) backward
    w = ((torch.arange(D.numel()) * 0.618) % 1 + 0.2).reshape(D.shape)
    if what == "tri":
        gp, gh = _C.point_face_array_dist_backward(P.float(), H.float(), w.float(), area)
    else:
        gp, gh = _C.point_edge_array_dist_backward(P.float(), H.float(), w.float())
    keep = ~degenerate
    diff = 2 * w[..., None] * (P[:, None] - C)
    expect_close("%s array gradient of the corners" % what, gh[keep], -(W[..., None] * diff[:, :, None]).sum(0)[keep], atol=1e-1 if area < 0.005 else 2e-2, rtol=5e-3)
    if what == "seg":
        expect_close("%s array gradient of the points" % what, gp, diff.sum(1), atol=5e-3, rtol=1e-3)
    else:
        sub = H[keep].float()
        gp, _ = _C.point_face_array_dist_backward(P.float(), sub, w[:, keep].float().contiguous(), area)
        expect_close("%s array gradient of the points" % what, gp, diff[:, keep].sum(1), atol=5e-3, rtol=1e-3)


def run_batch(case, rec):
    ks = [KINDS[k] for k in case[1]]
    el = [elem(k, i) for i, k in enumerate(ks)]
    N = len(el)
    any_face = any(len(F) for _, _, F in el)
    P = torch.cat([p for p, _, _ in el])
    pf = torch.tensor([0] + [len(p) for p, _, _ in el]).cumsum(0)[:-1]
    maxp = max(len(p) for p, _, _ in el)
    for what in ("face", "edge"):
        hulls = []
        for _, V, F in el:
            E = edges_of(F)
            hulls.append(V[F] if what == "face" else V[E])
        H = torch.cat(hulls)
        hf = torch.tensor([0] + [len(h) for h in hulls]).cumsum(0)[:-1]
        maxh = max(len(h) for h in hulls)
        for area in (0.005, 0.2) if what == "face" else (0.0,):
            def nearest(p, h):
                if what == "face":
                    return near_tri(p.double()[:, None], h.double()[None], area)
                return near_seg(p.double()[:, None], h.double()[None, :, 0], h.double()[None, :, 1])
            refs = [nearest(p, h) for (p, _, _), h in zip(el, hulls)]
            pd, pw, hd, hw = [], [], [], []  # expected distance and defined mask, both directions
            gP, gH = torch.zeros(len(P), 3, dtype=f64), torch.zeros(H.shape, dtype=f64)
            gP2, gH2 = gP.clone(), gH.clone()
            ok_p, ok_h = [], []
            wP = (torch.arange(len(P)) * 0.618 % 1 + 0.3).double()
            wH = (torch.arange(len(H)) * 0.618 % 1 + 0.4).double()
            po = ho = 0
            for ((p, _, _), h, (D, W)) in zip(el, hulls, refs):
                for i in range(len(p)):
                    if len(h) == 0:
                        pd.append(float("nan"))
                        ok_p.append(False)
                        continue
                    srt = D[i].sort().values
                    pd.append(float(srt[0]))
                    ok_p.append(len(srt) < 2 or float(srt[1] - srt[0]) > 1e-4)
                    if ok_p[-1]:
                        k = int(D[i].argmin())
                        dv = 2 * wP[po + i] * (p[i].double() - (W[i, k][:, None] * h[k].double()).sum(0))
                        gP[po + i] += dv
                        gH[ho + k] -= W[i, k][:, None] * dv
                for j in range(len(h)):
                    if len(p) == 0:
                        hd.append(float("nan"))
                        ok_h.append(False)
                        continue
                    srt = D[:, j].sort().values
                    hd.append(float(srt[0]))
                    ok_h.append(len(srt) < 2 or float(srt[1] - srt[0]) > 1e-4)
                    if ok_h[-1]:
                        k = int(D[:, j].argmin())
                        dv = 2 * wH[ho + j] * (p[k].double() - (W[k, j][:, None] * h[j].double()).sum(0))
                        gP2[po + k] += dv
                        gH2[ho + j] -= W[k, j][:, None] * dv
                po += len(p)
                ho += len(h)
            pd, hd, ok_p, ok_h = torch.tensor(pd, dtype=f64), torch.tensor(hd, dtype=f64), torch.tensor(ok_p).bool(), torch.tensor(ok_h).bool()
            tag = "%s distances, batch %s (points, mesh), min area %s" % (what, ks, area)
            Pg, Hg = P.clone().requires_grad_(True), H.clone().requires_grad_(True)
            if what == "face":
                a = point_face_distance(Pg, pf, Hg, hf, maxp, area)
                b = face_point_distance(Pg, pf, Hg, hf, maxh, area)
            else:
                a = point_edge_distance(Pg, pf, Hg, hf, maxp)
                b = edge_point_distance(Pg, pf, Hg, hf, maxh)
            rec.step(2)
            dp, dh = ~pd.isnan(), ~hd.isnan()
            expect_close(tag + ": point to surface", a[dp], pd[dp], atol=2e-5, rtol=1e-4)
            expect_close(tag + ": surface to point", b[dh], hd[dh], atol=2e-5, rtol=1e-4)
            if bool(ok_p.all()) and bool(ok_h.all()) and len(P) and len(H):
                g = torch.autograd.grad((a * wP).sum(), (Pg, Hg))
                expect_close(tag + ": gradient of the points", g[0], gP, atol=1e-3, rtol=1e-3)
                expect_close(tag + ": gradient of the surface", g[1], gH, atol=5e-3, rtol=5e-3)
                g = torch.autograd.grad((b * wH).sum(), (Pg, Hg))
                expect_close(tag + ": gradient of the points (surface to point)", g[0], gP2, atol=1e-3, rtol=1e-3)
                expect_close(tag + ": gradient of the surface (surface to point)", g[1], gH2, atol=5e-3, rtol=5e-3)
                rec.step(2)
            # the losses
            if any_face and bool(dp.all()) and bool(dh.all()):
                verts = [V.clone().requires_grad_(True) for _, V, _ in el]
                pts = [p.clone().requires_grad_(True) for p, _, _ in el]
                M = Meshes(verts, [F for _, _, F in el])
                C = Pointclouds(pts)
                loss = point_mesh_face_distance(M, C, min_triangle_area=area) if what == "face" else point_mesh_edge_distance(M, C)
                want = 0.0
                vg = [torch.zeros(V.shape, dtype=f64) for _, V, _ in el]
                pg = [torch.zeros(p.shape, dtype=f64) for p, _, _ in el]
                for i, ((p, V, F), h, (D, W)) in enumerate(zip(el, hulls, refs)):
                    if not len(p) or not len(h):
                        continue
                    want += float(D.min(1).values.mean() + D.min(0).values.mean()) / N
                    idx = F if what == "face" else edges_of(F)
                    for r, c, wt in [(r, int(D[r].argmin()), 1 / len(p)) for r in range(len(p))] + [(int(D[:, c].argmin()), c, 1 / len(h)) for c in range(len(h))]:
                        dv = 2 * wt / N * (p[r].double() - (W[r, c][:, None] * h[c].double()).sum(0))
                        pg[i][r] += dv
                        for k in range(idx.shape[1]):
                            vg[i][idx[c, k]] -= W[r, c, k] * dv
                expect_close(tag + ": loss", loss, torch.tensor(want), atol=2e-5, rtol=1e-4)
                rec.step()
                if bool(ok_p.all()) and bool(ok_h.all()) and len(P):
                    leaves = [t for t in verts + pts]
                    g = torch.autograd.grad(loss, leaves, allow_unused=True)
                    for t, gg, r in zip(leaves, g, vg + pg):
                        gg = torch.zeros_like(t) if gg is None else gg
                        expect_close(tag + ": gradient of the loss", gg, r, atol=2e-3, rtol=5e-3)
                # a mesh or cloud alone counts the same as in the batch
            rec.state([what, area, ks, pd[dp], hd[dh]])
    for f in (point_mesh_face_distance, point_mesh_edge_distance):
        if any_face:
            M = Meshes([V for _, V, _ in el], [F for _, _, F in el])
            try:
                f(M, Pointclouds([torch.zeros(1, 3)] * (N + 1)))
            except ValueError:
                pass
            else:
                raise Violation("%s: batches of different length accepted" % f.__name__)


# ------------------------------------------------------------------ chamfer
def cham_ref(x, y, xn, yn, w, br, pr, norm, single, ac):
    """x, y, xn, yn: lists per element (float64). -> loss, normal loss, whether every normal term is defined"""
    N = len(x)
    defined = True

    def one(a, b, an, bn):
        nonlocal defined
        dist, nrm = [], []
        for i in range(N):
            if len(a[i]) == 0 or len(b[i]) == 0:
                d = a[i].sum(1) * 0
                dn = d
                if len(a[i]):
                    defined = False
            else:
                D = ((a[i][:, None] - b[i][None]).abs() ** norm).sum(-1)
                d, k = D.min(1)
                if an is not None:
                    u, v = an[i], bn[i][k]
                    c = (u * v).sum(1) / (u.norm(dim=1) * v.norm(dim=1)).clamp(min=1e-6)
                    dn = 1 - (c.abs() if ac else c)
            wi = 1.0 if w is None else float(w[i])
            dist.append(d * wi)
            nrm.append(dn * wi if an is not None else None)
        return dist, nrm if an is not None else None
    both = xn is not None and yn is not None
    X = one(x, y, xn if both else None, yn)
    Y = one(y, x, yn if both else None, xn)
    if pr is None:
        return (X, Y), both, defined

    def red(l):
        if l is None:
            return None
        if pr == "max":
            return torch.stack([v.max() if len(v) else v.sum() for v in l])
        return torch.stack([v.sum() / (max(len(v), 1) if pr == "mean" else 1) for v in l])
    xs, ys = [red(v) for v in X], [red(v) for v in Y]
    if single:
        loss, ln = xs
    elif pr == "max":
        loss, ln = torch.maximum(xs[0], ys[0]), None
    else:
        loss, ln = xs[0] + ys[0], (xs[1] + ys[1] if both else None)
    if br:
        div = 1.0
        if br == "mean":
            div = N if w is None else (float(w.sum()) or 1.0)
        loss = loss.sum() / div
        ln = ln.sum() / div if ln is not None else None
    return (loss, ln), both, defined


def run_chamfer(case, rec):
    _, xl, yl = case
    N = len(xl)
    g = torch.arange(N * 5 * 6, dtype=f64)
    vals = (((g * 0.754877666) % 1) * 4 - 2).float()
    px = [vals[30 * i:30 * i + 9].reshape(3, 3)[:xl[i]] for i in range(N)]
    py = [vals[30 * i + 9:30 * i + 15].reshape(2, 3)[:yl[i]] for i in range(N)]
    nx = [vals[30 * i + 15:30 * i + 24].reshape(3, 3)[:xl[i]] for i in range(N)]
    ny = [vals[30 * i + 24:30 * i + 30].reshape(2, 3)[:yl[i]] for i in range(N)]

    def pad(l, n, junk):
        out = torch.full((N, n, 3), junk)
        for i, v in enumerate(l):
            out[i, :len(v)] = v
        return out
    P1, P2 = (3, 2)
    weights = [None, torch.tensor([0.5, 2.0, 1.25][:N]), torch.tensor([0.0, 3.0, 0.0][:N]), torch.tensor([2.0, 0.0, 1.0][:N])]
    reds = [(b, p) for b in ("mean", "sum", None) for p in ("mean", "sum", "max")] + [(None, None)]
    full = xl == [3] * N and yl == [2] * N
    for inp in ("tensor", "clouds"):
        for nrm in ("none", "both", "x"):
            for w, (br, pr), norm, single, ac in itertools.product(weights, reds, (1, 2), (False, True), (True, False)):
                if pr == "max" and nrm != "none" or (nrm != "both" and not ac):
                    continue
                if w is not None and float(w.sum()) == 0 and (br is None):
                    continue
                if inp == "clouds" and nrm != "none" and (max(xl) == 0 or max(yl) == 0):
                    continue  # a batch without any point has no normals either
                if pr == "max" and inp == "clouds" and (max(xl) == 0 or max(yl) == 0):
                    continue  # rejected: no point at all to take a maximum over
                x64 = [t.double().requires_grad_(True) for t in px]
                y64 = [t.double().requires_grad_(True) for t in py]
                xn64 = [t.double().requires_grad_(True) for t in nx] if nrm in ("both", "x") else None
                yn64 = [t.double().requires_grad_(True) for t in ny] if nrm == "both" else None
                ref, both, defined = cham_ref(x64, y64, xn64, yn64, w, br, pr, norm, single, ac)
                xs = [t.clone().requires_grad_(True) for t in px]
                ys = [t.clone().requires_grad_(True) for t in py]
                xns = [t.clone().requires_grad_(True) for t in nx]
                yns = [t.clone().requires_grad_(True) for t in ny]
                kw = dict(weights=w, batch_reduction=br, point_reduction=pr, norm=norm, single_directional=single, abs_cosine=ac)
                tag = "chamfer lengths %s/%s input %s normals %s %s" % (xl, yl, inp, nrm, {k: (v.tolist() if torch.is_tensor(v) else v) for k, v in kw.items()})
                if inp == "tensor":
                    kw2 = dict(kw)
                    if not full:
                        kw2.update(x_lengths=torch.tensor(xl), y_lengths=torch.tensor(yl))
                    if nrm != "none":
                        kw2["x_normals"] = pad(xns, P1, 7.0)
                    if nrm == "both":
                        kw2["y_normals"] = pad(yns, P2, -5.0)
                    X, Y = pad(xs, P1, 0.3), pad(ys, P2, 0.2)
                    keep = [X.detach().clone(), Y.detach().clone(), w.clone() if w is not None else None]
                    loss, ln = chamfer_distance(X, Y, **kw2)
                    expect(torch.equal(keep[0], X) and torch.equal(keep[1], Y) and (w is None or torch.equal(keep[2], w)), tag + ": input changed")
                else:
                    loss, ln = chamfer_distance(Pointclouds(xs, normals=xns if nrm != "none" else None),
                                                Pointclouds(ys, normals=yns if nrm == "both" else None), **kw)
                rec.step()
                if w is not None and float(w.sum()) == 0:
                    expect_close(tag, loss, torch.zeros(()), atol=0)
                    continue
                if pr is None:
                    (X_, Y_) = ref
                    dirs = [(X_, xl, P1)] if single else [(X_, xl, P1), (Y_, yl, P2)]
                    gl = [loss] if single else list(loss)
                    gn = [ln] if single else (list(ln) if ln is not None else [None, None])
                    tot_r, tot_g = 0.0, 0.0
                    for (R, lens, mx), a, b in zip(dirs, gl, gn):
                        width = mx if inp == "tensor" else max(lens)
                        for i in range(N):
                            expect(tuple(a.shape) == (N, width), "%s: shape %s" % (tag, tuple(a.shape)))
                            expect_close(tag + ": element %d" % i, a[i, :lens[i]], R[0][i], atol=2e-5, rtol=1e-4)
                            expect_close(tag + ": element %d padding" % i, a[i, lens[i]:], torch.zeros(width - lens[i]), atol=0)
                            if both and defined:
                                expect_close(tag + ": element %d normals" % i, b[i, :lens[i]], R[1][i], atol=2e-5, rtol=1e-4)
                                expect_close(tag + ": element %d normals padding" % i, b[i, lens[i]:], torch.zeros(width - lens[i]), atol=0)
                            tot_r = tot_r + R[0][i].sum() * (i + 1)
                            tot_g = tot_g + a[i].sum() * (i + 1)
                else:
                    expect_close(tag, loss, ref[0], atol=2e-5, rtol=1e-4)
                    if both and defined:
                        expect_close(tag + ": normals", ln, ref[1], atol=2e-5, rtol=1e-4)
                    elif not both:
                        expect(ln is None, tag + ": a normal loss without normals")
                    wt = torch.arange(1, N + 1) * 1.0 if br is None else 1.0
                    tot_r, tot_g = (ref[0] * wt).sum(), (loss * wt).sum()
                    if both and defined:
                        tot_r, tot_g = tot_r + (ref[1] * wt).sum() * 0.7, tot_g + (ln * wt).sum() * 0.7
                if norm == 2 or norm == 1:
                    lr = [t for t in x64 + y64 + (xn64 or []) + (yn64 or [])]
                    lg = [t for t in xs + ys + (xns if xn64 else []) + (yns if yn64 else [])]
                    if torch.is_tensor(tot_g) and tot_g.requires_grad:
                        gr = torch.autograd.grad(tot_r, lr, allow_unused=True) if torch.is_tensor(tot_r) and tot_r.requires_grad else [None] * len(lr)
                        gg = torch.autograd.grad(tot_g, lg, allow_unused=True)
                        if not defined and both:
                            continue
                        for t, a, b in zip(lg, gg, gr):
                            a = torch.zeros_like(t) if a is None else a
                            b = torch.zeros_like(t) if b is None else b
                            expect_close(tag + ": gradient", a, b, atol=1e-4, rtol=1e-3)
                        rec.step()
        rec.state([xl, yl, inp])


def run_chamfer_errors(case, rec):
    x = torch.rand(2, 3, 3)
    bad = [dict(batch_reduction="max"), dict(point_reduction="min"), dict(batch_reduction="mean", point_reduction=None), dict(norm=3),
           dict(weights=torch.tensor([1.0, -1.0])), dict(weights=torch.ones(3)), dict(x_lengths=torch.tensor([4, 1])), dict(x_lengths=torch.tensor([1])),
           dict(point_reduction="max", x_normals=x, y_normals=x), dict(x_normals=x[0], y_normals=x)]
    for kw in bad:
        try:
            chamfer_distance(x, x, **kw)
        except ValueError:
            rec.step()
            continue
        raise Violation("chamfer_distance accepts %s" % list(kw))
    for a, b in ((x, x[:1]), (x[0], x), (x, x[..., :2]), ([1], x)):
        try:
            chamfer_distance(a, b)
        except ValueError:
            rec.step()
            continue
        raise Violation("chamfer_distance accepts inputs of mismatching kinds")
    rec.state(case)
