"""C39: local geometry: symmetric eigenproblems, normals of point clouds, closed surfaces, circles and camera paths."""
import itertools
import math

import torch
from mc.core import expect, expect_close, expect_raises

from pytorch3d.common.workaround import symeig3x3
from pytorch3d.implicitron.tools.circle_fitting import fit_circle_in_2d, fit_circle_in_3d, get_rotation_to_best_fit_xy
from pytorch3d.implicitron.tools.eval_video_trajectory import generate_eval_video_cameras
from pytorch3d.ops import estimate_pointcloud_local_coord_frames, estimate_pointcloud_normals
from pytorch3d.renderer import PerspectiveCameras, look_at_view_transform
from pytorch3d.structures import Pointclouds
from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.utils import checkerboard, ico_sphere, torus

PROPERTY = "C39"
ASSUMPTIONS = [
    "eigenvalues within 1e-3 of the largest element are not told apart, and eigenvectors are compared where they are",
    "the sign of a direction is compared where a majority of the neighbours lies on one side; distances to neighbours have no ties",
    "spheres up to level 5, circles through at least 3 different points that are not on a line",
]
BOUNDS = {
    "quick": "all symmetric matrices over {-1, -0.3, 0, 0.004, 0.5, 1} at 7 scales from 1e-12 to 1e8 in 2 precisions, with gradients; normals of all "
             "choices of 7 and 8 of 9 points x 5 scales x neighbourhoods 3..6 as tensors, lists and padded batches; spheres of levels 0..4; checkerboards up to 8 x 8; tori with "
             "3..7 sides and rings; all choices of 3 and 4 of 12 points of a circle in both orders x planes and offsets; 4 kinds of camera paths x options",
    "thorough": "matrices over 8 values, choices of 6 of 9 points, level 5, 3..12 sides and rings, all choices of 5 points of the circle",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64
VALS = [-1.0, -0.3, 0.0, 0.004, 0.5, 1.0]
VALS8 = VALS + [0.02, -0.7]
SCALES = [1e-12, 1e-7, 1e-4, 1e-2, 1.0, 1e4, 1e8]


def run_eig(c, rec):
    v = VALS8 if c["deep"] else VALS
    dt = torch.float64 if c["double"] else torch.float32
    t = torch.tensor(list(itertools.product(v, repeat=4)), dtype=f64)
    t = torch.cat([torch.tensor([[c["a"], c["b"]]], dtype=f64).expand(len(t), 2), t], 1)
    A = t[:, [0, 1, 2, 1, 3, 4, 2, 4, 5]].reshape(-1, 3, 3)
    for s in SCALES:
        X = (A * s).to(dt)
        w, V = symeig3x3(X)
        what = "symeig3x3 of %s matrices of scale %g" % (dt, s)
        expect(w.shape == (len(X), 3) and V.shape == X.shape and w.dtype == dt and V.dtype == dt, "%s: shapes or types" % what)
        n = X.double().abs().amax((1, 2), keepdim=True)
        n = torch.where(n > 0, n, torch.ones_like(n))
        W = torch.linalg.eigvalsh(X.double() / n)
        w1, V1 = w.double() / n[:, 0], V.double()

        def at(bad, why):
            if bad.any():
                i = int(bad.nonzero()[0])
                expect(False, "%s: %s: %s gives %s, %s" % (what, why, X[i].tolist(), w[i].tolist(), V[i].tolist()))
        at(~torch.isfinite(w1).all(1) | ~torch.isfinite(V1).all(2).all(1), "not finite")
        at((w1 - W).abs().amax(1) > 1e-3, "wrong eigenvalues")
        at((w1.diff(dim=1) < -1e-3).any(1), "eigenvalues not ascending")
        at((V1.transpose(1, 2) @ V1 - torch.eye(3, dtype=f64)).abs().amax((1, 2)) > 1e-4, "eigenvectors not orthonormal")
        res = (X.double() / n @ V1 - V1 * w1[:, None]).abs().amax((1, 2))
        at(res > 2e-3, "not eigenvectors")
        w2, none = symeig3x3(X.reshape(2, -1, 3, 3), eigenvectors=False)
        expect(none is None and torch.equal(w2.reshape(-1, 3), w), "%s: eigenvalues without eigenvectors differ" % what)
        if s in (1e-7, 1.0, 1e4):
            Y = X.clone().requires_grad_(True)
            w3, V3 = symeig3x3(Y)
            co = torch.tensor([1.0, -2.0, 0.5], dtype=dt)
            g, = torch.autograd.grad((w3 * co).sum() , Y, retain_graph=True)
            expect(bool(torch.isfinite(g).all()), "%s: gradient is not finite" % what)
            _, Ve = torch.linalg.eigh(X.double() / n)
            want = (Ve * co.double()) @ Ve.transpose(1, 2)
            gap = W.diff(dim=1).amin(1)
            off = torch.stack([A[:, 0, 1], A[:, 0, 2], A[:, 1, 2]], 1).abs().amax(1) / A.abs().amax((1, 2)).clamp(min=1e-9)
            ok = (gap > 0.3) & (off > 0.1)
            gs = (g + g.transpose(1, 2)).double() / 2
            at(ok & ((gs - want).abs().amax((1, 2)) > 2e-2), "wrong gradient of the eigenvalues")
        rec.state((c["a"], c["b"], s, c["double"]))
        rec.step(len(X))
    rec.trace()


BASE = [(0.0, 0.02, 0.31), (1.03, -0.11, 0.05), (-0.07, 1.11, 0.13), (0.93, 1.05, -0.21), (2.11, 0.17, 0.42), (1.91, 1.23, 0.07),
        (0.52, 2.13, -0.35), (-1.17, 0.63, 0.61), (1.37, 2.41, 0.58)]


def normal_ref(P, K):
    """float64 points (n,3): eigenvalues, frames, gaps, sign determined (n,2)"""
    d = torch.cdist(P, P)
    nn = d.topk(K, largest=False).indices
    Q = P[nn]
    D = Q - Q.mean(1, keepdim=True)
    cov = (D[..., :, None] * D[..., None, :]).mean(1)
    w, V = torch.linalg.eigh(cov)
    frames, sure = [], []
    for col in (0, 2):
        v = V[:, :, col]
        pr = ((Q - P[:, None]) * v[:, None]).sum(2)
        big = (Q - P[:, None]).norm(dim=2).amax(1, keepdim=True)
        others = torch.ones_like(pr, dtype=torch.bool)
        others[nn == torch.arange(len(P))[:, None]] = False
        pos, neg = ((pr > 0) & others).sum(1), ((pr < 0) & others).sum(1)
        clear = ((pr.abs() > 1e-3 * big) | ~others).all(1)
        frames.append(torch.where((pos >= neg)[:, None], v, -v))
        sure.append((pos != neg) & clear)
    return w, frames[0], frames[1], torch.stack(sure, 1), V


def run_normals(c, rec):
    K, scale, shift = c["K"], c["scale"], c["shift"]
    combos = [list(x) for x in itertools.combinations(range(9), c["n"])]
    clouds = [torch.tensor([BASE[i] for i in x], dtype=f64) * scale + torch.tensor(shift, dtype=f64) * scale for x in combos]
    extra = torch.tensor(BASE, dtype=f64) * scale
    clouds.append(extra)  # one of another size
    lists = [p.float() for p in clouds]
    refs = [normal_ref(p.double() - p.double().mean(0), K) for p in lists]

    def compare(what, curv, fr, n, dis, wa):
        for b in range(n):
            w, nr, zr, sure, V = refs[b]
            m = len(w)
            s2 = float(w.max())
            what_b = "%s cloud %d K=%d scale=%g" % (what, b, K, scale)
            expect_close(what_b + " curvatures", curv[b, :m] / s2, w / s2, 2e-3, 2e-3)
            gap = w.diff(dim=1) / s2
            F = fr[b, :m].double()
            for col, ref, ok, k in ((0, nr, gap[:, 0] > 0.03, 0), (2, zr, gap[:, 1] > 0.03, 1)):
                dots = (F[:, :, col] * ref).sum(1)
                bad = ok & (dots.abs() < 0.999)
                if dis:
                    bad |= ok & sure[:, k] & (dots < 0)
                if bad.any():
                    i = int(bad.nonzero()[0])
                    expect(False, "%s: direction %d of point %d is %s, not %s" % (what_b, col, i, F[i, :, col].tolist(), ref[i].tolist()))
            expect_close(what_b + " frames are orthonormal", F.transpose(1, 2) @ F, torch.eye(3, dtype=f64).expand(m, 3, 3), 1e-3, 0)
            rec.step(m)

    padded = torch.stack(lists[:-1])
    for dis, wa in itertools.product((True, False), repeat=2):
        curv, fr = estimate_pointcloud_local_coord_frames(padded, K, dis, use_symeig_workaround=wa)
        compare("tensor dis=%s workaround=%s:" % (dis, wa), curv, fr, len(padded), dis, wa)
        pcl = Pointclouds(lists)
        curv, fr = estimate_pointcloud_local_coord_frames(pcl, K, dis, use_symeig_workaround=wa)
        compare("list dis=%s workaround=%s:" % (dis, wa), curv, fr, len(lists), dis, wa)
        expect(torch.equal(estimate_pointcloud_normals(pcl, K, dis, use_symeig_workaround=wa), fr[..., 0]), "estimate_pointcloud_normals is not the first of the frame")
        rec.state((c["n"], K, scale, tuple(shift), dis, wa))
    # assigned to the clouds
    for make, warm, old in itertools.product(("list", "padded"), (False, True), (False, True)):
        src = lists if make == "list" else padded
        nrm = [torch.full_like(p, 0.5) for p in lists] if make == "list" else torch.full_like(padded, 0.5)
        pcl = Pointclouds(src, normals=nrm if old else None)
        if warm:
            pcl.points_list(), pcl.points_packed(), pcl.normals_packed(), pcl.normals_list()
        est = pcl.estimate_normals(K, True, assign_to_self=False)
        expect((pcl.normals_list() is None) == (not old), "estimate_normals without assignment sets normals")
        est2 = pcl.estimate_normals(K, True, assign_to_self=True)
        expect(torch.equal(est, est2), "estimate_normals with assignment returns something else")
        want = [est[i, :len(p)] for i, p in enumerate(src)]
        what = "normals assigned to clouds from %s, views computed before: %s, with normals: %s" % (make, warm, old)
        expect(all(torch.equal(a, b) for a, b in zip(pcl.normals_list(), want)), what + ": list")
        expect(torch.equal(pcl.normals_packed(), torch.cat(want)), what + ": packed")
        pd = pcl.normals_padded()
        expect(all(torch.equal(pd[i, :len(a)], a) for i, a in enumerate(want)), what + ": padded")
        sub = pcl[[len(src) - 1, 0]]
        expect(torch.equal(sub.normals_list()[0], want[-1]) and torch.equal(sub.normals_list()[1], want[0]), what + ": indexed")
        cl = pcl.clone()
        expect(torch.equal(cl.normals_packed(), torch.cat(want)), what + ": clone")
    expect_raises(lambda: estimate_pointcloud_normals(padded, padded.shape[1]), "a neighbourhood of the size of the cloud is accepted", (ValueError,))
    expect_raises(lambda: estimate_pointcloud_normals(padded[..., :2], 3), "2D points are accepted", (ValueError,))
    rec.trace()


def closed(what, mesh, euler):
    v, f = mesh.verts_list()[0].double(), mesh.faces_list()[0].tolist()
    seen = {}
    for a, b, c in f:
        expect(len({a, b, c}) == 3, "%s: degenerate face %s" % (what, (a, b, c)))
        for e in ((a, b), (b, c), (c, a)):
            expect(e not in seen, "%s: the edge %s is used twice in one direction" % (what, e))
            seen[e] = 1
    expect(all((b, a) in seen for a, b in seen), "%s: not closed" % what)
    expect({i for t in f for i in t} == set(range(len(v))), "%s: unused vertices" % what)
    expect(len(v) - len(seen) // 2 + len(f) == euler, "%s: Euler characteristic %d" % (what, len(v) - len(seen) // 2 + len(f)))
    t = v[torch.tensor(f)]
    vol = float((t[:, 0] * torch.cross(t[:, 1], t[:, 2], dim=1)).sum() / 6)
    return v, t, vol, f


def run_shapes(c, rec):
    if c["what"] == "sphere":
        L = c["level"]
        m = ico_sphere(L)
        what = "ico_sphere(%d)" % L
        v, t, vol, f = closed(what, m, 2)
        expect(len(f) == 20 * 4 ** L and len(v) == 10 * 4 ** L + 2, "%s: %d vertices, %d faces" % (what, len(v), len(f)))
        expect(float((v.norm(dim=1) - 1).abs().max()) < (1e-4 if L == 0 else 2e-6), "%s: radius %s" % (what, v.norm(dim=1).tolist()[:3]))
        nr = torch.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0], dim=1)
        expect(bool(((nr * t.mean(1)).sum(1) > 0).all()), "%s: faces do not point outwards" % what)
        expect(abs(vol / (4 / 3 * math.pi) - 1) < 0.5 / 3.5 ** L, "%s: volume %s" % (what, vol))
        expect(float(torch.cdist(v, v).fill_diagonal_(9).min()) > 0.9 / 2 ** L * 0.6, "%s: vertices coincide" % what) if L < 4 else None
        expect_close(what + ": symmetry", v.mean(0), torch.zeros(3, dtype=f64), 1e-5, 0)
        again = ico_sphere(L)
        expect(torch.equal(again.verts_packed(), m.verts_packed()), "%s: differs the second time" % what)
    elif c["what"] == "board":
        for radius in range(1, c["mx"]):
            for cols in (None, ((0.2, 0.4, 0.6), (1.0, 0.0, 0.5)), ((0.25,), (0.75,)), ((0.1, 0.2, 0.3, 0.4), (0.5, 0.6, 0.7, 0.8))):
                m = checkerboard(radius, *(cols or ()))
                what = "checkerboard(%d, %s)" % (radius, cols)
                expect(len(m) == 1, what + ": more than one mesh")
                v, f = m.verts_packed().double(), m.faces_packed()
                t = v[f]
                nr = torch.cross(t[:, 1] - t[:, 0], t[:, 2] - t[:, 0], dim=1)
                expect_close(what + ": half unit squares in the xy-plane, turned the same way", nr, nr[:1].expand_as(nr), 1e-6, 0)
                expect(abs(abs(float(nr[0, 2])) - 1) < 1e-6 and float(v[:, 2].abs().max()) == 0, what + ": faces")
                rgb = m.sample_textures(Fragments(torch.arange(len(f)).view(1, 1, -1, 1), torch.ones(1, 1, len(f), 1), torch.full((1, 1, len(f), 1, 3), 1 / 3), torch.zeros(1, 1, len(f), 1)))[0, 0, :, 0]
                squares = {}
                for k in range(len(f)):
                    mid = t[k].mean(0)
                    lo = (math.floor(mid[0]), math.floor(mid[1]))
                    expect(bool((t[k, :, :2] - torch.tensor([lo], dtype=f64)).abs().sub(0.5).abs().sub(0.5).abs().max() < 1e-6), what + ": a face leaves its square")
                    squares.setdefault(lo, []).append((tuple(mid.tolist()), tuple(rgb[k].tolist())))
                expect(set(squares) == set(itertools.product(range(-radius, radius), repeat=2)), what + ": squares")
                want = [tuple(torch.tensor(x).tolist()) for x in (cols or ((0.0,) * 3, (1.0,) * 3))]
                for (x, y), parts in squares.items():
                    expect(len(parts) == 2 and parts[0][0] != parts[1][0] and parts[0][1] == parts[1][1] and parts[0][1] in want, lambda: "%s: square %s is %s" % (what, (x, y), parts))
                    for o in ((x + 1, y), (x, y + 1)):
                        expect(o not in squares or squares[o][0][1] != parts[0][1], lambda: "%s: squares %s and %s have the same color" % (what, (x, y), o))
                rec.step()
    else:
        for sides, rings in itertools.product(range(3, c["mx"]), repeat=2):
            r, R = c["r"], c["R"]
            m = torus(r, R, sides, rings)
            what = "torus(%s, %s, %d, %d)" % (r, R, sides, rings)
            v, t, vol, f = closed(what, m, 0)
            expect(len(v) == sides * rings and len(f) == 2 * sides * rings, "%s: sizes" % what)
            d = ((v[:, :2].norm(dim=1) - R) ** 2 + v[:, 2] ** 2).sqrt()
            expect(float((d - r).abs().max()) < 1e-5 * R, "%s: not on the torus" % what)
            area = sides / 2 * r * r * math.sin(2 * math.pi / sides)
            want = area * R * rings * math.sin(2 * math.pi / rings)  # Pappus for a polygon of rings, up to the wedge correction
            expect(vol > 0 and 0.5 < vol / want < 1.5, "%s: volume %s, about %s expected" % (what, vol, want))
            expect_close(what + ": centred", v.mean(0), torch.zeros(3, dtype=f64), 1e-5 * R, 0)
            rec.step()
    for bad in (lambda: ico_sphere(-1), lambda: torus(1, 2, 0, 3), lambda: torus(1, 2, 3, 0), lambda: checkerboard(0)):
        expect_raises(bad, "a shape without parts is made", (ValueError,))
    rec.state(tuple(sorted((k, str(x)) for k, x in c.items())))
    rec.trace()


CIRC = [(5, 0), (4, 3), (3, 4), (0, 5), (-3, 4), (-4, 3), (-5, 0), (-4, -3), (-3, -4), (0, -5), (3, -4), (4, -3)]
PLANES = [((1, 0, 0), (0, 1, 0)), ((0, 1, 0), (0, 0, 1)), ((0.6, 0.8, 0), (0, 0, 1)), ((2 / 3, 2 / 3, 1 / 3), (-2 / 3, 1 / 3, 2 / 3))]


def rot(p, a):
    return (p[0] * math.cos(a) - p[1] * math.sin(a), p[0] * math.sin(a) + p[1] * math.cos(a))


def run_circle(c, rec):
    angs = [0.0, 0.5, 2.0, -1.0, 7.0]
    for rest in itertools.combinations(range(c["first"] + 1, 12), c["n"] - 1):
        ids = (c["first"],) + rest
        for order in (ids, ids[::-1], ids[1:] + ids[:1]):
            turn = -1 if order == ids[::-1] else 1
            for s, (ox, oy) in ((1.0, (0.0, 0.0)), (0.02, (0.3, -0.1)), (30.0, (-40.0, 7.0))):
                pts = [(CIRC[i][0] * s + ox, CIRC[i][1] * s + oy) for i in order]
                t = torch.tensor(pts, dtype=f64)
                p0 = (CIRC[order[0]][0] * s, CIRC[order[0]][1] * s)
                exp = [rot(p0, turn * a) for a in angs]
                what = "circle through %s scale %s offset %s" % ([CIRC[i] for i in order], s, (ox, oy))
                fit = fit_circle_in_2d(t, angles=torch.tensor(angs, dtype=f64))
                tol = 1e-6 * s + 1e-9
                expect_close(what + ": centre", fit.center / s, torch.tensor([ox, oy], dtype=f64) / s, 1e-6, 1e-6)
                expect_close(what + ": radius", fit.radius / s, torch.tensor(5.0, dtype=f64), 1e-6, 0)
                expect_close(what + ": points", (fit.generated_points - torch.tensor([ox, oy], dtype=f64)) / s, torch.tensor(exp, dtype=f64) / s, 1e-5, 0)
                n = 5
                fit = fit_circle_in_2d(t, n_points=n)
                exp2 = [rot(p0, turn * 2 * math.pi * k / (n - 1)) for k in range(n)]
                expect_close(what + ": n_points", (fit.generated_points - torch.tensor([ox, oy], dtype=f64)) / s, torch.tensor(exp2, dtype=f64) / s, 1e-5, 0)
                expect(fit_circle_in_2d(t).generated_points.shape == (0, 2), what + ": points without being asked for")
                rec.step()
                e1, e2 = PLANES[(c["first"] + len(rest) + order[0]) % 4]
                e1, e2 = torch.tensor(e1, dtype=f64), torch.tensor(e2, dtype=f64)
                nrm = torch.cross(e1, e2, dim=0)
                base = torch.tensor([0.1, -0.2, 0.7], dtype=f64) * s

                def lift(q):
                    q = torch.tensor(q, dtype=f64)
                    return q[:, :1] * e1 + q[:, 1:] * e2 + base
                p3 = lift(pts)
                fit = fit_circle_in_3d(p3, angles=torch.tensor(angs, dtype=f64))
                ctr = lift([(ox, oy)])[0]
                want3 = lift([(x + ox, y + oy) for x, y in exp])
                expect_close(what + ": centre 3D", fit.center / s, ctr / s, 1e-5, 1e-6)
                expect_close(what + ": radius 3D", fit.radius / s, torch.tensor(5.0, dtype=f64), 1e-5, 0)
                expect(abs(abs(float(fit.normal @ nrm)) - 1) < 1e-5, "%s: normal %s, not %s" % (what, fit.normal.tolist(), nrm.tolist()))
                expect_close(what + ": points 3D", fit.generated_points / s, want3 / s, 2e-5, 1e-6)
                for sg in (1, -1):
                    up = sg * nrm + 0.4 * e1
                    off = torch.tensor([0.0, 0.0, 0.7], dtype=f64) * s
                    g = fit_circle_in_3d(p3, angles=torch.tensor(angs, dtype=f64), offset=off, up=up).generated_points
                    expect_close(what + ": offset along the normal", g / s, (want3 + sg * nrm * 0.7 * s) / s, 2e-5, 1e-6)
                    off = torch.tensor([0.3, -0.4, 0.7], dtype=f64) * s
                    g = (fit_circle_in_3d(p3, angles=torch.tensor(angs, dtype=f64), offset=off, up=up).generated_points - want3) / s
                    expect(float((g - g[:1]).abs().max()) < 1e-5, what + ": the offset differs from point to point")
                    expect(abs(float(g[0] @ nrm) * sg - 0.7) < 1e-5 and abs(float((g[0] - sg * 0.7 * nrm).norm()) - 0.5) < 1e-5, what + ": offset %s" % g[0].tolist())
                expect_raises(lambda: fit_circle_in_3d(p3, n_points=3, offset=off), what + ": offset without up", (ValueError,))
                # noise: the stated sum of squares is least
                noisy = t + torch.tensor([[0.07 * math.sin(3 * i + 1), 0.05 * math.cos(5 * i)] for i in range(len(t))], dtype=f64) * s
                f2 = fit_circle_in_2d(noisy)

                def cost(cx, cy, r):
                    return float(((r * r - ((noisy - torch.stack([cx, cy])) ** 2).sum(1)) ** 2).sum()) / s ** 4
                here = cost(f2.center[0], f2.center[1], f2.radius)
                for dx, dy, dr in itertools.product((-1e-3, 0.0, 1e-3), repeat=3):
                    expect(cost(f2.center[0] + dx * s, f2.center[1] + dy * s, f2.radius + dr * s) >= here - 1e-8, what + ": not the least squares circle")
        rec.state(ids)
        if c["n"] > 3:
            continue
        # planes of batches of any shape
        every = [torch.tensor([[CIRC[i][0], CIRC[i][1], 0.1 * i] for i in ids], dtype=f64)[:, list(p)] + k for k, p in enumerate(itertools.permutations(range(3)))]
        for shape in ((6,), (3,), (2,), (1,), (2, 3), (3, 2), (3, 1)):
            n = math.prod(shape)
            pts = torch.stack(every[:n]).reshape(*shape, len(ids), 3)
            r = get_rotation_to_best_fit_xy(pts).reshape(n, 3, 3)
            for i in range(n):
                for one in (r[i], get_rotation_to_best_fit_xy(every[i]), get_rotation_to_best_fit_xy(every[i], every[i].mean(0))):
                    q = (every[i] - every[i].mean(0)) @ one
                    expect(float(q[:, 2].abs().max()) < 1e-6 and abs(float(torch.linalg.det(one)) - 1) < 1e-6 and
                           float((one @ one.T - torch.eye(3, dtype=f64)).abs().max()) < 1e-6,
                           "element %d of a batch %s: not a rotation to the plane: %s" % (i, shape, one.tolist()))
    expect_raises(lambda: fit_circle_in_2d(torch.zeros(2, 2)), "a circle through two points", (ValueError,))
    rec.trace()


def run_traj(c, rec):
    kind, ncam, tilt = c["path"], c["n"], c["tilt"]
    ang = [(360 / ncam) * i + 4.1 * ((i * i + i // 3) % 5) for i in range(ncam)]
    cs = [(5 * math.cos(math.radians(a)) + 0.4, 5 * math.sin(math.radians(a)) - 0.3, 1.2 + (0.05 * ((i * 5) % 4) if kind != "circular_lsq_fit" else 0.0)) for i, a in enumerate(ang)]
    M = torch.tensor([[1.0, 0, 0], [0, math.cos(tilt), math.sin(tilt)], [0, -math.sin(tilt), math.cos(tilt)]], dtype=f64)
    C = torch.tensor(cs, dtype=f64) @ M
    upv = M[2]
    R, T = look_at_view_transform(eye=C.float(), at=((0.1, 0.2, -0.1),), up=(tuple(upv.tolist()),))
    foc = torch.tensor([[1.0 + 0.1 * i, 1.5 + 0.05 * i] for i in range(ncam)])
    pp = torch.tensor([[0.02 * i, -0.01 * i] for i in range(ncam)])
    cams = PerspectiveCameras(R=R, T=T, focal_length=foc, principal_point=pp)
    for n_eval, scale, use_time, infer, off, canon, center in itertools.product(
            (4, 7), (1.0, 0.3), (False, True), (False, True), (None, (0.3, -0.2, 0.5)), (None, (0.2, 0.1, 0.4)), ((0.0, 0.0, 0.0), (0.4, -0.3, 0.2))):
        time = torch.tensor([0.3 + 0.8 * k for k in range(n_eval)]) if use_time else None
        kw = {}
        if c["intr"]:
            kw = {"focal_length": torch.tensor([[2.0, 3.0]]).repeat(n_eval, 1), "principal_point": torch.tensor([[0.1, 0.2]]).repeat(n_eval, 1)}
        up = tuple((upv + torch.tensor([0.05, 0.02, 0.01], dtype=f64)).tolist())
        got = generate_eval_video_cameras(cams, n_eval_cams=n_eval, trajectory_type=kind, trajectory_scale=scale, scene_center=center, up=up, time=time,
                                          infer_up_as_plane_normal=infer, traj_offset=off, traj_offset_canonical=canon, **kw)
        what = "%s path of %d from %d cameras scale=%s time=%s infer_up=%s offset=%s canonical=%s centre=%s" % (
            kind, n_eval, ncam, scale, use_time, infer, off, canon, center)
        if kind == "circular_lsq_fit":
            ts = [0.3 + 0.8 * k for k in range(n_eval)] if use_time else [2 * math.pi * k / (n_eval - 1) for k in range(n_eval)]
            p = []
            for a in ts:
                x, y = rot((cs[0][0] - 0.4, cs[0][1] + 0.3), a)
                p.append((x + 0.4, y - 0.3, 1.2))
            want = torch.tensor(p, dtype=f64)
            if canon:
                want[:, 2] += canon[2]
            inplane = canon is not None
            mu = want.mean(0)
            want = ((want - mu) * scale + mu) @ M
        else:
            ts = torch.tensor([0.3 + 0.8 * k for k in range(n_eval)] if use_time else [2 * math.pi * k / n_eval for k in range(n_eval)], dtype=f64)
            if kind == "figure_eight":
                q = torch.stack([ts.cos(), (2 * ts).sin() / 2, ts.sin() * 0.5], 1)
            elif kind == "trefoil_knot":
                q = torch.stack([ts.sin() + 2 * (2 * ts).sin(), ts.cos() - 2 * (2 * ts).cos(), -(3 * ts).sin() * 0.5], 1)
            else:
                q = torch.stack([(2 + (2 * ts).cos()) * (3 * ts).cos(), (2 + (2 * ts).cos()) * (3 * ts).sin(), (4 * ts).sin() * 0.5], 1)
            q[:, 2] -= q[:, 2].max()
            i = int(((C - C.mean(0)) ** 2).sum(1).argmin())
            q = q * (C.std(0).mean() * scale)
            if canon:
                q = q + torch.tensor(canon, dtype=f64)
            want = (q - T[i].double()) @ R[i].double().T
            inplane = False
        if off:
            want = want + torch.tensor(off, dtype=f64)
        got_c = got.get_camera_center().double()
        if inplane:  # the rotation of the canonical offset within the plane is not specified
            d = (got_c - want)
            expect(float((d - d[:1]).abs().max()) < 2e-3 and abs(float(d[0] @ upv)) < 2e-3 and abs(float(d[0].norm()) - math.hypot(canon[0], canon[1])) < 2e-3,
                   "%s: positions differ by %s" % (what, d.tolist()))
        else:
            expect_close(what + ": positions", got_c, want, 2e-3, 1e-4)
        ctr = torch.tensor(center)
        v = got.get_world_to_view_transform().transform_points(ctr[None, None].expand(len(got_c), 1, 3))[:, 0].double()
        d = (got_c - ctr.double()).norm(dim=1)
        expect_close(what + ": the centre is straight ahead", v, torch.stack([0 * d, 0 * d, d], 1), 2e-3, 1e-4)
        if kind == "circular_lsq_fit" or not infer:
            u = upv if infer else torch.tensor(up, dtype=f64)
        else:
            X = C - C.mean(0)
            n = torch.linalg.eigh(X.T @ X)[1][:, 0]
            u = n if float(n @ torch.tensor(up, dtype=f64)) > 0 else -n
        uv = (u @ got.R.double())
        expect(float(uv[:, 0].abs().max()) < 3e-3 * float(u.norm()) and bool((uv[:, 1] > 0).all()), "%s: up is %s in the images" % (what, uv.tolist()))
        fl = torch.tensor([[2.0, 3.0]]) if c["intr"] else foc.mean(0)[None]
        pr = torch.tensor([[0.1, 0.2]]) if c["intr"] else pp.mean(0)[None]
        expect_close(what + ": focal length", got.focal_length, fl.expand(n_eval, 2), 1e-5, 0)
        expect_close(what + ": principal point", got.principal_point, pr.expand(n_eval, 2), 1e-5, 0)
        rec.step()
        rec.state((kind, ncam, tilt, n_eval, scale, use_time, infer, bool(off), bool(canon), center, c["intr"]))
    # outliers: the path is that of the remaining cameras
    far = torch.tensor([[60.0, 55.0, 70.0], [-50.0, -65.0, -45.0]])
    Rf, Tf = look_at_view_transform(eye=far, at=((0.0, 0.0, 0.0),))
    both = PerspectiveCameras(R=torch.cat([Rf[:1], R, Rf[1:]]), T=torch.cat([Tf[:1], T, Tf[1:]]), focal_length=torch.cat([foc[:1], foc, foc[:1]]),
                              principal_point=torch.cat([pp[:1], pp, pp[:1]]))
    a = generate_eval_video_cameras(both, n_eval_cams=5, trajectory_type=kind, remove_outliers_rate=2.0 / (ncam + 2) + 1e-6)
    b = generate_eval_video_cameras(cams, n_eval_cams=5, trajectory_type=kind)
    expect_close("%s path with outliers removed" % kind, a.get_camera_center(), b.get_camera_center(), 2e-3, 1e-4)
    rec.trace()


RUN = {"eig": run_eig, "normals": run_normals, "shapes": run_shapes, "circle": run_circle, "traj": run_traj}


def cases(tier):
    deep = tier == "thorough"
    out = []
    v = VALS8 if deep else VALS
    for a, b in itertools.product(v, repeat=2):
        for dbl in (False, True):
            out.append({"kind": "eig", "a": a, "b": b, "double": dbl, "deep": deep})
    for n in (6, 7, 8) if deep else (7, 8):
        for K in range(3, min(n, 7)):
            for scale, shift in ((1.0, (0, 0, 0)), (1e-2, (3, -2, 5)), (1e-5, (0, 0, 0)), (300.0, (1, 1, 1)), (1.0, (40, -30, 20))):
                out.append({"kind": "normals", "n": n, "K": K, "scale": scale, "shift": list(shift)})
    for L in range(6 if deep else 5):
        out.append({"kind": "shapes", "what": "sphere", "level": L})
    out.append({"kind": "shapes", "what": "board", "mx": 8 if deep else 5})
    for r, R in ((0.3, 1.0), (1.0, 2.5), (0.01, 7.0)):
        out.append({"kind": "shapes", "what": "torus", "r": r, "R": R, "mx": 13 if deep else 8})
    for n in (3, 4, 5) if deep else (3, 4):
        for first in range(12 - n + 1):
            out.append({"kind": "circle", "n": n, "first": first})
    for path in ("circular_lsq_fit", "figure_eight", "trefoil_knot", "figure_eight_knot"):
        for n in (4, 6, 9):
            for tilt in (0.0, 0.7, 2.5):
                out.append({"kind": "traj", "path": path, "n": n, "tilt": tilt, "intr": n == 6})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
