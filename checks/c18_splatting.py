"""C18: every lattice position of a point around every small voxel grid, every small set of points with every mask, grid size and option, against the definition of the splat."""
import itertools

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.ops import add_pointclouds_to_volumes, add_points_features_to_volume_densities_features
from pytorch3d.structures import Pointclouds, Volumes

PROPERTY = "C18"
ASSUMPTIONS = ["nearest mode: no point exactly halfway between two voxels", "gradients with respect to positions are compared away from voxel centre planes",
               "the private python variant is compared where it is defined (align_corners, one grid size, default rescaling)"]
BOUNDS = {
    "quick": "all grid sizes in {1,2,3}^3 and two larger x both corner conventions x both modes x every lattice position (step 1/4 voxel, from 1.25 voxels outside to 1.25 outside) "
             "of one point, with gradients; all sets of 2 from 12 and 3 of 7 positions x all masks x 4 grid-size assignments in a padded batch x rescaling x min weight x initial content; "
             "batches of clouds of sizes 0..3 with Volumes of 6 kinds",
    "thorough": "as quick with step 1/8, sets of 3 of 12 positions and clouds of sizes 0..4",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64


def cases(tier):
    th = tier == "thorough"
    out = []
    for s in list(itertools.product((1, 2, 3), repeat=3)) + [(4, 2, 3), (2, 5, 2)]:
        for al in (True, False):
            for mode in ("trilinear", "nearest"):
                out.append(["single", list(s), al, mode, 8 if th else 4])
    for n, m in ((2, 12), (3, 12 if th else 7)):
        for al in (True, False):
            for mode in ("trilinear", "nearest"):
                for opt in range(6):
                    out.append(["sets", n, m, al, mode, opt])
    for kind in range(6):
        for al in (True, False):
            for mode in ("trilinear", "nearest"):
                out.append(["clouds", kind, al, mode, 4 if th else 3])
    out.append(["errors"])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.sample({"case": case})


def position(p, sizes, al):
    """p (N,P,3) xyz local, sizes (N,3) zyx -> voxel index coordinates xyz"""
    s = sizes.flip(1).to(p.dtype)[:, None]
    return (p + 1) / 2 * (s - 1) if al else (p + 1) / 2 * s - 0.5


def local(pos, sizes, al):
    s = sizes.flip(1).to(pos.dtype)[:, None]
    if al:
        return torch.where(s > 1, pos / (s - 1).clamp(min=1) * 2 - 1, pos)  # with one voxel every place is its centre
    return (pos + 0.5) / s * 2 - 1


def reference(p, f, dens, feat, sizes, mask, al, mode, rescale, min_weight):
    """dense: the weight of every (point, voxel) pair is the product of hat functions (or of indicator functions)"""
    N, P, _ = p.shape
    D, H, W = dens.shape[2:]
    pos = position(p, sizes, al)
    w = None
    for axis, n in ((2, D), (1, H), (0, W)):
        k = torch.arange(n, dtype=p.dtype)
        d = (pos[..., axis, None] - k)
        a = (1 - d.abs()).clamp(min=0) if mode == "trilinear" else (d.abs() < 0.5).to(p.dtype).detach()
        a = a * (k < sizes[:, 2 - axis, None, None]).to(p.dtype)
        w = a if w is None else w[..., None] * a.reshape((N, P) + (1,) * (w.dim() - 2) + (n,))
    w = w * mask[..., None, None, None].to(p.dtype)
    nd = dens + w.sum(1)[:, None]
    nf = feat + torch.einsum("npzyx,npc->nczyx", w, f)
    if rescale:
        nf = nf / nd.clamp(min=min_weight if mode == "trilinear" else 1.0)
    return nf, nd, w


def filler(shape, salt=0):
    n = 1
    for s in shape:
        n *= s
    return (((torch.arange(n, dtype=f64) + 17 * salt + 1) * 0.6180339887) % 1).reshape(shape)


def compare(tag, p, f, dens, feat, sizes, mask, al, mode, rescale=True, mw=1e-4, grads=True, sizes_arg=True, mask_arg=True, python=False):
    """all arguments float64; sizes LongTensor (N,3)"""
    def leaf(x, dt):
        return None if x is None else x.detach().to(dt).clone().requires_grad_(True)

    A = [leaf(x, torch.float32) for x in (p, f, dens, feat)]
    p64 = A[0].detach().double()  # the positions that the float32 code saw
    B = [leaf(x, f64) for x in (p64, f, dens, feat)]
    fz = B[3] if B[3] is not None else torch.zeros((p.shape[0], f.shape[2]) + tuple(dens.shape[2:]), dtype=f64)
    wf, wd, w = reference(B[0], B[1], B[2], fz, sizes, mask, al, mode, rescale, mw)
    before = [None if x is None else x.detach().clone() for x in A]
    kw = {}
    if python:
        kw["_python"] = True
    gf, gd = add_points_features_to_volume_densities_features(
        A[0], A[1], A[2], A[3], mode=mode, min_weight=mw, mask=mask.float() if mask_arg else None, grid_sizes=sizes if sizes_arg else None,
        rescale_features=rescale, align_corners=al, **kw)
    expect(gd.dtype == torch.float32 and gf.dtype == torch.float32, tag + ": dtype")
    expect_close(tag + ": densities", gd, wd, atol=2e-5)
    expect_close(tag + ": features", gf, wf, atol=3e-4 if rescale else 5e-5, rtol=1e-4)
    for x, y, n in zip(A, before, ("points", "features", "initial densities", "initial features")):
        expect(x is None or bool((x == y).all()), tag + ": %s are changed in place" % n)
    if grads:
        cd, cf = filler(wd.shape, 3) - 0.5, filler(wf.shape, 5) - 0.5
        ((gd * cd.float()).sum() + (gf * cf.float()).sum()).backward()
        ((wd * cd).sum() + (wf * cf).sum()).backward()
        for x, y, n in zip(A, B, ("points", "features", "initial densities", "initial features")):
            if x is None or (n == "points" and grads == "no points"):
                continue
            g = torch.zeros_like(x) if x.grad is None else x.grad
            h = torch.zeros_like(y) if y.grad is None else y.grad
            if n == "points" and mode == "nearest":
                expect(bool((g == 0).all()), tag + ": gradient of nearest with respect to the points")
                continue
            expect_close(tag + ": gradient of " + n, g, h, atol=2e-4, rtol=2e-3)
    return w


def run_single(case, rec):
    _, size, al, mode, sub = case
    grads = True
    shift = 0.0 if mode == "trilinear" else 0.06
    for off in ((0.0, 0.1) if mode == "trilinear" else (shift,)):
        ax = [torch.arange(-1.25, n - 1 + 1.26, 1.0 / sub, dtype=f64) + off for n in size]  # z, y, x
        Z, Y, X = torch.meshgrid(*ax, indexing="ij")
        pos = torch.stack([X, Y, Z], -1).reshape(-1, 1, 3)
        N = pos.shape[0]
        sizes = torch.tensor([size]).expand(N, 3)
        p = local(pos, sizes, al)
        f = filler((N, 1, 2)) * 2 - 0.7
        # two points of the lattice positions as the same element would only add: see the sets
        w = compare("one point, grid %s align_corners=%s %s" % (size, al, mode), p, f, torch.zeros((N, 1) + tuple(size), dtype=f64), torch.zeros((N, 2) + tuple(size), dtype=f64),
                    sizes, torch.ones(N, 1), al, mode, rescale=False, grads=("no points" if off == 0.0 else True), sizes_arg=bool(off), mask_arg=not off)
        inside = ((pos >= 0) & (pos <= torch.tensor(size).flip(0) - 1)).all(-1) | torch.tensor(al and max(size) == 1)
        if mode == "trilinear":
            expect(bool(((w.sum((2, 3, 4)) - 1).abs()[inside] < 1e-5).all()), "reference: a point inside deposits 1")
        if al and off == 0.0:
            compare("one point (python), grid %s %s" % (size, mode), p, f, torch.zeros((N, 1) + tuple(size), dtype=f64), torch.zeros((N, 2) + tuple(size), dtype=f64),
                    sizes, torch.ones(N, 1), al, mode, rescale=True, mw=0.05, grads=False, python=True)
        rec.step(N)
    rec.trace(N)
    rec.state(case)


def positions(m):
    base = [(0.3, 0.2, 0.6), (1.1, 0.7, 0.2), (0.9, 1.3, 1.1), (-0.4, 0.6, 0.3), (1.7, 1.6, 0.4), (0.3, -0.2, 1.8), (5.0, 0.2, 0.1),
            (0.3, 0.2, 0.6), (-0.7, -0.3, -0.9), (2.3, 1.1, 0.9), (0.6, 2.2, 2.4), (1.2, 0.1, -3.0)]
    return torch.tensor(base[:m], dtype=f64)


GRIDS = [[2, 3, 3], [3, 2, 2], [1, 2, 3], [3, 3, 1]]
OPTS = [dict(), dict(rescale=False), dict(mw=0.4137), dict(init="both"), dict(init="none"), dict(init="both", rescale=False)]


def run_sets(case, rec):
    _, n, m, al, mode, oi = case
    opt = dict(OPTS[oi])
    init = opt.pop("init", "zero")
    P = positions(m) + (0.013 if mode == "nearest" else 0.0)
    sel = torch.tensor(list(itertools.product(range(m), repeat=n)))
    masks = torch.tensor(list(itertools.product((0.0, 1.0), repeat=n)))
    S, M = sel.shape[0], masks.shape[0]
    pos = P[sel].repeat_interleave(M, 0)
    mask = masks.repeat(S, 1)
    N = pos.shape[0]
    sizes = torch.tensor(GRIDS)[torch.arange(N) % 4]
    p = pos * 0
    p = local(pos, sizes, al)
    C = 1 + oi % 3
    f = filler((N, n, C)) * 2 - 0.7
    D = 3
    dens = torch.zeros(N, 1, D, D, D, dtype=f64) if init == "zero" else filler((N, 1, D, D, D), 7) * (2 if init == "both" else 1)
    feat = None if init == "none" else torch.zeros(N, C, D, D, D, dtype=f64) if init == "zero" else filler((N, C, D, D, D), 8) - 0.5
    tag = "%d points align_corners=%s %s %s" % (n, al, mode, OPTS[oi])
    # min_weight: keep away from the clamp's kink
    compare(tag, p, f, dens, feat, sizes, mask, al, mode, **opt)
    # one grid for all, all options of omitting arguments
    full = torch.tensor([[3, 3, 3]]).expand(N, 3)
    q = local(pos, full, al)
    compare(tag + " grid sizes omitted", q, f, dens, feat, full, mask, al, mode, sizes_arg=False, **opt)
    compare(tag + " mask omitted", q, f, dens, feat, full, torch.ones(N, n), al, mode, mask_arg=False, **opt)
    if al and "rescale" not in opt:
        compare(tag + " python", q, f, dens, feat, full, mask, al, mode, grads=False, python=True, **opt)
    # strided inputs
    st = lambda x: torch.stack([x, x * 0 + 9], -1)[..., 0]
    perm = lambda x: None if x is None else x.transpose(2, 4).contiguous().transpose(2, 4)
    gf, gd = add_points_features_to_volume_densities_features(st(q.float()), st(f.float()), perm(dens.float()), perm(None if feat is None else feat.float()), mode=mode,
                                                              mask=st(mask), grid_sizes=st(full), align_corners=al, min_weight=opt.get("mw", 1e-4), rescale_features=opt.get("rescale", True))
    wf, wd, _ = reference(q.float().double(), f, dens, feat if feat is not None else torch.zeros(N, C, D, D, D, dtype=f64), full, mask, al, mode, opt.get("rescale", True), opt.get("mw", 1e-4))
    expect_close(tag + " strided: densities", gd, wd, atol=2e-5)
    expect_close(tag + " strided: features", gf, wf, atol=3e-4, rtol=1e-4)
    rec.step(4 * N)
    rec.trace(N)
    rec.state(case)


def volume_kind(kind, N, al):
    size = [(3, 3, 3), (2, 3, 4), (2, 2, 3), (3, 2, 2)]
    g = torch.Generator().manual_seed(kind)
    if kind == 0:
        return Volumes(torch.zeros(N, 1, 3, 3, 3), torch.zeros(N, 2, 3, 3, 3), align_corners=al), torch.ones(N, 3), torch.zeros(N, 3), [(3, 3, 3)] * N
    if kind == 1:
        return (Volumes(torch.rand(N, 1, 2, 3, 4, generator=g), torch.rand(N, 2, 2, 3, 4, generator=g), voxel_size=(0.5, 1.5, 2.0), volume_translation=(0.5, -1.0, 0.25), align_corners=al),
                torch.tensor([[0.5, 1.5, 2.0]]).repeat(N, 1), torch.tensor([[0.5, -1.0, 0.25]]).repeat(N, 1), [(2, 3, 4)] * N)
    if kind == 2:
        return Volumes(torch.rand(N, 1, 3, 2, 2, generator=g), None, voxel_size=0.7, align_corners=al), torch.full((N, 3), 0.7), torch.zeros(N, 3), [(3, 2, 2)] * N
    ss = [size[(k + kind) % 4] for k in range(N)]
    vs, tr = torch.rand(N, 3, generator=g) + 0.4, torch.rand(N, 3, generator=g) - 0.5
    dens = [torch.rand((1,) + s, generator=g) for s in ss]
    feat = None if kind == 5 else [torch.rand((2,) + s, generator=g) for s in ss]
    return Volumes(densities=dens, features=feat, voxel_size=vs, volume_translation=tr, align_corners=al), vs, tr, ss


def run_clouds(case, rec):
    _, kind, al, mode, mx = case
    for N in (1, 2, 3):
        for cnt in itertools.product(range(mx + 1), repeat=N):
            if sum(cnt) == 0:
                continue  # a batch without any point has no features
            vol, vs, tr, ss = volume_kind(kind, N, al)
            pts, fts = [], []
            for i, c in enumerate(cnt):
                pos = (positions(12)[[(k * 5 + i * 3 + c) % 12 for k in range(c)]] + 0.013).reshape(c, 3)
                loc = local(pos[None], torch.tensor([ss[i]]), al)[0]
                s = torch.tensor(ss[i][::-1], dtype=f64)
                pts.append((loc * (s - 1) / 2 * vs[i] - tr[i]).float())
                fts.append((filler((c, 2), i) - 0.3).float())
            for rescale in (True, False):
                for mw in (1e-4, 0.5):
                    tag = "clouds of %s points in volumes %s align_corners=%s %s rescale=%s min_weight=%s" % (cnt, ss, al, mode, rescale, mw)
                    keep = vol.densities().clone(), None if vol.features() is None else vol.features().clone()
                    pc = Pointclouds(points=pts, features=fts)
                    out = add_pointclouds_to_volumes(pc, vol, mode=mode, min_weight=mw, rescale_features=rescale)
                    expect(out is not vol and bool((vol.densities() == keep[0]).all()) and (keep[1] is None or bool((vol.features() == keep[1]).all())),
                           tag + ": the initial volumes are changed")
                    expect(out.get_grid_sizes().tolist() == [list(s) for s in ss] and out.get_align_corners() == al, tag + ": sizes")
                    expect_close(tag + ": world transform", out.locator._local_to_world_transform.get_matrix(), vol.locator._local_to_world_transform.get_matrix(), atol=0)
                    dl, fl = out.densities_list(), out.features_list()
                    for i in range(N):
                        sz = torch.tensor([ss[i]])
                        loc = (pts[i].double() + tr[i].double()) / vs[i].double() * 2 / (torch.tensor(ss[i][::-1], dtype=f64) - 1)
                        d0 = vol.densities_list()[i].double()[None]
                        f0 = torch.zeros((1, 2) + ss[i], dtype=f64) if keep[1] is None else vol.features_list()[i].double()[None]
                        wf, wd, _ = reference(loc[None], fts[i].double()[None], d0, f0, sz, torch.ones(1, cnt[i]), al, mode, rescale, mw)
                        expect_close(tag + ": densities of volume %d" % i, dl[i], wd[0], atol=1e-4)
                        expect_close(tag + ": features of volume %d" % i, fl[i], wf[0], atol=1e-3, rtol=1e-3)
                    rec.step()
            rec.trace()
            rec.state([kind, al, mode, cnt])


def run_errors(case, rec):
    p, f, d, q = torch.rand(2, 4, 3), torch.rand(2, 4, 2), torch.rand(2, 1, 3, 3, 3), torch.rand(2, 2, 3, 3, 3)
    A = add_points_features_to_volume_densities_features
    for fn in (lambda: A(p, f, torch.rand(2, 2, 3, 3, 3), q), lambda: A(p, f, d, torch.rand(2, 3, 3, 3, 3)), lambda: A(p, f, d, torch.rand(2, 2, 3, 3, 2)),
               lambda: A(p, f, d, q, mode="linear"), lambda: A(p[:, :3], f, d, q), lambda: A(p[..., :2], f, d, q), lambda: A(p.double(), f, d, q),
               lambda: A(p, f, d, q, mask=torch.ones(2, 3)), lambda: A(p, f, d, q, grid_sizes=torch.ones(2, 2, dtype=torch.int64)),
               lambda: add_pointclouds_to_volumes(Pointclouds(list(p), features=list(f)), Volumes(d[:1], q[:1])),
               lambda: add_pointclouds_to_volumes(Pointclouds(list(p)), Volumes(d, q))):
        try:
            fn()
        except ValueError:
            rec.step()
            continue
        raise Violation("a wrong call is accepted")
    rec.trace()
    rec.state(case)
