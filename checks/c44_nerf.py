"""C44: the NeRF project renders an image the same however its rays are cached, chunked and sampled."""
import contextlib
import io
import itertools
import json
import math
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
import torch
from mc.core import expect, expect_close

if "/repo/projects/nerf" not in sys.path:
    sys.path.append("/repo/projects/nerf")

PROPERTY = "C44"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
BOUNDS = {
    "quick": "ray sampler: every sequence of up to 4 of {cache a camera (in train or eval mode), train, eval, query with and without the cache} x image sizes up to 3x3 x every "
             "chunk size, every permutation of the rays of up to 4 pixels, offsets {0, 1/4, 1} of stratified depths; batches of 2 cameras; importance sampler: every weight "
             "in {0, 1, 3}^5 x spacings x random numbers on a lattice; ray marcher: every density in {0, 1/4, 1}^4; fields: layouts x skips x bundles; renderer: image sizes "
             "x every chunk size x caching x modes; statistics: every history of up to 5 events; data: every split of 3 images",
    "thorough": "sequences of 5, 4x4 images, 6 weights, 5 densities, 6 events",
}
ASSUMPTIONS = ["chunks of a batch of several cameras have a size that the number of cameras divides", "the harmonic embedding is C26's business, the camera C08's"]
warnings.filterwarnings("ignore")
f64 = torch.float64


def raises(kinds, fn):
    try:
        fn()
    except kinds:
        return True
    return False


@contextlib.contextmanager
def patched(**kw):
    old = {k: getattr(torch, k) for k in kw}
    try:
        for k, v in kw.items():
            setattr(torch, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(torch, k, v)


def camera(k):
    """exactly orthonormal rotations (Pythagorean triples), different focal lengths and principal points"""
    from pytorch3d.renderer import PerspectiveCameras

    c, s = [(0.6, 0.8), (0.8, -0.6), (-0.6, 0.8), (1.0, 0.0)][k % 4]
    R = torch.tensor([[[c, -s, 0.0], [s, c, 0.0], [0.0, 0.0, 1.0]], [[c, 0.0, s], [0.0, 1.0, 0.0], [-s, 0.0, c]]][k % 2])
    return PerspectiveCameras(R=R[None], T=torch.tensor([[0.5 * k, -0.25, 2.0 + k]]), focal_length=torch.tensor([[1.5 + k, 2.0]]), principal_point=torch.tensor([[0.1 * k, -0.2]]))


def batch(cams):
    from pytorch3d.renderer import PerspectiveCameras

    return PerspectiveCameras(R=torch.cat([c.R for c in cams]), T=torch.cat([c.T for c in cams]), focal_length=torch.cat([c.focal_length for c in cams]),
                              principal_point=torch.cat([c.principal_point for c in cams]))


def ray(cam, xy):
    """-> origin, unit direction of the ray through NDC points xy (P, 2)"""
    R, T = cam.R[0].double(), cam.T[0].double()
    xy = xy.double()
    v = torch.cat([(xy - cam.principal_point[0].double()) / cam.focal_length[0].double(), torch.ones(len(xy), 1, dtype=f64)], 1)
    d = v @ R.T
    return (-T @ R.T).expand(len(xy), 3), d / d.norm(dim=1, keepdim=True)


def grid_xy(H, W):
    m = min(H, W)
    return torch.tensor([[(W - 1 - 2 * c) / m, (H - 1 - 2 * r) / m] for r in range(H) for c in range(W)], dtype=f64)


def check_rays(what, b, cam, xy, z):
    o, d = ray(cam, xy)
    expect_close(what + ": pixels", b.xys.reshape(-1, 2), xy, 1e-5, 1e-5)
    expect_close(what + ": origins", b.origins.reshape(-1, 3), o, 2e-5, 2e-5)
    expect_close(what + ": directions", b.directions.reshape(-1, 3), d, 2e-5, 2e-5)
    expect_close(what + ": depths", b.lengths.reshape(len(xy), -1), z.expand(len(xy), -1), 1e-5, 1e-5)


def sampler(H, W, n=3, rays=2, **kw):
    from nerf.raysampler import NeRFRaysampler

    return NeRFRaysampler(n_pts_per_ray=n, min_depth=1.0, max_depth=3.0, n_rays_per_image=rays, image_width=W, image_height=H, **kw)


def zs(n=3):
    return torch.linspace(1.0, 3.0, n, dtype=f64)[None]


def silent(fn, *a):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a)


# ---------------------------------------------------------------- ray sampler
def run_rays(case, rec):
    H, W = case["size"]
    P = H * W
    xy = grid_xy(H, W)
    cams = [camera(k) for k in range(3)]
    strat = case["strat"]
    ops = ["cache0", "cache1", "cache01", "train", "eval", "query0", "query1", "hit0", "hit1"]
    perm = torch.arange(P).flip(0)
    rand_like = lambda t: torch.full_like(t, 0.25)
    z = zs()
    lo = torch.cat([z[:, :1], (z[:, 1:] + z[:, :-1]) / 2], 1)
    hi = torch.cat([(z[:, 1:] + z[:, :-1]) / 2, z[:, -1:]], 1)
    zst = lo + 0.25 * (hi - lo)
    for seq in itertools.product(ops, repeat=case["depth"]):
        if not seq[-1].startswith(("query", "hit", "cache")) or seq[0] != case["first"]:
            continue
        s = sampler(H, W, stratified=strat[0], stratified_test=strat[1])
        cached, training = set(), True
        for op in seq:
            what = "size %s, stratified %s, %s at %s" % ((H, W), strat, seq, op)
            if op.startswith("cache"):
                ks = [int(c) for c in op[5:]]
                again = cached & set(ks)
                done = raises(ValueError, lambda: silent(s.precache_rays, [cams[k] for k in ks], ["h%d" % k for k in ks]))
                expect(done == bool(again), what + ": a camera cached twice is refused")
                for k in ks:
                    if k in cached:
                        break
                    cached.add(k)
            elif op in ("train", "eval"):
                training = op == "train"
                getattr(s, op)()
            else:
                k = int(op[-1])
                if op.startswith("hit") and k not in cached:
                    expect(raises(KeyError, lambda: s(cams[k], camera_hash="h%d" % k)), what + ": a camera that is not in the cache")
                    continue
                h = "h%d" % k if op.startswith("hit") else None
                with patched(randperm=lambda n, **kw: perm.clone(), rand_like=rand_like):
                    b = s(cams[k], camera_hash=h)
                if training and h is None:
                    q = b.xys.reshape(-1, 2).double()
                    expect(len(q) == 2 and bool((q.abs() <= 1).all()), what + ": random pixels")
                    check_rays(what, b, cams[k], q, zst if strat[0] else z)
                elif training:
                    check_rays(what, b, cams[k], xy[perm[:2]], zst if strat[0] else z)
                else:
                    check_rays(what, b, cams[k], xy, zst if strat[1] else z)
                expect(b.origins.shape[0] == 1 and b.lengths.shape[-1] == 3, what + ": shapes")
                rec.step()
        rec.state(seq)
    rec.trace()


def run_chunks(case, rec):
    H, W = case["size"]
    P = H * W
    xy = grid_xy(H, W)
    cams = [camera(k) for k in range(3)]
    s = sampler(H, W, rays=case["rays"])
    s.eval()
    silent(s.precache_rays, cams, [7, "a", None or "b"])
    for k, h in enumerate((7, "a", "b")):
        for chunk in range(1, P + 3):
            n = s.get_n_chunks(chunk, 1)
            expect(n == -(-P // chunk), lambda: "%d chunks of %d rays of %d" % (n, chunk, P))
            for hh in (h, None):
                parts = [s(cams[k], chunksize=chunk, chunk_idx=i, camera_hash=hh) for i in range(n)]
                for i, p in enumerate(parts):
                    expect(p.xys.shape[:2] == (1, min(chunk, P - i * chunk)), "rays of chunk %d of size %d" % (i, chunk))
                whole = type(parts[0])(*[torch.cat(v, 1) for v in zip(*parts)])
                check_rays("size %s, chunks of %d, cached %s" % ((H, W), chunk, hh is not None), whole, cams[k], xy, zs())
                rec.step()
            rec.state((k, chunk))
    # training from the cache: every permutation
    s.train()
    if P <= 4:
        for p in itertools.permutations(range(P)):
            with patched(randperm=lambda n, **kw: torch.tensor(p)):
                b = s(cams[1], camera_hash="a")
            check_rays("random rays %s" % (p,), b, cams[1], xy[list(p[: case["rays"]])], zs())
            rec.step()
    # batches
    s.eval()
    for ks in itertools.product(range(3), repeat=2):
        b2 = batch([cams[k] for k in ks])
        expect(raises(NotImplementedError, lambda: s(b2, camera_hash=7)), "cached rays for a batch of cameras")
        full = s(b2)
        for j, k in enumerate(ks):
            check_rays("batch of cameras %s" % (ks,), type(full)(*[v[j] for v in full]), cams[k], xy, zs())
        for chunk in range(2, 2 * P + 3, 2):
            n = s.get_n_chunks(chunk, 2)
            expect(n == -(-2 * P // chunk), lambda: "%d chunks of %d rays of %d" % (n, chunk, 2 * P))
            got = [s(b2, chunksize=chunk, chunk_idx=i) for i in range(n)]
            expect(all(g.xys.shape[0] == 2 for g in got), "chunks of a batch")
            for v, name in ((torch.cat([getattr(g, f).reshape(-1, getattr(g, f).shape[-1]) for g in got]), f) for f in full._fields):
                want = getattr(full, name)
                want = want.reshape(-1, want.shape[-1])
                expect(v.shape == want.shape and torch.equal(v, want), lambda: "chunks of %d rays of a batch of 2 %s images: %s" % (chunk, (H, W), name))
            rec.step()
    rec.trace()


def run_strat(case, rec):
    z = zs(4)
    lo = torch.cat([z[:, :1], (z[:, 1:] + z[:, :-1]) / 2], 1)
    hi = torch.cat([(z[:, 1:] + z[:, :-1]) / 2, z[:, -1:]], 1)
    for a, b, training, cached in itertools.product((False, True), repeat=4):
        s = sampler(1, 2, n=4, rays=1, stratified=a, stratified_test=b)
        s.eval()
        silent(s.precache_rays, [camera(0)], ["h"])
        s.train(training)
        for u in itertools.product((0.0, 0.25, 1.0), repeat=4):
            U = torch.tensor(u)
            with patched(rand_like=lambda t: U.expand_as(t).to(t).clone()):
                got = s(camera(0), camera_hash="h" if cached else None).lengths
            want = lo + (hi - lo) * U.double() if (a if training else b) else z
            expect_close("stratified %s, training %s, cached %s, offsets %s" % ((a, b), training, cached, u), got.reshape(-1, 4), want.expand(got.shape[1], -1), 1e-5, 1e-5)
            rec.step()
            rec.state((a, b, training, cached, u))
    rec.trace()


def invert_cdf(bins, w, u):
    """samples of the piecewise linear inverse CDF, float64"""
    w = w.double() + 1e-5
    cdf = torch.cat([torch.zeros(1, dtype=f64), torch.cumsum(w / w.sum(), 0)])
    out = []
    for x in u:
        i = min(max(int((cdf <= x).sum()), 1), len(cdf) - 1)
        d = cdf[i] - cdf[i - 1]
        out.append(float(bins[i - 1] + (x - cdf[i - 1]) / (d if d > 1e-5 else 1.0) * (bins[i] - bins[i - 1])))
    return out


def run_prob(case, rec):
    from nerf.raysampler import ProbabilisticRaysampler
    from pytorch3d.renderer import RayBundle

    n, m = case["n"], case["m"]
    Z = torch.tensor([[1.0 + 0.5 * k for k in range(n)], [1.0 + 0.25 * k * k for k in range(n)], [2.0 + math.sqrt(k) for k in range(n)]])
    W = torch.tensor([w for w in itertools.product((0.0, 1.0, 3.0), repeat=n - 2) if any(w)])
    W = torch.cat([torch.full((len(W), 1), 5.0), W, torch.full((len(W), 1), 7.0)], 1)  # the ends are not used
    nz = len(Z)
    lengths = Z[None].repeat_interleave(len(W), 1).clone()  # 1 x (nz len(W)) x n
    weights = W.repeat(nz, 1)[None]
    lengths = torch.cat([lengths, lengths.flip(1)])
    weights = torch.cat([weights, weights.flip(1)])
    R = lengths.shape[1]
    bundle = RayBundle(torch.arange(2.0 * R * 3).reshape(2, R, 3), torch.arange(2.0 * R * 3).reshape(2, R, 3) + 1, lengths, torch.arange(2.0 * R * 2).reshape(2, R, 2))
    for add, a, b, training in itertools.product((False, True), repeat=4):
        s = ProbabilisticRaysampler(n_pts_per_ray=m, stratified=a, stratified_test=b, add_input_samples=add)
        s.train(training)
        rnd = a if training else b
        us = [None] if not rnd else [[0.05 + 0.9 * ((k * q) % 7) / 7 for k in range(m)] for q in (1, 3, 5)]
        for u in us:
            wts = weights.clone().requires_grad_(True)
            with patched(rand=lambda *shape, **kw: torch.tensor(u, dtype=torch.float32).expand(*(shape[0] if len(shape) == 1 and not isinstance(shape[0], int) else shape)).clone()):
                got = s(bundle, wts)
            what = "importance samples, add %s, stratified %s, training %s" % (add, (a, b), training)
            expect(torch.equal(got.origins, bundle.origins) and torch.equal(got.directions, bundle.directions) and torch.equal(got.xys, bundle.xys), what + ": rays changed")
            expect(not got.lengths.requires_grad, what + ": depths carry a gradient")
            uu = np.linspace(0, 1, m) if u is None else u
            for i in range(2):
                for r in range(R):
                    zv = lengths[i, r].double()
                    mid = (zv[1:] + zv[:-1]) / 2
                    old = zv.tolist() if add else []
                    # a number at the edge of an empty bin can be drawn on either side of it
                    lo = sorted(invert_cdf(mid, weights[i, r, 1:-1], [max(x - 1e-4, 0) for x in uu]) + old)
                    hi = sorted([float(mid[-1]) if x + 1e-4 >= 1 else invert_cdf(mid, weights[i, r, 1:-1], [x + 1e-4])[0] for x in uu] + old)
                    g = got.lengths[i, r].double()
                    expect(len(g) == len(lo) and bool((g[1:] >= g[:-1]).all()), what + ": number and order")
                    expect(all(x - 1e-3 <= y <= z + 1e-3 for x, y, z in zip(lo, g.tolist(), hi)), lambda: "%s: ray with depths %s and weights %s is sampled at %s, want %s to %s" % (
                        what, zv.tolist(), weights[i, r].tolist(), g.tolist(), lo, hi))
                    rec.step()
            rec.state((add, a, b, training, u))
    rec.trace()


def run_march(case, rec):
    from nerf.raymarcher import EmissionAbsorptionNeRFRaymarcher

    n = case["n"]
    D = torch.tensor(list(itertools.product((0.0, 0.25, 1.0), repeat=n)))
    F = torch.stack([torch.arange(n) + 1.0, 0.5 - torch.arange(n), (torch.arange(n) % 2) * 3.0], 1)
    F = F[None] * (1 + torch.arange(len(D)) % 3)[:, None, None]
    for thick in (1, 2):
        for shape in ((len(D),), (1, len(D)), (3, len(D) // 3)):
            m = EmissionAbsorptionNeRFRaymarcher(surface_thickness=thick)
            feats, w = m(D.reshape(*shape, n, 1), F.reshape(*shape, n, 3))
            T = torch.cat([torch.ones(len(D), thick, dtype=f64), torch.cumprod(1 - D.double(), 1)[:, :-thick]], 1)
            want = D.double() * T
            expect_close("weights, thickness %d" % thick, w.reshape(-1, n), want, 1e-5, 1e-5)
            expect_close("features, thickness %d" % thick, feats.reshape(-1, 3), (want[..., None] * F.double()).sum(1), 1e-5, 1e-5)
            expect(w.shape == shape + (n,) and feats.shape == shape + (3,), "shapes")
            rec.step(len(D))
    for i in range(len(D)):
        rec.state(D[i].tolist())
    rec.trace()


# ---------------------------------------------------------------- field
def emb(x, n):
    f = 2.0 ** torch.arange(n, dtype=f64)
    e = (x[..., None] * f).reshape(*x.shape[:-1], -1)
    return torch.cat([e.sin(), e.cos(), x], -1)


def field_ref(m, skips, nx, nd, o, d, z, noise=None):
    """float64 evaluation of the documented network on the module's weights"""
    P = {k: v.detach().double() for k, v in m.named_parameters()}
    x = emb(o.double()[..., None, :] + d.double()[..., None, :] * z.double()[..., None], nx)
    y = x
    k = 0
    while "mlp_xyz.mlp.%d.0.weight" % k in P:
        if k in skips:
            y = torch.cat([y, x], -1)
        y = torch.relu(y @ P["mlp_xyz.mlp.%d.0.weight" % k].T + P["mlp_xyz.mlp.%d.0.bias" % k])
        k += 1
    raw = (y @ P["density_layer.weight"].T + P["density_layer.bias"])[..., 0]
    if noise is not None:
        raw = raw + noise
    dz = torch.cat([z.double()[..., 1:] - z.double()[..., :-1], torch.full_like(z.double()[..., :1], 1e10)], -1)
    dens = 1 - torch.exp(-dz * torch.relu(raw))
    e = emb(d.double() / d.double().norm(dim=-1, keepdim=True), nd)[..., None, :].expand(*y.shape[:-1], -1)
    h = y @ P["intermediate_linear.weight"].T + P["intermediate_linear.bias"]
    c = torch.relu(torch.cat([h, e], -1) @ P["color_layer.0.weight"].T + P["color_layer.0.bias"])
    return dens, torch.sigmoid(c @ P["color_layer.2.weight"].T + P["color_layer.2.bias"]), k


def lattice(shape, s, scale=1.0):
    n = int(np.prod(shape))
    return (torch.tensor([((i * (2 * s + 3) + s) % 17 - 8) / 8.0 for i in range(n)]) * scale).reshape(shape)


def set_weights(m, scale=0.5):
    with torch.no_grad():
        for k, p in enumerate(m.parameters()):
            p.copy_(lattice(p.shape, k + 1, scale))


def run_field(case, rec):
    from nerf.implicit_function import NeuralRadianceField
    from pytorch3d.renderer import RayBundle

    for nx, nd, L, hx, hd in itertools.product((1, 2), (0, 2), (1, 2, 4), (3, 4), (2, 5)):
        for r in range(min(L, 3)):
            for skips in itertools.combinations(range(1, L), r):
                m = NeuralRadianceField(n_harmonic_functions_xyz=nx, n_harmonic_functions_dir=nd, n_hidden_neurons_xyz=hx, n_hidden_neurons_dir=hd, n_layers_xyz=L, append_xyz=skips,
                                        use_multiple_streams=case["streams"])
                expect(bool((m.density_layer.bias == 0).all()), "initial bias of the density")
                set_weights(m)
                for shape in ((1, 1), (2, 3), (1, 2, 2)):
                    o, d = lattice(shape + (3,), 2), lattice(shape + (3,), 5) + torch.tensor([0.0, 0.0, 2.0])
                    z = (1 + lattice(shape + (4,), 3) * 0.0 + torch.arange(4) * 0.5) + torch.arange(int(np.prod(shape))).reshape(shape + (1,)) * 0.1
                    b = RayBundle(o, d, z, lattice(shape + (2,), 1))
                    noise = lattice(shape + (4, 1), 7)
                    for std in (0.0, 0.5):
                        with patched(randn_like=lambda t: noise.to(t)):
                            den, col = m(b, density_noise_std=std)
                        wd, wc, depth = field_ref(m, skips, nx, nd, o, d, z, noise[..., 0].double() * std)
                        what = "field %s, skips %s, rays %s, noise %s" % ((nx, nd, L, hx, hd), skips, shape, std)
                        expect(depth == L and den.shape == shape + (4, 1) and col.shape == shape + (4, 3), what + ": layers and shapes")
                        expect_close(what + ": densities", den[..., 0], wd, 1e-4, 1e-4)
                        expect_close(what + ": colours", col, wc, 1e-4, 1e-4)
                        rec.step()
                rec.state((nx, nd, L, hx, hd, skips))
    rec.trace()


# ---------------------------------------------------------------- renderer
def render_ref(model, conf, cam, xy):
    """-> coarse, fine colours (P, 3), coarse weights; deterministic sampling"""
    o, d = ray(cam, xy)
    z = torch.linspace(1.0, 3.0, conf["n"], dtype=f64).expand(len(xy), -1)
    out = []
    w = None
    for name in ("coarse", "fine"):
        if name == "fine":
            s = [invert_cdf((z[i, 1:] + z[i, :-1]) / 2, w[i, 1:-1], np.linspace(0, 1, conf["m"])) for i in range(len(xy))]
            z = torch.cat([z, torch.tensor(s, dtype=f64)], 1).sort(1).values
        dens, col, _ = field_ref(model._implicit_function[name], conf["skips"], 1, 1, o, d, z)
        T = torch.cat([torch.ones(len(xy), 1, dtype=f64), torch.cumprod(1 - dens, 1)[:, :-1]], 1)
        w1 = dens * T
        if name == "coarse":
            w = w1
        out.append((w1[..., None] * col).sum(1))
    return out[0], out[1], w


def run_render(case, rec):
    from nerf.nerf_renderer import RadianceFieldRenderer

    H, W = case["size"]
    P = H * W
    conf = {"n": 5, "m": 4, "skips": (1,)}
    cams = [camera(k) for k in range(2)]
    xy = grid_xy(H, W)
    image = lattice((H, W, 4), 3) * 0.4 + 0.5
    state = None
    mk = lambda chunk, **kw: RadianceFieldRenderer(image_size=(H, W), n_pts_per_ray=5, n_pts_per_ray_fine=4, n_rays_per_image=case["rays"], min_depth=1.0, max_depth=3.0, stratified=False,
                                                   stratified_test=False, chunk_size_test=chunk, n_harmonic_functions_xyz=1, n_harmonic_functions_dir=1, n_hidden_neurons_xyz=4,
                                                   n_hidden_neurons_dir=3, n_layers_xyz=2, append_xyz=(1,), **kw)
    ref = None
    for chunk in range(1, P + 2):
        for vis in (False, True):
            model = mk(chunk, density_noise_std=1.0, visualization=vis)
            set_weights(model, 0.4)
            for p in ("coarse", "fine"):
                with torch.no_grad():
                    model._implicit_function[p].density_layer.bias.fill_(0.6 if p == "coarse" else 0.3)
            if ref is None:
                ref = [render_ref(model, conf, c, xy) for c in cams]
            model.eval()
            silent(model.precache_rays, cams, [0, 1])
            for k, h, im in itertools.product(range(2), (False, True), (None, image)):
                what = "size %s, chunks of %d, camera %d, cached %s, image %s" % ((H, W), chunk, k, h, im is not None)
                out, metrics = model(k if h else None, cams[k], im)
                expect_close(what + ": coarse", out["rgb_coarse"].reshape(-1, 3), ref[k][0], 2e-4, 2e-4)
                expect_close(what + ": fine", out["rgb_fine"].reshape(-1, 3), ref[k][1], 2e-3, 2e-3)
                expect(out["rgb_coarse"].shape == out["rgb_fine"].shape == (1, H, W, 3), what + ": shapes")
                if im is None:
                    expect(out["rgb_gt"] is None and metrics == {}, what + ": metrics without an image")
                else:
                    expect_close(what + ": ground truth", out["rgb_gt"][0], image[..., :3], 1e-5, 1e-5)
                    for j, p in enumerate(("coarse", "fine")):
                        mse = ((out["rgb_" + p][0].double() - image[..., :3].double()) ** 2).mean()
                        expect_close(what + ": mse", metrics["mse_" + p], mse, 1e-5, 1e-4)
                        expect_close(what + ": psnr", metrics["psnr_" + p], -10 * torch.log10(mse), 1e-3, 1e-3)
                    expect(set(metrics) == {"mse_coarse", "mse_fine", "psnr_coarse", "psnr_fine"}, what + ": metrics")
                rec.step()
            # training: a random subset of the rays, noise on the densities
            model.train()
            perm = torch.arange(P).flip(0)
            n = min(case["rays"], P)
            for noisy in (0.0, 1.0):
                with patched(randperm=lambda k, **kw: perm.clone(), randn_like=lambda t: torch.full_like(t, -100.0 * noisy)):
                    out, metrics = model(1, cams[1], image)
                what = "size %s, training, noise %s" % ((H, W), noisy)
                expect(out["rgb_fine"].shape == (1, n, 3), what + ": shape")
                expect_close(what + ": coarse", out["rgb_coarse"][0], ref[1][0][perm[:n]] * (1 - noisy), 2e-4, 2e-4)
                expect_close(what + ": fine", out["rgb_fine"][0], ref[1][1][perm[:n]] * (1 - noisy), 2e-3, 2e-3)
                expect_close(what + ": ground truth", out["rgb_gt"][0], image[..., :3].reshape(-1, 3)[perm[:n]], 1e-5, 1e-5)
                if not noisy:
                    model.zero_grad()
                    (metrics["mse_coarse"] + metrics["mse_fine"]).backward()
                    expect(all(p.grad is not None for p in model.parameters()), what + ": parameters without gradient")
                if vis:
                    check_rays(what + ", kept bundle", out["coarse_ray_bundle"], cams[1], xy[perm[:n]], zs(5))
                    expect_close(what + ": kept weights", out["coarse_weights"].reshape(n, -1), ref[1][2][perm[:n]] * (1 - noisy), 2e-4, 2e-4)
                rec.step()
            out, _ = model(None, cams[0], image)
            expect(out["rgb_fine"].shape == (1, case["rays"], 3), "random rays of a training pass")
            rec.state((chunk, vis))
    rec.trace()


def run_mc(case, rec):
    """colours of an image at NDC points: bilinear between the pixel centres, constant beyond the outermost ones"""
    from nerf.utils import sample_images_at_mc_locs

    for H, W in itertools.product((1, 2, 3, 4), repeat=2):
        img = torch.stack([lattice((H, W, 3), 1), lattice((H, W, 3), 4)])
        m = min(H, W)
        pts = [(x / 4.0 * W / m, y / 4.0 * H / m) for x in range(-4, 5) for y in range(-4, 5)]
        q = torch.tensor([pts, pts[::-1]])
        for shape in ((len(pts),), (9, 9), (3, 27, 1)):
            got = sample_images_at_mc_locs(img, q.reshape(2, *shape, 2))
            expect(got.shape == (2,) + shape + (3,), "shape of sampled colours")
            got = got.reshape(2, -1, 3)
        for b in range(2):
            for i, (x, y) in enumerate(q[b].tolist()):
                c = min(max((W - 1 - x * m) / 2, 0), W - 1)
                r = min(max((H - 1 - y * m) / 2, 0), H - 1)
                c0, r0 = min(int(c), max(W - 2, 0)), min(int(r), max(H - 2, 0))
                c1, r1 = min(c0 + 1, W - 1), min(r0 + 1, H - 1)
                a, t = c - c0, r - r0
                want = (1 - t) * ((1 - a) * img[b, r0, c0] + a * img[b, r0, c1]) + t * ((1 - a) * img[b, r1, c0] + a * img[b, r1, c1])
                expect_close("colour of a %dx%d image at %s" % (H, W, (x, y)), got[b, i], want, 1e-5, 1e-5)
                rec.step()
        rec.state((H, W))
    rec.trace()


# ---------------------------------------------------------------- statistics
def run_stats(case, rec):
    from nerf.stats import AverageMeter, Stats

    ev = [("epoch",), ("train", 1.0, 2.0), ("train", 4.0, None), ("val", 3.0, 5.0), ("print",)]
    for seq in itertools.product(ev, repeat=case["depth"]):
        if seq[0] != ev[case["first"]]:
            continue
        s = Stats(["a", "b"])
        epoch, hist, it = -1, {}, {}
        for e in seq:
            if e[0] == "epoch":
                s.new_epoch()
                epoch += 1
                it = {k: -1 for k in hist}
            elif e[0] == "print":
                for st in hist:
                    out = io.StringIO()
                    with contextlib.redirect_stdout(out):
                        s.print(stat_set=st, max_it=7)
                    want = "[%s] | epoch %d | it %d/ 7" % (st, epoch, it[st])
                    text = out.getvalue()
                    expect(text.startswith(want), lambda: "%s prints %r" % (seq, text))
                    for v in ("a", "b"):
                        now = hist[st][v].get(epoch, [])
                        expect((" %s: %1.3f |" % (v, sum(now) / len(now)) in text) if now else (" %s:" % v not in text), lambda: "%s prints %r" % (seq, text))
            else:
                st, a, b = e
                preds = {"a": a, "other": 9.0}
                if b is not None:
                    preds["b"] = torch.tensor([b - 1, 1.0])
                if epoch == -1:
                    epoch = 0
                s.update(preds, stat_set=st)
                it[st] = it.get(st, -1) + 1
                h = hist.setdefault(st, {"a": {}, "b": {}})
                h["a"].setdefault(epoch, []).append(a)
                if b is not None:
                    h["b"].setdefault(epoch, []).append(b)
            expect(s.epoch == epoch and {k: s.it[k] for k in hist} == {k: it[k] for k in hist}, lambda: "%s: epoch %s, iterations %s" % (seq, s.epoch, s.it))
            for st in hist:
                for v in ("a", "b"):
                    m = s.stats[st][v]
                    now = hist[st][v].get(epoch, [])
                    expect(m.count == len(now) and abs(m.avg - (sum(now) / len(now) if now else 0)) < 1e-9, lambda: "%s: average of %s in %s is %s" % (seq, v, st, m.avg))
                    avg = m.get_epoch_averages()
                    last = max(hist[st][v], default=-1)
                    want = [sum(hist[st][v][q]) / len(hist[st][v][q]) if q in hist[st][v] else math.nan for q in range(last + 1)]
                    expect((avg is None) if last < 0 else (len(avg) == len(want) and all((math.isnan(x) and math.isnan(y)) or abs(x - y) < 1e-9 for x, y in zip(avg, want))),
                           lambda: "%s: epoch averages %s, want %s" % (seq, avg, want))
            rec.step()
        rec.state(seq)
    rec.trace()


# ---------------------------------------------------------------- data
def run_data(case, rec, root):
    from nerf.dataset import get_nerf_datasets, trivial_collate
    from PIL import Image

    H, W = case["size"]
    n = 3
    img = torch.arange(n * H * W * 4).reshape(n * H, W, 4) % 251
    Image.fromarray(img.numpy().astype(np.uint8), "RGBA").save(root + "/lego.png")
    cams = [camera(k) for k in range(n)]
    B = batch(cams)
    for labels in itertools.product(range(3), repeat=n):
        split = [[i for i in range(n) if labels[i] == s][:: -1 if s == 2 else 1] for s in range(3)]
        torch.save({"cameras": {"R": B.R, "T": B.T, "focal_length": B.focal_length, "principal_point": B.principal_point}, "split": [torch.tensor(x, dtype=torch.long) for x in split]}, root + "/lego.pth")
        for scale in (1, 2, 3):
            if H % scale or W % scale:
                expect(raises(ValueError, lambda: silent(get_nerf_datasets, "lego", (H, W + 1), root, False)), "other aspect ratio: not refused")
                continue
            sets = silent(get_nerf_datasets, "lego", (H // scale, W // scale), root, False)
            for s, ds in enumerate(sets):
                expect(len(ds) == len(split[s]), "frames in set %d" % s)
                for j, i in enumerate(split[s]):
                    e = ds[j]
                    full = img[i * H:(i + 1) * H, :, :3].float() / 255
                    if scale == 1:
                        expect_close("image %d" % i, e["image"], full, 1e-6, 1e-6)
                    elif scale == 2:
                        expect_close("image %d, half size" % i, e["image"], full.reshape(H // 2, 2, W // 2, 2, 3).mean((1, 3)), 1e-5, 1e-5)
                    expect(e["image"].shape == (H // scale, W // scale, 3) and e["camera_idx"] == i and isinstance(e["camera_idx"], int), "frame %d" % i)
                    for f in ("R", "T", "focal_length", "principal_point"):
                        expect(torch.equal(getattr(e["camera"], f), getattr(cams[i], f)), "camera %d: %s" % (i, f))
                    expect(trivial_collate([e])[0] is e, "collate")
                    rec.step()
            rec.state((labels, scale))
    expect(raises(ValueError, lambda: silent(get_nerf_datasets, "none", (H, W), root, False)), "unknown data set: not refused")
    rec.trace()


def run_video(case, rec):
    """evaluation cameras look at the centre of the scene, with the mean intrinsics, on the documented curves"""
    from nerf.eval_video_utils import generate_eval_video_cameras

    train = [{"camera": camera(k)} for k in range(case["cams"])]
    centers = torch.cat([e["camera"].get_camera_center() for e in train]).double()
    focal = torch.cat([e["camera"].focal_length for e in train]).double().mean(0)
    pp = torch.cat([e["camera"].principal_point for e in train]).double().mean(0)
    for kind, n, up, at in itertools.product(("circular", "figure_eight", "trefoil_knot", "figure_eight_knot"), (1, 4, 9), ((0.0, 0.0, 1.0), (0.0, 1.0, 0.0)), ((0.0, 0.0, 0.0), (0.3, -0.2, 0.1))):
        ds = generate_eval_video_cameras(train, n_eval_cams=n, trajectory_type=kind, up=up, scene_center=at)
        what = "%s trajectory, %d cameras, up %s, centre %s" % (kind, n, up, at)
        expect(len(ds) == n, what + ": number")
        pos = []
        for i in range(n):
            e = ds[i]
            c = e["camera"]
            expect(e["camera_idx"] == i and e["image"] is None, what + ": index")
            expect_close(what + ": focal length", c.focal_length[0], focal, 1e-5, 1e-5)
            expect_close(what + ": principal point", c.principal_point[0], pp, 1e-5, 1e-5)
            R, T = c.R[0].double(), c.T[0].double()
            p = -T @ R.T
            pos.append(p)
            v = torch.tensor(at, dtype=f64) - p
            expect_close(what + ": looks at the centre", R[:, 2], v / v.norm(), 1e-4, 1e-4)
            expect(abs(float(R[:, 0] @ torch.tensor(up, dtype=f64))) < 1e-4 and float(R[:, 1] @ torch.tensor(up, dtype=f64)) > 0, what + ": up")
            rec.step()
        pos = torch.stack(pos)
        if kind == "circular":
            u = torch.tensor(up, dtype=f64)
            mean = centers.mean(0)
            rad = (centers - mean - ((centers - mean) @ u)[:, None] * u).norm(dim=1).mean()
            expect_close(what + ": radius", (pos - mean).norm(dim=1), rad.expand(n), 1e-4, 1e-4)
            expect_close(what + ": plane", (pos - mean) @ u, torch.zeros(n, dtype=f64), 1e-4, 1e-4)
        elif n > 1:
            t = torch.arange(n, dtype=f64) / n * 2 * math.pi
            curve = {"figure_eight": torch.stack([t.cos(), (2 * t).sin() / 2, t.sin() / 2], 1),
                     "trefoil_knot": torch.stack([t.sin() + 2 * (2 * t).sin(), t.cos() - 2 * (2 * t).cos(), -(3 * t).sin() / 2], 1),
                     "figure_eight_knot": torch.stack([(2 + (2 * t).cos()) * (3 * t).cos(), (2 + (2 * t).cos()) * (3 * t).sin(), (4 * t).sin() / 2], 1)}[kind]
            D, E = torch.cdist(pos, pos), torch.cdist(curve, curve)
            s = D.sum() / E.sum()
            expect_close(what + ": shape", D, E * s, 1e-4, 1e-3)
        rec.state((kind, n, up, at))
    rec.trace()


def cases(tier):
    deep = tier == "thorough"
    out = []
    ops = ["cache0", "cache1", "cache01", "train", "eval", "query0", "query1", "hit0", "hit1"]
    for first in ops:
        for depth in range(1, (5 if deep else 4) + 1):
            for size, strat in (((1, 2), (True, False)), ((2, 1), (False, True))) if depth == (5 if deep else 4) else (((2, 3), (False, False)), ((3, 2), (True, True))):
                out.append({"kind": "rays", "size": size, "strat": strat, "depth": depth, "first": first})
    m = 4 if deep else 3
    out += [{"kind": "chunks", "size": (h, w), "rays": 1 + (h + w) % 3} for h in range(1, m + 1) for w in range(1, m + 1)]
    out += [{"kind": "strat"}]
    out += [{"kind": "prob", "n": n, "m": k} for n in ((3, 4, 5, 6) if deep else (3, 4, 5)) for k in (1, 3, 5)]
    out += [{"kind": "march", "n": n} for n in ((3, 4, 5) if deep else (3, 4))]
    out += [{"kind": "field", "streams": s} for s in (True, False)]
    out += [{"kind": "render", "size": s, "rays": r} for s in ((1, 1), (2, 2), (2, 3), (3, 2), (1, 4)) + (((4, 4), (3, 5)) if deep else ()) for r in (1, 3)]
    out += [{"kind": "mc"}]
    out += [{"kind": "stats", "depth": d, "first": f} for d in range(1, (6 if deep else 5) + 1) for f in range(5)]
    out += [{"kind": "data", "size": s} for s in ((2, 4), (6, 6), (3, 6), (4, 2))]
    out += [{"kind": "video", "cams": k} for k in (3, 4)]
    return out


def run(case, rec):
    if case["kind"] == "data":
        root = tempfile.mkdtemp(prefix="verif_c44_")
        try:
            return run_data(case, rec, root)
        finally:
            shutil.rmtree(root)
    globals()["run_" + case["kind"]](case, rec)
