"""C26: every generated ray against the camera equations in float64; every outcome of every random draw; ray integration
against the sums written out."""
import dataclasses
import itertools
import math
import warnings

import torch

from checks import c08_cameras as cam
from checks.c30_samplers import Chooser, nth_perm, nth_tuple
from mc.core import expect, expect_close
from mc.core import expect_raises as _raises

PROPERTY = "C26"
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 2
BOUNDS = {
    "quick": "grids: 6 camera models x batches of 1..3 x all image sizes 1..4 x 1..4 x NDC and custom ranges x unit/plain directions x 0..3 points "
             "per ray x plain/stratified; sub-sampling: every outcome of every random draw for 1 camera x every 0/1 mask of 2x2 and 1x3 pixels (and "
             "none) x 1..5 rays, 2 cameras x 5 masks each x 1..2 rays, rays drawn over 1..3 cameras x 1..4 rays in total (up to 64 outcomes) x masks; Monte-Carlo rays with "
             "every corner of the range; flattening into chunks of every size and joining for 4 bundle kinds; ray marching: every density vector of "
             "length 1..4 over {0, .25, .5, 1} x thickness 1..5; Implicitron marchers: all densities of length 1..4 over {-1, 0, .5, 3, 1e4} x every "
             "switch; volume look-up: all pairs of 5 volume sizes x align_corners x 8 placements x interpolation x padding; ray refinement: every "
             "weight vector of length 3..5 over {0, .5, 1}",
    "thorough": "image sizes to 6x6, up to 4 points per ray, every pair of 15 masks, 5 rays in total, density vectors of length 5",
}
ASSUMPTIONS = [
    "random draws go through torch.multinomial, torch.randint, torch.rand and torch.rand_like; other sources are not controlled, the produced rays "
    "are still checked",
    "fisheye cameras are left to C08 (their image plane is curved); AdaptiveRaySampler is checked for cameras at equal distance from the scene centre",
    "masks contain at least one pixel per image, and are floating point",
]
f64 = torch.float64


def expect_raises(what, fn, kind):
    _raises(fn, what + ": no error", (kind,))


MODELS = list(cam.CLS)


def cases(tier):
    th = tier == "thorough"
    m = 6 if th else 4
    out = []
    for model in MODELS:
        for N in (1, 2, 3):
            out.append(["grid", model, N, m, 4 if th else 3])
            out.append(["mc", model, N])
    for hw in ((2, 2), (1, 3)):
        for n in range(1, 6):
            out.append(["sub1", hw, n])
    for ni, mi in enumerate(itertools.combinations_with_replacement(range(15 if th else 5), 2)):
        out.append(["sub2", list(mi)])
    for N in (1, 2, 3):
        for tot in range(1, 6 if th else 5):
            if N ** tot <= (81 if th else 64):
                for mk in ("none", "mask"):
                    out.append(["total", N, tot, mk])
    out += [["chunk", k] for k in ("plain", "packed", "bins", "nopoints")]
    out += [["sampler", k] for k in range(3)]
    for L in range(1, 6 if th else 5):
        for d0 in (0, 1, 2, 3):
            out.append(["march", L, d0])
    for L in range(1, 6 if th else 5):
        for kind in ("ea", "cumsum"):
            for sw in range(16):
                out.append(["imarch", L, kind, sw])
    for a, b in itertools.combinations_with_replacement(range(5), 2):
        out.append(["volume", a, b])
    out += [["volrender", a] for a in range(3)]
    out += [["refine", L] for L in (3, 4, 5)]
    out += [["ndcgrid", m]]
    return out


def run(case, rec):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        globals()["run_" + case[0]](case, rec)
    rec.trace()
    rec.sample({"case": case})


# ------------------------------------------------------------------ cameras
def cameras(model, N, off=0):
    P, kw = cam.base(model, N, "pair" if not model.startswith("fov") else "vector", "tensor" if not model.startswith("fov") else "deg",
                     "each" if model.endswith("scr") else "none")
    idx = [(off + 3 * i + 1) % len(cam.ROTS) for i in range(N)]
    P["R"], P["T"] = cam.ROTS[idx], cam.TS[[(off + i + 1) % len(cam.TS) for i in range(N)]]
    return P, cam.CLS[model](R=P["R"].float(), T=P["T"].float(), **kw)


def sub(P, ids):
    return {k: v[ids] for k, v in P.items()}


def check_rays(tag, model, P, o, d, z, xy, unit):
    """o, d (n,3), z (n,k), xy (n,2) of one camera (P has one row)"""
    n = len(o)
    expect(d.shape == (n, 3) and xy.shape == (n, 2) and len(z) == n, lambda: tag + ": shapes %s %s %s %s" % (o.shape, d.shape, z.shape, xy.shape))
    if n == 0:
        return
    o, d, z, xy = o.double(), d.double(), z.double(), xy.double()
    expect(bool(torch.isfinite(o).all() and torch.isfinite(d).all() and torch.isfinite(z).all()), tag + ": non-finite rays")
    R, T = P["R"][0], P["T"][0]
    if model.startswith("persp") or model == "fovp":
        c = -(R @ T)
        expect_close(tag + ": ray origins at the camera centre", o, c[None].expand(n, 3), atol=3e-4, rtol=1e-4)
    else:
        expect_close(tag + ": ray origins in the camera plane", (o @ R + T)[:, 2], torch.zeros(n), atol=1e-4)
    if unit:
        expect_close(tag + ": unit directions", d.norm(dim=1), torch.ones(n), atol=1e-5)
    else:
        expect_close(tag + ": one unit of ray length is one unit of depth", (d @ R)[:, 2], torch.ones(n), atol=2e-4)
    expect(bool(((d @ R)[:, 2] > 0).all()), tag + ": rays point backwards")
    zz = torch.cat([z, torch.tensor([[1.0, 3.0]], dtype=f64).expand(n, 2)], 1)
    for k in range(zz.shape[1]):
        X = o + zz[:, k:k + 1] * d
        V = cam.r_view(P, X[None])
        expect_close("%s: image location of the points %d along the rays" % (tag, k), cam.r_ndc(model, P, V)[0, :, :2], xy, atol=2e-3, rtol=1e-3)


def ndc_centres(h, w):
    s = min(h, w)
    x = (w - 1 - 2 * torch.arange(w, dtype=f64)) / s
    y = (h - 1 - 2 * torch.arange(h, dtype=f64)) / s
    return torch.stack([x[None].expand(h, w), y[:, None].expand(h, w)], -1)


def even(a, b, n):
    return [a + (b - a) * i / (n - 1) if n > 1 else a for i in range(n)]


def check_depths(tag, z, lo, hi, n, strat):
    """z (..., n): evenly spaced, or one in each stratum around the even spacing"""
    expect(z.shape[-1] == n, lambda: "%s: %d points per ray" % (tag, z.shape[-1]))
    if n == 0:
        return
    e = torch.tensor(even(lo, hi, n), dtype=f64)
    if not strat:
        expect_close(tag + ": depths", z, e.expand(z.shape), atol=1e-5)
        return
    mid = (e[1:] + e[:-1]) / 2
    a, b = torch.cat([e[:1], mid]), torch.cat([mid, e[-1:]])
    expect(bool((z.double() >= a - 1e-5).all() and (z.double() <= b + 1e-5).all()), lambda: "%s: depths %s outside their strata" % (tag, z.reshape(-1, n)[0].tolist()))


# ------------------------------------------------------------------ random sources
class Scripted:
    """Every draw becomes a branch point (discrete) or a lattice of values (continuous)."""

    def __init__(self, chooser, inner=False):
        self.inner = inner  # no values at the very ends of [0, 1)
        self.c = chooser
        self.rand_k = 0
        self.real = (torch.multinomial, torch.randint, torch.rand, torch.rand_like)

    def multinomial(self, probs, num_samples, replacement=False, **k):
        self.real[0](probs, num_samples, replacement=replacement)  # legality is torch's to judge
        p = probs.reshape(-1, probs.shape[-1])
        rows = []
        for r in p:
            pos = [i for i in range(len(r)) if float(r[i]) > 0]
            if replacement:
                t = nth_tuple(len(pos), num_samples, self.c.pick(len(pos) ** num_samples))
                rows.append([pos[i] for i in t])
            elif len(pos) >= num_samples:
                t = nth_perm(len(pos), num_samples, self.c.pick(math.perm(len(pos), num_samples)))
                rows.append([pos[i] for i in t])
            else:  # torch then returns entries of zero probability
                rest = [i for i in range(len(r)) if i not in pos]
                rows.append(pos + rest[:num_samples - len(pos)])
        return torch.tensor(rows, dtype=torch.int64).reshape(probs.shape[:-1] + (num_samples,))

    def randint(self, *a, **k):
        size = k.get("size", a[-1] if isinstance(a[-1], (tuple, list, torch.Size)) else None)
        a = [x for x in a if isinstance(x, int)]
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else (k.get("low", 0), k["high"])
        n = math.prod(size)
        return torch.tensor([lo + v for v in nth_tuple(hi - lo, n, self.c.pick((hi - lo) ** n))], dtype=torch.int64).reshape(tuple(size))

    def fill(self, shape):
        n = math.prod(shape)
        self.rand_k += 1
        L = torch.tensor([0.0, 1 - 2.0 ** -24, 0.5, 0.25, 0.9, 0.0, 0.75])
        L = L.clamp(0.01, 0.99) if self.inner else L
        return L[(torch.arange(n) + self.rand_k) % len(L)].reshape(shape)

    def rand(self, *size, **k):
        size = k.get("size", size[0] if len(size) == 1 and not isinstance(size[0], int) else size)
        return self.fill(tuple(size))

    def rand_like(self, x, **k):
        return self.fill(tuple(x.shape)).to(x)

    def __enter__(self):
        torch.multinomial, torch.randint, torch.rand, torch.rand_like = self.multinomial, self.randint, self.rand, self.rand_like
        return self

    def __exit__(self, *a):
        torch.multinomial, torch.randint, torch.rand, torch.rand_like = self.real


def all_outcomes(f, rec, inner=False):
    c = Chooser()
    while True:
        with Scripted(c, inner):
            r = f()
        rec.step()
        yield r
        if not c.next():
            break
    rec.count("draws not followed", c.skipped)


# ------------------------------------------------------------------ ray samplers
RANGES = [(1.0, -1.0, 0.5, -2.0), (-0.25, 0.75, 0.0, 3.0)]


def run_grid(case, rec):
    from pytorch3d.renderer import MultinomialRaysampler, NDCMultinomialRaysampler
    from pytorch3d.renderer.implicit.raysampling import GridRaysampler, NDCGridRaysampler

    _, model, N, m, npts = case
    P, c = cameras(model, N, off=N)
    k = 0
    for h in range(1, m + 1):
        for w in range(1, m + 1):
            for rng in [None] + RANGES:
                for unit in (False, True):
                    for strat in (False, True):
                        k += 1
                        n = k % (npts + 1)
                        lo, hi = [(1.0, 2.0), (0.25, 4.0), (2.0, 2.0)][k % 3]
                        kw = dict(image_width=w, image_height=h, n_pts_per_ray=n, min_depth=lo, max_depth=hi, unit_directions=unit, stratified_sampling=strat)
                        call = {}
                        if k % 4 == 0:  # the same values given when called instead
                            kw.update(n_pts_per_ray=9, min_depth=9.0, max_depth=10.0, stratified_sampling=not strat)
                            call = dict(n_pts_per_ray=n, min_depth=lo, max_depth=hi, stratified_sampling=strat)
                        if rng is None:
                            if k % 5 == 1 and not unit and not strat and not call:
                                s = NDCGridRaysampler(w, h, n, lo, hi)
                            else:
                                s = NDCMultinomialRaysampler(**kw)
                            want = ndc_centres(h, w)
                        else:
                            r = dict(zip(("min_x", "max_x", "min_y", "max_y"), rng))
                            if k % 5 == 1 and not unit and not strat and not call:
                                s = GridRaysampler(**r, image_width=w, image_height=h, n_pts_per_ray=n, min_depth=lo, max_depth=hi)
                            else:
                                s = MultinomialRaysampler(**r, **kw)
                            want = torch.stack([torch.tensor(even(rng[0], rng[1], w), dtype=f64)[None].expand(h, w),
                                                torch.tensor(even(rng[2], rng[3], h), dtype=f64)[:, None].expand(h, w)], -1)
                        tag = "%s cameras x %d, %dx%d image, range %s, unit=%s stratified=%s points=%d" % (model, N, h, w, rng, unit, strat, n)
                        b = s(c, **call)
                        expect(b.xys.shape == (N, h, w, 2) and b.origins.shape == (N, h, w, 3) and b.lengths.shape == (N, h, w, n), tag + ": shapes")
                        expect_close(tag + ": image locations", b.xys, want.expand(N, h, w, 2), atol=1e-5)
                        check_depths(tag, b.lengths, lo, hi, n, strat)
                        for i in range(N):
                            check_rays(tag, model, sub(P, [i]), b.origins[i].reshape(-1, 3), b.directions[i].reshape(-1, 3), b.lengths[i].reshape(h * w, n),
                                       b.xys[i].reshape(-1, 2), unit)
                        rec.step()
    rec.state(case)


def run_mc(case, rec):
    from pytorch3d.renderer import MonteCarloRaysampler

    _, model, N = case
    P, c = cameras(model, N, off=N + 4)
    for rng in [(-1.0, 1.0, -2.0, 0.5), (0.25, 0.75, -0.5, 0.0)]:
        for nr in (1, 2, 5):
            for unit in (False, True):
                for strat in (False, True):
                    s = MonteCarloRaysampler(*rng, nr, 3, 0.5, 2.5, unit_directions=unit, stratified_sampling=not strat)
                    tag = "Monte Carlo %s x %d range %s rays %d unit=%s" % (model, N, rng, nr, unit)
                    for b in all_outcomes(lambda: s(c, stratified_sampling=strat), rec):
                        expect(b.xys.shape[0] == N and b.xys.numel() == N * nr * 2, tag + ": number of rays")
                        xy = b.xys.reshape(N, nr, 2)
                        expect(bool((xy[..., 0] >= rng[0]).all() and (xy[..., 0] <= rng[1]).all() and (xy[..., 1] >= rng[2]).all() and (xy[..., 1] <= rng[3]).all()),
                               tag + ": image locations outside the range")
                        check_depths(tag, b.lengths, 0.5, 2.5, 3, strat)
                        for i in range(N):
                            check_rays(tag, model, sub(P, [i]), b.origins[i].reshape(-1, 3), b.directions[i].reshape(-1, 3), b.lengths[i].reshape(nr, 3), xy[i], unit)
    # rays in total
    for tot in range(1, 5):
        s = MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, None, 2, 0.5, 2.5, n_rays_total=tot)
        for b in all_outcomes(lambda: s(c), rec):
            check_packed("Monte Carlo %s x %d, %d in total" % (model, N, tot), model, P, b, tot, 2, False)
    expect_raises("both counts", lambda: MonteCarloRaysampler(-1.0, 1.0, -1.0, 1.0, 3, 2, 0.5, 2.5, n_rays_total=4)(c), ValueError)
    rec.state(case)


def masks_of(h, w):
    return [torch.tensor(b, dtype=torch.float32).reshape(h, w) for b in itertools.product((0, 1), repeat=h * w) if any(b)]


def pixel_ids(xy, want):
    """index of each image location in the grid"""
    dist = (xy.double()[:, None] - want.reshape(-1, 2)[None]).abs().amax(-1)
    v, i = dist.min(1)
    expect(bool((v < 1e-5).all()), "an image location is not on the grid")
    return i.tolist()


def check_pixels(tag, ids, mask, n):
    pos = [i for i, v in enumerate(mask.reshape(-1).tolist()) if v > 0]
    expect(len(ids) == n, lambda: "%s: %d rays, want %d" % (tag, len(ids), n))
    expect(all(i in pos for i in ids), lambda: "%s: pixels %s are outside the mask %s" % (tag, ids, mask.tolist()))
    if len(pos) >= n:
        expect(len(set(ids)) == n, lambda: "%s: pixel drawn twice: %s" % (tag, ids))


def run_sub1(case, rec):
    from pytorch3d.renderer import NDCMultinomialRaysampler

    _, (h, w), n = case
    P, c = cameras("persp_ndc", 1, off=2)
    want = ndc_centres(h, w)
    for mi, mask in enumerate([None] + masks_of(h, w)):
        for at in ("init", "call"):
            s = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=1, min_depth=1.0, max_depth=2.0, n_rays_per_image=n if at == "init" else None)
            tag = "%dx%d image, mask %s, %d rays per image" % (h, w, None if mask is None else mask.tolist(), n)
            seen = set()
            weights = mask if mi % 2 or mask is None else mask * 0.3
            for b in all_outcomes(lambda: s(c, mask=None if mask is None else weights[None], **({} if at == "init" else {"n_rays_per_image": n})), rec):
                ids = pixel_ids(b.xys.reshape(-1, 2), want)
                check_pixels(tag, ids, torch.ones(h, w) if mask is None else mask, n)
                check_rays(tag, "persp_ndc", P, b.origins.reshape(-1, 3), b.directions.reshape(-1, 3), b.lengths.reshape(n, -1), b.xys.reshape(-1, 2), False)
                seen |= set(ids)
            expect(len(seen) == (h * w if mask is None else int((mask > 0).sum())), lambda: "%s: pixels %s are the only ones ever drawn" % (tag, sorted(seen)))
            if mask is not None and n == 1:  # the whole mask
                s = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=1, min_depth=1.0, max_depth=2.0)
                for b in all_outcomes(lambda: s(c, mask=mask[None]), rec):
                    ids = pixel_ids(b.xys.reshape(-1, 2), want)
                    check_pixels(tag + " (all of the mask)", ids, mask, int(mask.sum()))
    rec.state(case)


def run_sub2(case, rec):
    from pytorch3d.renderer import NDCMultinomialRaysampler

    P, c = cameras("fovp", 2, off=2)
    h, w = 2, 2
    want = ndc_centres(h, w)
    pool = masks_of(h, w)
    if max(case[1]) < 5:
        pool = [pool[i] for i in (0, 5, 6, 10, 14)]
    mask = torch.stack([pool[i] for i in case[1]])
    for n in (1, 2, 3, None):
        k = n or int(mask.sum((1, 2)).min())
        s = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=1, min_depth=1.0, max_depth=2.0, n_rays_per_image=n)
        tag = "masks %s, %s rays per image" % (mask.tolist(), n)
        for b in all_outcomes(lambda: s(c, mask=mask), rec):
            for i in range(2):
                check_pixels(tag + " image %d" % i, pixel_ids(b.xys[i].reshape(-1, 2), want), mask[i], k)
                check_rays(tag, "fovp", sub(P, [i]), b.origins[i].reshape(-1, 3), b.directions[i].reshape(-1, 3), b.lengths[i].reshape(k, 1), b.xys[i].reshape(-1, 2), False)
    rec.state(case)


def check_packed(tag, model, P, b, tot, npts, unit, mask=None, grid=None):
    N = len(P["R"])
    sp = (tot,) + (1,) * (b.origins.ndim - 2)
    expect(b.origins.shape == sp + (3,) and b.directions.shape == sp + (3,) and b.lengths.shape == sp + (npts,) and b.xys.shape == sp + (2,),
           lambda: "%s: packed shapes %s %s %s" % (tag, b.origins.shape, b.lengths.shape, b.xys.shape))
    ids, counts = b.camera_ids.tolist(), b.camera_counts.tolist()
    expect(len(ids) == len(counts) and len(set(ids)) == len(ids) and all(0 <= i < N for i in ids) and sum(counts) == tot and min(counts) > 0,
           lambda: "%s: camera ids %s counts %s" % (tag, ids, counts))
    k = 0
    for i, n in zip(ids, counts):
        s = slice(k, k + n)
        check_rays(tag + " camera %d" % i, model, sub(P, [i]), b.origins[s].reshape(n, 3), b.directions[s].reshape(n, 3), b.lengths[s].reshape(n, npts),
                   b.xys[s].reshape(n, 2), unit)
        if grid is not None:
            px = pixel_ids(b.xys[s].reshape(n, 2), grid)
            pos = [j for j, v in enumerate(mask[i].reshape(-1).tolist()) if v > 0]
            expect(all(p in pos for p in px), lambda: "%s: pixels %s of camera %d are outside its mask" % (tag, px, i))
        k += n
    return tuple(ids), tuple(counts)


def run_total(case, rec):
    from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
    from pytorch3d.renderer import NDCMultinomialRaysampler

    _, N, tot, mk = case
    model = ["persp_scr", "fovo", "persp_ndc"][N - 1]
    P, c = cameras(model, N, off=1)
    for h, w in ((2, 2), (1, 1), (1, 2)):
        want = ndc_centres(h, w)
        if mk == "mask":
            pool = masks_of(h, w)
            mask = torch.stack([pool[(5 * i + 1) % len(pool)] for i in range(N)])
        else:
            mask = None
        for at in ("init", "call"):
            s = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=2, min_depth=1.0, max_depth=2.0, n_rays_total=tot if at == "init" else None)
            tag = "%s x %d %dx%d image, %d rays in total, mask %s" % (model, N, h, w, tot, None if mask is None else mask.tolist())
            seen = set()
            big = (h, w) == (2, 2) and mk == "none" and tot > 2
            real = torch.multinomial

            def call():
                if big:  # only the camera draw is enumerated here, the pixel draws are enumerated above
                    torch.multinomial = real
                return s(c, mask=mask, **({} if at == "init" else {"n_rays_total": tot}))
            for b in all_outcomes(call, rec):
                ids, counts = check_packed(tag, model, P, b, tot, 2, False, mask if mask is not None else torch.ones(N, h, w), want)
                seen.add((ids, counts))
                ib = ImplicitronRayBundle(b.origins, b.directions, b.lengths, b.xys, camera_ids=b.camera_ids, camera_counts=b.camera_counts)
                expect(ib.is_packed(), tag + ": is_packed")
                xys, first, num = ib.get_padded_xys()
                expect(xys.shape[:2] == (len(ids), max(counts)) and first.tolist() == [sum(counts[:i]) for i in range(len(ids))] and num == tot,
                       lambda: tag + ": padded xys %s first %s" % (xys.shape, first.tolist()))
                for i, n in enumerate(counts):
                    expect_close(tag + ": padded xys", xys[i, :n].reshape(n, 2), b.xys[first[i]:first[i] + n].reshape(n, 2), atol=0)
                    expect(not bool(xys[i, n:].any()), tag + ": padding of the xys")
            # every way of spreading the rays over the cameras is reached
            ways = sum(1 for t in itertools.product(range(tot + 1), repeat=N) if sum(t) == tot)
            expect(len(seen) == ways, lambda: "%s: %d of %d ways to spread the rays are reached" % (tag, len(seen), ways))
    s = NDCMultinomialRaysampler(image_width=2, image_height=2, n_pts_per_ray=2, min_depth=1.0, max_depth=2.0, n_rays_total=3)
    expect_raises("both counts", lambda: s(c, n_rays_per_image=2), ValueError)
    rec.state(case)


# ------------------------------------------------------------------ chunks
def run_chunk(case, rec):
    from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle, RendererOutput
    from pytorch3d.implicitron.models.utils import apply_chunked, chunk_generator

    kind = case[1]
    for B, sp in [(b, s) for b in (1, 2, 3) for s in ((1,), (2,), (5,), (2, 3), (3, 1), (1, 4), (2, 2, 2))]:
        for npts in ((0,) if kind == "nopoints" else (1, 2, 3)):
            n = math.prod(sp)

            def t(*s):
                return torch.arange(math.prod(s)).float().reshape(s)
            ids = cnt = None
            if kind == "packed":
                B2 = 5
                o = ImplicitronRayBundle(t(B2, *sp, 3), t(B2, *sp, 3) + 0.5, t(B2, *sp, npts), t(B2, *sp, 2), camera_ids=torch.tensor([2, 0, 3][:B]),
                                         camera_counts=torch.tensor([[5], [2, 3], [1, 3, 1]][B - 1]))
                ids, cnt = o.camera_ids, o.camera_counts
                BB = B2
            elif kind == "bins":
                o = ImplicitronRayBundle(t(B, *sp, 3), t(B, *sp, 3) + 0.5, None, t(B, *sp, 2), bins=t(B, *sp, npts + 1), pixel_radii_2d=t(B, *sp, 1))
                BB = B
            else:
                o = ImplicitronRayBundle(t(B, *sp, 3), t(B, *sp, 3) + 0.5, t(B, *sp, npts), t(B, *sp, 2))
                BB = B
            ex = t(BB, 2, *sp) * 10
            # a marker per ray: the result of every ray depends only on what belongs to it
            for chunk in [max(npts, 1) * j for j in range(1, n + 3)]:
                tag = "%s bundle of %d x %s rays with %d points, chunks of %d points" % (kind, BB, sp, npts, chunk)
                sizes = []

                def f(b, pos, extra=None, flag=None):
                    expect(pos == "pos" and flag == 7, tag + ": arguments are lost")
                    m = b.origins.shape[1]
                    sizes.append(m)
                    expect(b.origins.shape == (BB, m, 3) and b.directions.shape == (BB, m, 3) and b.lengths.shape == (BB, m, npts) and b.xys.shape == (BB, m, 2)
                           and extra.shape == (BB, 2, m), lambda: "%s: shapes of a chunk %s %s %s" % (tag, b.origins.shape, b.lengths.shape, extra.shape))
                    expect(m * max(npts, 1) <= chunk or m == 1, lambda: "%s: a chunk of %d rays" % (tag, m))
                    expect((b.camera_ids is None) == (ids is None) and (ids is None or torch.equal(b.camera_ids, ids) and torch.equal(b.camera_counts, cnt)),
                           lambda: "%s: the chunk has camera ids %s and counts %s, the bundle %s and %s" % (tag, b.camera_ids, b.camera_counts, ids, cnt))
                    parts = [b.origins, b.directions, b.lengths, b.xys, extra.transpose(1, 2)]
                    if kind == "bins":
                        parts += [b.bins, b.pixel_radii_2d]
                    return RendererOutput(features=torch.cat(parts, -1), depths=b.lengths[..., :1], masks=b.xys[..., :1], aux={"a": b.xys, "none": None},
                                          prev_stage=RendererOutput(features=b.origins, depths=b.xys, masks=b.xys))
                want = [o.origins, o.directions, o.lengths, o.xys, ex.movedim(1, -1)] + ([o.bins, o.pixel_radii_2d] if kind == "bins" else [])
                want = torch.cat([x.reshape(BB, n, -1) for x in want], -1)
                got = apply_chunked(f, chunk_generator(chunk, o, {"extra": ex}, 10 ** 9, "pos", flag=7), lambda l: torch.cat(l, dim=1))
                expect(sum(sizes) == n, lambda: "%s: chunk sizes %s" % (tag, sizes))
                expect_close(tag + ": joined", got.features, want, atol=0, rtol=0)
                expect_close(tag + ": joined stage", got.prev_stage.features, o.origins.reshape(BB, n, 3), atol=0, rtol=0)
                expect_close(tag + ": joined extras", got.aux["a"], o.xys.reshape(BB, n, 2), atol=0, rtol=0)
                rec.step()
            if npts > 1:
                expect_raises("a chunk that splits a ray", lambda: list(chunk_generator(npts + 1, o, {}, 99)), ValueError)
    rec.state(case)


def run_sampler(case, rec):
    """Implicitron ray samplers"""
    from pytorch3d.implicitron.models.renderer.base import EvaluationMode
    from pytorch3d.implicitron.models.renderer.ray_sampler import AdaptiveRaySampler, NearFarRaySampler
    from pytorch3d.implicitron.tools.config import expand_args_fields

    for C in (AdaptiveRaySampler, NearFarRaySampler):
        expand_args_fields(C)
    model = ["persp_ndc", "fovp", "persp_scr"][case[1]]
    N = 2
    P, _ = cameras(model, N, off=1)
    P["T"] = torch.tensor([[0.5, -1.0, 5.0], [1.0, 0.5, 5.0]], dtype=f64)  # the same distance from the origin
    _, c0 = cameras(model, N, off=1)
    c0 = c0.clone()
    c0.T = P["T"].float()
    dist = float(P["T"][0].norm())
    for h, w in ((2, 3), (3, 2), (2, 2)):
        for name in ("adaptive", "nearfar"):
            for mode in (EvaluationMode.TRAINING, EvaluationMode.EVALUATION):
                for sm in ("mask_sample", "full_grid"):
                    for cone in (False, True):
                        for strat in (False, True):
                            kw = dict(image_width=w, image_height=h, sampling_mode_training=sm, sampling_mode_evaluation=sm, n_pts_per_ray_training=3,
                                      n_pts_per_ray_evaluation=4, n_rays_per_image_sampled_from_mask=2, stratified_point_sampling_training=strat,
                                      stratified_point_sampling_evaluation=not strat, cast_ray_bundle_as_cone=cone)
                            if name == "adaptive":
                                s = AdaptiveRaySampler(scene_extent=2.0, **kw)
                                lo, hi = dist - 2.0, dist + 2.0
                            else:
                                s = NearFarRaySampler(min_depth=0.5, max_depth=3.0, **kw)
                                lo, hi = 0.5, 3.0
                            mask = torch.zeros(N, 1, h, w)
                            mask[0, 0, 0, 1] = mask[0, 0, 1, 0] = mask[1, 0, 1, 1] = mask[1, 0, 0, 0] = mask[1, 0, 0, 1] = 1
                            if strat:  # masks of another resolution
                                mask_in = mask.repeat_interleave(2, 2).repeat_interleave(3, 3)
                            else:
                                mask_in = mask
                            tr = mode == EvaluationMode.TRAINING
                            st = strat if tr else not strat
                            n = (3 if tr else 4) + int(cone)
                            tag = "%s sampler %dx%d %s %s cone=%s stratified=%s" % (name, h, w, mode, sm, cone, st)
                            for b in all_outcomes(lambda: s(c0, mode, mask=mask_in), rec):
                                z = b.bins if cone else b.lengths
                                expect_n = 2 if sm == "mask_sample" else h * w
                                expect(z.numel() == N * expect_n * n, lambda: tag + ": number of points %s" % (z.shape,))
                                check_depths(tag, z, lo, hi, n, st)
                                for i in range(N):
                                    check_rays(tag, model, sub(P, [i]), b.origins[i].reshape(-1, 3), b.directions[i].reshape(-1, 3), z[i].reshape(expect_n, n),
                                               b.xys[i].reshape(-1, 2), True)
                                    ids = pixel_ids(b.xys[i].reshape(-1, 2), ndc_centres(h, w))
                                    if sm == "mask_sample":
                                        check_pixels(tag, ids, mask[i, 0], 2)
                                    else:
                                        expect(ids == list(range(h * w)), tag + ": full grid")
                                if cone:
                                    expect_close(tag + ": lengths", b.lengths, (b.bins[..., 1:] + b.bins[..., :-1]) / 2, atol=1e-5)
    rec.state(case)


# ------------------------------------------------------------------ integration
def run_march(case, rec):
    from pytorch3d.renderer import AbsorptionOnlyRaymarcher, EmissionAbsorptionRaymarcher

    _, L, d0 = case
    al = [0.0, 0.25, 0.5, 1.0]
    D = torch.tensor([[al[d0]] + list(t) for t in itertools.product(al, repeat=L - 1)], dtype=f64)
    M = len(D)
    g = torch.Generator().manual_seed(3)
    F = torch.randint(-4, 5, (M, L, 3), generator=g).double()
    total = torch.ones(M, dtype=f64)
    for i in range(L):
        total = total * (1 - D[:, i])
    for dt, tol in ((torch.float32, 1e-5), (torch.float64, 1e-8)):
        for shape in ((M, L), (1, M, 1, L)):
            d, f = D.to(dt).reshape(shape + (1,)), F.to(dt).reshape(shape + (3,))
            o = AbsorptionOnlyRaymarcher()(d)
            expect_close("absorption only", o.reshape(-1), 1 - total, atol=tol)
            for th in range(1, 6):
                W = torch.stack([D[:, i] * torch.stack([1 - D[:, j] for j in range(0, i - th + 1)] + [torch.ones(M, dtype=f64)]).prod(0) for i in range(L)], 1)
                df, ff = d.clone().requires_grad_(), f.clone().requires_grad_()
                out = EmissionAbsorptionRaymarcher(surface_thickness=th)(df, ff)
                expect(out.shape == shape[:-1] + (4,), lambda: "shape of the rendered rays %s" % (out.shape,))
                out = out.reshape(M, 4)
                tag = "emission-absorption with %d points and thickness %d" % (L, th)
                expect_close(tag + ": features", out[:, :3], (W[..., None] * F).sum(1), atol=tol * 10)
                expect_close(tag + ": opacity", out[:, 3], 1 - total, atol=tol)
                if th == 1:
                    expect_close(tag + ": weights and transmittance sum to one", W.sum(1) + total, torch.ones(M), atol=1e-9)
                gr = torch.autograd.grad(out[:, :3].sum(), ff, retain_graph=True)[0]
                expect_close(tag + ": weights", gr.reshape(M, L, 3), W[..., None].expand(M, L, 3), atol=tol)
                expect(bool((gr >= 0).all()), tag + ": negative weight")
                rec.step(M)
    expect_raises("two densities per point", lambda: EmissionAbsorptionRaymarcher()(torch.zeros(2, 3, 2), torch.zeros(2, 3, 3)), ValueError)
    expect_raises("features of another shape", lambda: EmissionAbsorptionRaymarcher()(torch.zeros(2, 3, 1), torch.zeros(2, 4, 3)), ValueError)
    rec.state(case)


def run_imarch(case, rec):
    from pytorch3d.implicitron.models.renderer.raymarcher import CumsumRaymarcher, EmissionAbsorptionRaymarcher
    from pytorch3d.implicitron.tools.config import expand_args_fields

    _, L, kind, sw = case
    rep, relu, blend, given = [bool(sw >> i & 1) for i in range(4)]
    C = {"ea": EmissionAbsorptionRaymarcher, "cumsum": CumsumRaymarcher}[kind]
    expand_args_fields(C)
    al = ([-1.0] if relu else []) + [0.0, 0.5, 3.0, 1e4]
    D = torch.tensor(list(itertools.product(al, repeat=L)), dtype=f64)
    M = len(D)
    g = torch.Generator().manual_seed(5)
    F = torch.randint(-4, 5, (M, L, 2), generator=g).double()
    Z = torch.tensor([0.5, 0.75, 1.75, 2.0, 4.0][:L], dtype=f64).expand(M, L) + torch.arange(M, dtype=f64)[:, None] % 2
    if rep and L == 1 and not given:
        return  # there is no interval to repeat
    for th in range(1, L + 2):
        for bg, bgo in (((0.0,), None), ((0.5, -1.0), 0.25), ((2.0,), 0.0)):
            kw = {} if bgo is None else {"background_opacity": bgo}
            m = C(surface_thickness=th, bg_color=bg, replicate_last_interval=rep, density_relu=relu, blend_output=blend, **kw)
            last = bgo if bgo is not None else 1e10 if kind == "ea" else 0.0
            dz = Z[:, 1:] - Z[:, :-1]
            dl = torch.cat([dz, dz[:, -1:] if rep and L > 1 else torch.full((M, 1), last, dtype=f64)], 1)
            if given:
                dl = torch.tensor([0.25, 1.0, 0.5, 2.0, 0.125][:L], dtype=f64).expand(M, L)
            x = (D.clamp(min=0) if relu else D) * dl

            def cap(v):
                return 1 - torch.exp(-v) if kind == "ea" else v.clamp(max=1.0)
            W = []
            for i in range(L):
                acc = torch.ones(M, dtype=f64)
                if i - th >= 0:
                    acc = 1 - cap(sum(x[:, j] for j in range(0, i - th + 1)))
                a = cap(x[:, i])
                W.append(a * acc if kind == "ea" else torch.minimum(a, acc))
            W = torch.stack(W, 1)
            op = cap(x.sum(1, keepdim=True))
            for shape in ((M, L), (1, M, 1, L)):
                out = m(D.float().reshape(shape + (1,)), F.float().reshape(shape + (2,)), {"k": 1}, ray_lengths=Z.float().reshape(shape),
                        ray_deltas=dl.float().reshape(shape) if given else None)
                tag = "%s marcher, %d points, thickness %d, bg %s opacity %s, repeat=%s relu=%s blend=%s deltas=%s" % (kind, L, th, bg, bgo, rep, relu, blend, given)
                w = out.weights.reshape(M, L)
                expect_close(tag + ": weights", w, W, atol=1e-5)
                expect_close(tag + ": mask", out.masks.reshape(M, 1), op, atol=1e-5)
                expect(bool((w >= -1e-6).all()), tag + ": negative weight")
                if th == 1:
                    expect_close(tag + ": weights sum to the opacity", w.sum(1, keepdim=True), op, atol=1e-5)
                f = (W[..., None] * F).sum(1)
                expect_close(tag + ": colour", out.features.reshape(M, 2), (op if blend else 1) * f + (1 - op) * torch.tensor(bg, dtype=f64), atol=1e-4)
                expect_close(tag + ": depth", out.depths.reshape(M, 1), (W * Z).sum(1, keepdim=True), atol=1e-4)
                expect(out.aux == {"k": 1}, tag + ": aux")
                rec.step(M)
    expect_raises("background with another number of channels", lambda: C(bg_color=(0.0, 0.0, 0.0))(torch.zeros(1, 2, 1), torch.zeros(1, 2, 2), {}, torch.ones(1, 2)), ValueError)
    rec.state(case)


# ------------------------------------------------------------------ volumes
SIZES = [(2, 2, 2), (2, 3, 4), (4, 3, 2), (3, 3, 3), (3, 2, 2)]
PLACES = [(1.0, (0.0, 0.0, 0.0)), (0.5, (0.25, -0.5, 1.0)), ((0.5, 1.0, 2.0), (0.0, 0.0, 0.0)), ((2.0, 0.25, 1.0), (-1.0, 0.5, 0.25))]


def vox(V, p, mode, pad, align):
    """V (C,D,H,W) at voxel coordinates p (n,3) as x,y,z: zero outside, or clamped to the border"""
    C, *S = V.shape
    out = torch.zeros(len(p), C, dtype=f64)
    hi = torch.tensor([S[2], S[1], S[0]], dtype=f64) - 1
    if pad == "border":
        p = torch.minimum(p.clamp(min=0), hi)
    if mode == "nearest":
        q = torch.floor(p + 0.5)
        ok = ((q >= 0) & (q <= hi)).all(1)
        q = torch.minimum(q.clamp(min=0), hi).long()
        return V.double()[:, q[:, 2], q[:, 1], q[:, 0]].T * ok[:, None]
    b = torch.floor(p)
    for c in itertools.product((0, 1), repeat=3):
        q = b + torch.tensor(c, dtype=f64)
        wgt = (1 - (p - q).abs()).clamp(min=0).prod(1)
        ok = ((q >= 0) & (q <= hi)).all(1)
        qi = torch.minimum(q.clamp(min=0), hi).long()
        out += (wgt * ok)[:, None] * V.double()[:, qi[:, 2], qi[:, 1], qi[:, 0]].T
    return out


def local_ref(X, size, voxel, trans):
    """world points -> local coordinates, where the volume of extent (size-1)*voxel around -trans is [-1, 1]"""
    s = torch.tensor([size[2], size[1], size[0]], dtype=f64)
    return (X + torch.tensor(trans, dtype=f64)) / ((s - 1) * 0.5 * torch.tensor(voxel, dtype=f64).expand(3))


def voxel_coords(X, size, voxel, trans, align):
    s = torch.tensor([size[2], size[1], size[0]], dtype=f64)
    l = local_ref(X, size, voxel, trans)
    return (l + 1) / 2 * (s - 1) if align else ((l + 1) * s - 1) / 2


def run_volume(case, rec):
    from pytorch3d.renderer import RayBundle
    from pytorch3d.renderer.implicit.renderer import VolumeSampler
    from pytorch3d.renderer.implicit.utils import HeterogeneousRayBundle, ray_bundle_to_ray_points
    from pytorch3d.structures import Volumes

    sizes = [SIZES[case[1]], SIZES[case[2]]]
    g = torch.Generator().manual_seed(case[1] * 7 + case[2])
    for same in (False, True):
        for align in (True, False):
            for voxel, trans in PLACES:
                dens = [torch.randint(0, 9, (1,) + s, generator=g).float() for s in sizes]
                feat = [torch.randint(-9, 9, (2,) + s, generator=g).float() for s in sizes]
                vx = [torch.tensor(voxel).float().expand(3) * (1 if same else 1 + i) for i in range(2)]
                tr = [torch.tensor(trans) * (1 if same else 1 - i) for i in range(2)]
                for withf in (True, False):
                    V = Volumes(dens, feat if withf else None, voxel_size=torch.stack(vx), volume_translation=torch.stack(tr), align_corners=align)
                    # rays through and around the volumes, not touching rounding boundaries
                    o = torch.rand(2, 3, 5, 3, generator=g) * 6 - 3
                    d = torch.rand(2, 3, 5, 3, generator=g) * 2 - 1
                    z = torch.rand(2, 3, 5, 4, generator=g) * 4
                    RB = HeterogeneousRayBundle if same else RayBundle
                    b = RB(o, d, z, torch.zeros(2, 3, 5, 2))
                    X = o.double()[..., None, :] + z.double()[..., None] * d.double()[..., None, :]
                    expect_close("points along the rays", ray_bundle_to_ray_points(b), X, atol=1e-5)
                    for mode in ("bilinear", "nearest"):
                        for pad in ("zeros", "border"):
                            tag = "volumes of sizes %s align_corners=%s voxel %s translation %s %s %s" % (sizes, align, voxel, trans, mode, pad)
                            rd, rf = VolumeSampler(V, mode, pad)(b)
                            expect(rd.shape == (2, 3, 5, 4, 1) and rf.shape == (2, 3, 5, 4, 2 if withf else 0), tag + ": shapes")
                            for i in range(2):
                                p = voxel_coords(X[i].reshape(-1, 3), sizes[i], vx[i].tolist(), tr[i].tolist(), align)
                                ok = ((p - torch.floor(p) - 0.5).abs() > 1e-3).all(1) if mode == "nearest" else torch.ones(len(p), dtype=torch.bool)
                                expect_close(tag + ": density along the rays of volume %d" % i, rd[i].reshape(-1, 1)[ok], vox(dens[i], p, mode, pad, align)[ok], atol=2e-3)
                                if withf:
                                    expect_close(tag + ": features along the rays of volume %d" % i, rf[i].reshape(-1, 2)[ok], vox(feat[i], p, mode, pad, align)[ok], atol=2e-3)
                            rec.step()
    expect_raises("three rays for two volumes", lambda: VolumeSampler(V)(RayBundle(torch.zeros(3, 1, 3), torch.zeros(3, 1, 3), torch.zeros(3, 1, 1), torch.zeros(3, 1, 2))), ValueError)
    rec.state(case)


def run_volrender(case, rec):
    """the whole renderer: image of a volume against the sums written out"""
    from pytorch3d.renderer import EmissionAbsorptionRaymarcher, NDCMultinomialRaysampler, VolumeRenderer
    from pytorch3d.renderer.implicit.renderer import ImplicitRenderer
    from pytorch3d.structures import Volumes

    model = ["persp_ndc", "fovp", "orth_ndc"][case[1]]
    N, size = 2, (3, 2, 4)
    P, c = cameras(model, N, off=3)
    g = torch.Generator().manual_seed(case[1])
    for h, w in ((2, 2), (1, 3), (3, 2)):
        for align in (True, False):
            dens = torch.randint(0, 5, (N, 1) + size, generator=g).float() / 4
            feat = torch.randint(-9, 9, (N, 2) + size, generator=g).float()
            # volumes centred two units in front of each camera
            cen = ((torch.tensor([0.0, 0.0, 2.0], dtype=f64) - P["T"])[:, None] @ P["R"].transpose(1, 2))[:, 0]
            V = Volumes(dens, feat, voxel_size=0.5, volume_translation=-cen.float(), align_corners=align)
            s = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=5, min_depth=0.5, max_depth=3.5)
            img, b = VolumeRenderer(s, EmissionAbsorptionRaymarcher())(c, V)
            expect(img.shape == (N, h, w, 3), lambda: "image shape %s" % (img.shape,))
            X = b.origins.double()[..., None, :] + b.lengths.double()[..., None] * b.directions.double()[..., None, :]
            for i in range(N):
                check_rays("volume renderer", model, sub(P, [i]), b.origins[i].reshape(-1, 3), b.directions[i].reshape(-1, 3), b.lengths[i].reshape(h * w, 5),
                           b.xys[i].reshape(-1, 2), False)
                p = voxel_coords(X[i].reshape(-1, 3), size, 0.5, (-cen[i]).tolist(), align)
                d = vox(dens[i], p, "bilinear", "zeros", align).reshape(h * w, 5)
                f = vox(feat[i], p, "bilinear", "zeros", align).reshape(h * w, 5, 2)
                acc, t = torch.zeros(h * w, 2, dtype=f64), torch.ones(h * w, dtype=f64)
                for k in range(5):
                    acc += (t * d[:, k])[:, None] * f[:, k]
                    t = t * (1 - d[:, k])
                expect_close("%s image %dx%d of a volume, align_corners=%s" % (model, h, w, align), img[i].reshape(-1, 3), torch.cat([acc, 1 - t[:, None]], 1), atol=1e-2)
            rec.step()
    expect_raises("not callable", lambda: ImplicitRenderer(3, EmissionAbsorptionRaymarcher()), ValueError)
    rec.state(case)


def run_refine(case, rec):
    from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
    from pytorch3d.implicitron.models.renderer.ray_point_refiner import RayPointRefiner
    from pytorch3d.implicitron.tools.config import expand_args_fields

    L = case[1]
    expand_args_fields(RayPointRefiner)
    Wt = torch.tensor(list(itertools.product((0.0, 0.5, 1.0), repeat=L)))
    M = len(Wt)
    Z = torch.tensor([0.5, 0.75, 1.75, 2.0, 4.0, 4.5][:L + 1])
    for kind in ("lengths", "bins"):
        for add in (True, False):
            for rnd in (True, False):
                for blur in (False, True):
                    for n in (1, 3):
                        r = RayPointRefiner(n_pts_per_ray=n, random_sampling=rnd, add_input_samples=add, blurpool_weights=blur)
                        k = L + 1 if kind == "bins" else L
                        z = Z[:k].expand(1, M, 1, k).contiguous()
                        kw = {"lengths": None, "bins": z} if kind == "bins" else {"lengths": z}
                        b = ImplicitronRayBundle(torch.zeros(1, M, 1, 3), torch.ones(1, M, 1, 3), xys=torch.zeros(1, M, 1, 2), **kw)
                        before = z.clone()
                        tag = "refining %d %s, add=%s random=%s blur=%s by %d" % (L, kind, add, rnd, blur, n)
                        for out in all_outcomes(lambda: r(b, Wt.reshape(1, M, 1, L)), rec, True):
                            z2 = (out.bins if kind == "bins" else out.lengths).reshape(M, -1)
                            n2 = n + (1 if kind == "bins" else 0)
                            expect(z2.shape[1] == n2 + (k if add else 0), lambda: "%s: %d depths" % (tag, z2.shape[1]))
                            expect(bool((z2[:, 1:] >= z2[:, :-1]).all()), tag + ": depths are not sorted")
                            expect(torch.equal((b.bins if kind == "bins" else b.lengths), before), tag + ": the input bundle changed")
                            w = Wt.double()
                            if blur:
                                wp = torch.cat([w[:, :1], w, w[:, -1:]], 1)
                                mx = torch.maximum(wp[:, 1:], wp[:, :-1])
                                w = (mx[:, 1:] + mx[:, :-1]) / 2
                            # bins in which samples may fall
                            e = Z[:k].double() if kind == "bins" else (Z[1:k].double() + Z[:k - 1].double()) / 2
                            w = w if kind == "bins" else w[:, 1:-1]
                            for i in range(M):
                                s = z2[i].tolist()
                                if add:
                                    for v in Z[:k].tolist():
                                        j = min(range(len(s)), key=lambda q: abs(s[q] - v))
                                        expect(abs(s[j] - v) < 1e-6, lambda: "%s: input depth %s is lost" % (tag, v))
                                        s.pop(j)
                                ww = w[i].tolist()
                                for v in s:
                                    expect(e[0] - 1e-5 <= v <= e[-1] + 1e-5, lambda: "%s: depth %s outside %s" % (tag, v, e.tolist()))
                                    # deterministic sampling includes the 0- and 1-quantiles, which are the ends
                                    if sum(ww) > 0 and (rnd or float(e[0]) + 1e-6 < v < float(e[-1]) - 1e-6):
                                        inside = [j for j in range(len(ww)) if e[j] - 1e-3 <= v <= e[j + 1] + 1e-3]
                                        expect(any(ww[j] > 0 for j in inside), lambda: "%s: depth %s where the weights %s are zero" % (tag, v, ww))
    rec.state(case)


def run_ndcgrid(case, rec):
    from pytorch3d.renderer import ndc_grid_sample, NDCMultinomialRaysampler

    _, c = cameras("persp_ndc", 2)
    for h in range(1, case[1] + 3):
        for w in range(1, case[1] + 3):
            img = torch.arange(2 * 3 * h * w).float().reshape(2, 3, h, w)
            b = NDCMultinomialRaysampler(image_width=w, image_height=h, n_pts_per_ray=1, min_depth=1.0, max_depth=2.0)(c)
            for mode in ("bilinear", "nearest"):
                expect_close("image of %dx%d sampled at its pixel centres (%s)" % (h, w, mode), ndc_grid_sample(img, b.xys, mode=mode), img, atol=1e-2)
            rec.step()
    rec.state(case)
