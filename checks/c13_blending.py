"""C13: compositing and blending of every pattern of fragments in a pixel, against the formulas in float64, with gradients."""
import itertools
from collections import namedtuple

import torch
from mc.core import Violation, expect, expect_close

from pytorch3d.renderer import (AlphaCompositor, NormWeightedCompositor, FoVOrthographicCameras, PointsRasterizationSettings, PointsRasterizer,
                                PointsRenderer)
from pytorch3d.renderer.blending import BlendParams, hard_rgb_blend, sigmoid_alpha_blend, softmax_rgb_blend
from pytorch3d.renderer.compositing import alpha_composite, norm_weighted_sum, weighted_sum
from pytorch3d.structures import Pointclouds

PROPERTY = "C13"
ASSUMPTIONS = [
    "compositors with a background colour: fragments fill the slots from the front, as the rasterizer delivers them",
    "normalised weights below 1e-4 in total are divided by 1e-4, as defined by the code's constant",
]
BOUNDS = {
    "quick": "every pixel pattern of K = 1..5 slots over {empty, 5 points, opacities 0, tiny, .3, .9, 1} (8 kinds per slot), contiguous and permuted "
             "memory, 1..3 channels, batches of 1 and 2, gradients; mesh blending: every pattern of K = 1..5 over {empty, 3 distances x 3 depths}, "
             "3 sigma x 3 gamma x 3 near/far settings, 3 backgrounds, gradients; compositor backgrounds; point renderer on 24 scenes",
    "thorough": "as quick with K = 6",
}
BUDGET = {"quick": 300, "thorough": 0}
CHUNK = 1
f64 = torch.float64
Frag = namedtuple("Frag", "pix_to_face zbuf bary_coords dists")

SLOT = [(-1, 0.5), (0, 0.3), (1, 0.0), (2, 1.0), (3, 0.9), (0, 1.0), (4, 7e-6), (1, 0.6)]


def patterns(K, B):
    """all SLOT^K pixel patterns -> idx (B,K,H,W), alphas, padded to a full rectangle"""
    n = len(SLOT)
    tot = n ** K
    k = torch.arange(tot)
    digits = torch.stack([(k // n ** j) % n for j in range(K)])  # (K, tot)
    Wd = n ** ((K + 1) // 2)
    digits = digits.reshape(K, tot // Wd, Wd)
    idx = torch.tensor([s[0] for s in SLOT])[digits]
    al = torch.tensor([s[1] for s in SLOT], dtype=torch.float32)[digits]
    idxs, als = [idx], [al]
    for b in range(1, B):  # other batch elements: the same patterns in another order, on other points
        i2 = idx.flip(2)
        idxs.append(torch.where(i2 >= 0, i2 + 5 * b, i2))
        als.append(al.flip(2))
    return torch.stack(idxs), torch.stack(als)


def comp_ref(kind, idx, al, feat):
    """(B,K,H,W), (B,K,H,W), (C,P) -> (B,C,H,W)"""
    C = feat.shape[0]
    present = (idx >= 0)
    f = feat[:, idx.clamp(min=0)].permute(1, 0, 2, 3, 4)  # (B,C,K,H,W)
    a = torch.where(present, al, torch.zeros_like(al))
    if kind == "alpha":
        out = torch.zeros(idx.shape[0], C, *idx.shape[2:], dtype=al.dtype)
        T = torch.ones_like(a[:, 0])
        for k in range(idx.shape[1]):
            out = out + (T * a[:, k])[:, None] * f[:, :, k]
            T = T * (1 - a[:, k])
        return out
    s = (a[:, None] * f).sum(2)
    if kind == "sum":
        return s
    tot = a.sum(1)
    return s / torch.where(tot < 1e-4, torch.full_like(tot, 1e-4), tot)[:, None]


FN = {"alpha": alpha_composite, "norm": norm_weighted_sum, "sum": weighted_sum}


def cases(tier):
    th = tier == "thorough"
    out = []
    for K in range(1, 7 if th else 6):
        for kind in FN:
            for B in (1, 2):
                for C in (1, 3):
                    for mem in ("contig", "permuted"):
                        out.append(["comp", kind, K, B, C, mem])
    for kind in ("alpha", "norm"):
        out.append(["background", kind])
    for K in range(1, 7 if th else 6):
        for si in range(3):
            out.append(["sigmoid", K, si])
            for gi in range(3):
                for zi in range(4):
                    out.append(["softmax", K, si, gi, zi])
        out.append(["hard", K])
    for i in range(24):
        out.append(["renderer", i])
    return out


def run(case, rec):
    globals()["run_" + case[0]](case, rec)
    rec.trace()
    rec.sample({"case": case})


def upstream(shape):
    n = 1
    for s in shape:
        n *= s
    return ((torch.arange(n, dtype=f64) * 0.754877666) % 1 + 0.25).reshape(shape)


def run_comp(case, rec):
    _, kind, K, B, C, mem = case
    idx, al = patterns(K, B)
    P = 5 * B
    feat = (((torch.arange(C * P, dtype=f64) * 0.618034) % 1) * 4 - 1.5).reshape(C, P)
    al64 = al.double().requires_grad_(True)
    f64_ = feat.clone().requires_grad_(True)
    want = comp_ref(kind, idx, al64, f64_)
    a = al.clone().requires_grad_(True)
    f = feat.float().requires_grad_(True)
    if mem == "permuted":  # as PointsRenderer passes them: (B,H,W,K) memory, point-major features
        ai = a.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        ii = idx.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        fi = f.t().contiguous().t()
    else:
        ai, ii, fi = a, idx, f
    got = FN[kind](ii, ai, fi)
    rec.step(idx[:, 0].numel())
    expect_close("%s compositing of all patterns of %d slots" % (kind, K), got, want, atol=2e-5, rtol=2e-5)
    w = upstream(want.shape)
    ra, rf = torch.autograd.grad((want * w).sum(), (al64, f64_))
    g = (got.permute(0, 2, 3, 1) * w.float().permute(0, 2, 3, 1)).sum() if mem == "permuted" else (got * w.float()).sum()
    ga, gf = torch.autograd.grad(g, (a, f))
    empty = idx < 0
    bad = ((ga.double() - ra).abs() > 1e-3 + 2e-3 * ra.abs()).nonzero()
    if len(bad):
        b, k, h, x = bad[0].tolist()
        raise Violation("%s compositing: gradient of opacity %d in the pixel with points %s opacities %s: got %.6g, want %.6g" % (
            kind, k, idx[b, :, h, x].tolist(), al[b, :, h, x].tolist(), ga[b, k, h, x], ra[b, k, h, x]))
    expect(not bool((ga[empty] != 0).any()), "%s compositing: an empty slot has a gradient" % kind)
    expect_close("%s compositing: gradient of the features" % kind, gf, rf, atol=1e-2, rtol=1e-3)
    rec.step(idx[:, 0].numel())
    rec.state([case, want])


def run_background(case, rec):
    kind = case[1]
    cls = {"alpha": AlphaCompositor, "norm": NormWeightedCompositor}[kind]
    idx, al = patterns(3, 2)
    keep = (((idx >= 0).long().diff(dim=1) <= 0).all(1))  # filled from the front
    idx = torch.where(keep[:, None], idx, torch.full_like(idx, -1))
    for C in (1, 3, 4):
        feat = (((torch.arange(C * 10, dtype=f64) * 0.618034) % 1) * 4 - 1.5).reshape(C, 10)
        base = comp_ref(kind, idx, al.double(), feat)
        for bg in (None, (0.2,), (0.1, 0.7, 0.4), (0.3, 0.6, 0.9, 0.5), 0.25, "tensor3", "tensor64"):
            b = bg
            if bg == "tensor3":
                b = torch.tensor([0.4, 0.1, 0.8])
            if bg == "tensor64":
                b = torch.tensor([0.4, 0.1, 0.8], dtype=f64)
            vals = None
            if b is not None:
                vals = [b] * C if isinstance(b, float) else (b.tolist() if torch.is_tensor(b) else list(b))
                if len(vals) + 1 == C:
                    vals = vals + [1.0]
            for how in ("constructor", "call"):
                f = feat.float().requires_grad_(True)
                a = al.clone().requires_grad_(True)
                m = cls(background_color=b if how == "constructor" else (9.0,) * C)
                kw = {} if how == "constructor" else {"background_color": b}
                if vals is not None and len(vals) != C:
                    try:
                        m(idx, a, f, **kw)
                    except ValueError:
                        continue
                    raise Violation("%s: background %s accepted for %d channels" % (cls.__name__, bg, C))
                got = m(idx, a, f, **kw)
                want = base
                empty = (idx[:, 0] < 0)[:, None].expand_as(base)
                if vals is not None:
                    want = torch.where(empty, torch.tensor(vals, dtype=f64)[None, :, None, None].expand_as(base), base)
                expect_close("%s background %s, %d channels, by %s" % (cls.__name__, bg, C, how), got, want, atol=2e-5)
                fr, ar = feat.clone().requires_grad_(True), al.double().requires_grad_(True)
                w = upstream(base.shape)
                wr = w if vals is None else w * ~empty
                r = torch.autograd.grad((comp_ref(kind, idx, ar, fr) * wr).sum(), (fr, ar))
                g = torch.autograd.grad((got * w.float()).sum(), (f, a))
                expect_close("%s background: gradient of the features" % cls.__name__, g[0], r[0], atol=5e-3, rtol=1e-3)
                expect_close("%s background: gradient of the opacities" % cls.__name__, g[1], r[1], atol=1e-3, rtol=2e-3)
                rec.step(idx[:, 0].numel())
                rec.state([kind, C, str(bg), how])
    try:
        cls(background_color=torch.zeros(1, 3))(idx, al, torch.rand(3, 10))
    except ValueError:
        pass
    else:
        raise Violation("%s: a 2D background colour is accepted" % cls.__name__)


# ------------------------------------------------------------------ mesh blending
SIG = [1e-4, 1e-2, 0.4]
GAM = [1e-4, 2e-2, 0.5]
BGS = [(1.0, 1.0, 1.0), (0.2, 0.5, 0.7), "tensor"]
DIST = [-1.7, 0.0, 0.8]  # times sigma
ZS = [1.5, 40.0, 130.0]


def mesh_patterns(K, sigma, unsorted=True):
    opts = [(-1, -1.0, -1.0)] + [(3 * i + j, d * sigma, z) for i, d in enumerate(DIST) for j, z in enumerate(ZS)]
    n = len(opts)
    tot = n ** K
    if K >= 5:
        opts = opts[:1] + opts[1::2]
        n = len(opts)
        tot = n ** K
    k = torch.arange(tot)
    digits = torch.stack([(k // n ** j) % n for j in range(K)], -1)
    Wd = n ** ((K + 1) // 2)
    digits = digits.reshape(1, tot // Wd, Wd, K)
    p2f = torch.tensor([o[0] for o in opts])[digits]
    ds = torch.tensor([o[1] for o in opts], dtype=torch.float32)[digits]
    zb = torch.tensor([o[2] for o in opts], dtype=torch.float32)[digits]
    p2f, ds, zb = (torch.cat([t, t.flip(2)]) for t in (p2f, ds, zb))
    cols = (((torch.arange(p2f.numel() * 3, dtype=f64) * 0.618034) % 1)).reshape(p2f.shape + (3,)).float()
    return p2f, ds, zb, cols


def bg_of(i):
    b = BGS[i % 3]
    return torch.tensor([0.9, 0.3, 0.1]) if b == "tensor" else b


def run_hard(case, rec):
    K = case[1]
    p2f, ds, zb, cols = mesh_patterns(K, 1e-2)
    for bi in range(3):
        b = bg_of(bi)
        c = cols.clone().requires_grad_(True)
        got = hard_rgb_blend(c, Frag(p2f, zb, None, ds), BlendParams(background_color=b))
        hit = p2f[..., 0] >= 0
        want = torch.where(hit[..., None], cols[..., 0, :], torch.as_tensor(b).float().expand_as(cols[..., 0, :]))
        expect_close("hard_rgb_blend background %s K=%d" % (b, K), got, torch.cat([want, hit[..., None].float()], -1), atol=1e-6)
        w = upstream(got.shape).float()
        (g,) = torch.autograd.grad((got * w).sum(), c)
        r = torch.zeros_like(g)
        r[..., 0, :] = w[..., :3] * hit[..., None]
        expect_close("hard_rgb_blend gradient", g, r, atol=1e-6)
        rec.step(2 * hit.numel())
        rec.state([case, bi, want])


def run_sigmoid(case, rec):
    _, K, si = case
    sigma = SIG[si]
    p2f, ds, zb, cols = mesh_patterns(K, sigma)
    big = ds.clone()
    for scale in (1.0, 60.0, 4000.0):
        d = (big * scale).clone().requires_grad_(True)
        c = cols.clone().requires_grad_(True)
        got = sigmoid_alpha_blend(c, Frag(p2f, zb, None, d), BlendParams(sigma=sigma))
        d64 = (big * scale).double().requires_grad_(True)
        miss = torch.where(p2f >= 0, 1 - torch.sigmoid(-d64 / sigma), torch.ones_like(d64))
        alpha = 1 - miss.prod(-1)
        tag = "sigmoid_alpha_blend sigma %s K=%d distances x%s" % (sigma, K, scale)
        expect_close(tag, got, torch.cat([cols[..., 0, :].double(), alpha[..., None]], -1), atol=2e-6)
        expect(bool(((got[..., 3] >= 0) & (got[..., 3] <= 1)).all()), tag + ": opacity outside [0, 1]")
        w = upstream(got.shape)
        gd, gc = torch.autograd.grad((got * w.float()).sum(), (d, c))
        (rd,) = torch.autograd.grad((alpha * w[..., 3]).sum(), d64)
        expect_close(tag + ": gradient of the distances", gd * sigma, rd * sigma, atol=2e-5, rtol=1e-3)
        rc = torch.zeros_like(gc)
        rc[..., 0, :] = w[..., :3]
        expect_close(tag + ": gradient of the colours", gc, rc, atol=1e-5)
        rec.step(2 * alpha.numel())
    rec.state([case, alpha])


def run_softmax(case, rec):
    _, K, si, gi, zi = case
    sigma, gamma = SIG[si], GAM[gi]
    p2f, ds, zb, cols = mesh_patterns(K, sigma)
    near, far = [(1.0, 100), (0.5, 50.0), (torch.tensor([1.0, 0.25]), torch.tensor([100.0, 60.0])), ("default", "default")][zi]
    kw = {} if near == "default" else {"znear": near, "zfar": far} if not torch.is_tensor(near) else {"znear": near, "zfar": far}
    if isinstance(near, str):
        near, far = 1.0, 100.0
    if torch.is_tensor(near):
        n_, f_ = near.double()[:, None, None, None], far.double()[:, None, None, None]
    else:
        n_, f_ = float(near), float(far)
    b = bg_of(si + gi)
    d, z, c = (t.clone().requires_grad_(True) for t in (ds, zb, cols))
    got = softmax_rgb_blend(c, Frag(p2f, z, None, d), BlendParams(sigma=sigma, gamma=gamma, background_color=b), **kw)
    d6, z6, c6 = (t.double().requires_grad_(True) for t in (ds, zb, cols))
    hit = p2f >= 0
    zero = torch.zeros_like(d6)
    prob = torch.where(hit, torch.sigmoid(-d6 / sigma), zero)
    zi_ = torch.where(hit, (f_ - z6) / (f_ - n_), zero)
    top = zi_.max(-1, keepdim=True).values.clamp(min=1e-10)
    wt = prob * torch.exp((zi_ - top) / gamma)
    delta = torch.exp((1e-10 - top) / gamma).clamp(min=1e-10)
    den = wt.sum(-1, keepdim=True) + delta
    rgb = ((wt[..., None] * c6).sum(-2) + delta * torch.as_tensor(b, dtype=f64)) / den
    alpha = 1 - (1 - prob).prod(-1)
    want = torch.cat([rgb, alpha[..., None]], -1)
    tag = "softmax_rgb_blend sigma %s gamma %s near/far %s background %s K=%d" % (sigma, gamma, kw, b, K)
    # rounding of z amplified by 1/gamma
    tol = 3e-6 / gamma * 0.3 + 1e-5
    expect_close(tag, got, want, atol=min(tol, 2e-2), rtol=1e-4)
    expect(bool(((got[..., 3] >= 0) & (got[..., 3] <= 1)).all()), tag + ": opacity outside [0, 1]")
    w = upstream(want.shape)
    g = torch.autograd.grad((got * w.float()).sum(), (d, z, c))
    r = torch.autograd.grad((want * w).sum(), (d6, z6, c6))
    expect_close(tag + ": gradient of the distances", g[0] * sigma, r[0] * sigma, atol=min(5e-5 + tol, 2e-2), rtol=5e-3)
    if gamma > 1e-3:
        expect_close(tag + ": gradient of the depths", g[1], r[1], atol=2e-3 + tol, rtol=1e-2)
    expect_close(tag + ": gradient of the colours", g[2], r[2], atol=min(5e-5 + tol, 2e-2), rtol=5e-3)
    rec.step(2 * alpha.numel())
    rec.state([case, alpha])


# ------------------------------------------------------------------ point renderer
def run_renderer(case, rec):
    i = case[1]
    comp = [AlphaCompositor, NormWeightedCompositor][i % 2]
    bg = [None, (0.1, 0.2, 0.3), torch.tensor([0.5, 0.25, 1.0])][(i // 2) % 3]
    n = [[4], [3, 5], [6, 0], [1, 2, 3]][i // 6]
    r, K = [0.45, 0.9, 0.3][i % 3], [3, 1, 5][(i // 3) % 3]
    g = torch.arange(sum(n) * 6, dtype=f64)
    v = ((g * 0.754877666) % 1).reshape(-1, 6).float()
    pts = torch.cat([v[:, :2] * 2 - 1, v[:, 2:3] + 1], 1)
    pcl = Pointclouds(list(pts.split(n)), features=list(v[:, 3:].split(n)))
    cam = FoVOrthographicCameras(znear=0.01)
    rs = PointsRasterizer(cameras=cam, raster_settings=PointsRasterizationSettings(image_size=(6, 9), radius=r, points_per_pixel=K))
    img = PointsRenderer(rs, comp(background_color=bg))(pcl)
    frag = rs(pcl)
    idx = frag.idx.long().permute(0, 3, 1, 2)
    al = 1 - frag.dists.double().permute(0, 3, 1, 2) / (r * r)
    expect(bool(((al[idx >= 0] >= -1e-5) & (al[idx >= 0] <= 1 + 1e-5)).all()), "point weights outside [0, 1]")
    want = comp_ref("alpha" if i % 2 == 0 else "norm", idx, al, v[:, 3:].double().t())
    if bg is not None:
        want = torch.where((idx[:, :1] < 0).expand_as(want), torch.as_tensor(bg).double()[None, :, None, None].expand_as(want), want)
    expect_close("PointsRenderer scene %d" % i, img, want.permute(0, 2, 3, 1), atol=2e-5)
    expect(bool((idx >= 0).any()), "harness: empty picture")
    rec.step(img[..., 0].numel())
    rec.state([case, img])
