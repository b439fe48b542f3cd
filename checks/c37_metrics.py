"""C37: rendering losses and evaluation metrics on every small image, mask pattern and ray bundle, against their definitions written out pixel by pixel."""
import itertools
import math
import warnings

import torch
from mc.core import Violation, expect, expect_close, expect_raises

from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.evaluation.evaluate_new_view_synthesis import aggregate_nvs_results, average_per_batch_results, eval_batch, summarize_nvs_eval_results
from pytorch3d.implicitron.models.base_model import ImplicitronRender
from pytorch3d.implicitron.models.metrics import ViewMetrics
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle, RendererOutput
from pytorch3d.implicitron.models.utils import preprocess_input, weighted_sum_losses
from pytorch3d.implicitron.tools import metric_utils as mu
from pytorch3d.implicitron.tools.config import expand_args_fields
from pytorch3d.implicitron.tools.image_utils import mask_background
from pytorch3d.renderer import PerspectiveCameras

PROPERTY = "C37"
ASSUMPTIONS = [
    "masks are 0 or 1 (foreground probabilities may be fractional where they are thresholded); constants (huber scaling, clamps, the 5 pixel border of the depth evaluation) are part of the definition as documented in the code",
    "rgb_l1 adds the absolute errors of the channels of a pixel; the network of LPIPS is replaced by a simple function of both images (no weights offline)",
]
BOUNDS = {
    "quick": "errors, IoU, cross entropy (all option combinations, gradients finite), depth errors: 2 images of 2 x 2 pixels with every pair of masks of 4 pixels, 1 and 3 channels; "
             "view metrics: bundles of 1..3 cameras as grid, ray lists and packed with every subset of cameras and counts 1..3, every subset of the optional ground truths, 0..2 previous stages; "
             "evaluation of 12 x 13 images: every presence of optional fields x 3 backgrounds x 2 render sizes x mask patterns; summaries: every assignment of 4 batches to 2 splits x 3 sizes; the evaluator: up to 2 batches of 3 sizes x every presence of optional fields",
    "thorough": "as quick with 2 x 3 images, 5 batches",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 4
f64 = torch.float64
expand_args_fields(ViewMetrics)


def quiet(fn, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn(*a, **k)


def near(what, got, want, atol=1e-5, rtol=1e-5):
    got = float(got)
    if not (abs(got - want) <= atol + rtol * abs(want)):
        raise Violation("%s: %s, not %s" % (what, got, want))


def ramp(*shape, off=0.0, lo=0.0, hi=1.0):
    n = math.prod(shape)
    t = ((torch.arange(n, dtype=f64) * 0.61803 + off * 0.377) % 1.0)
    return (lo + (hi - lo) * t).reshape(shape)


# ------------------------------------------------------------------ references: x[b][c][p], m[b][p]
def flat(x):
    return x.reshape(x.shape[0], x.shape[1], -1).tolist()


def r_mse(x, y, m):
    num = den = 0.0
    for b in range(len(x)):
        for c in range(len(x[0])):
            for p in range(len(x[0][0])):
                w = 1.0 if m is None else m[b][0][p]
                num += w * (x[b][c][p] - y[b][c][p]) ** 2
                den += w
    return num / max(den, 1e-5)


def r_psnr(x, y, m):
    return -10.0 * math.log10(max(r_mse(x, y, m), 1e-10))


def r_l1(x, y, m):
    out = []
    for b in range(len(x)):
        P = range(len(x[0][0]))
        w = [1.0 if m is None else m[b][0][p] for p in P]
        out.append(sum(w[p] * abs(x[b][c][p] - y[b][c][p]) for p in P for c in range(len(x[0]))) / max(sum(w), 1.0))
    return out


def r_iou(x, y, m):
    t = 0.0
    for b in range(len(x)):
        i = u = 0.0
        for c in range(len(x[0])):
            for p in range(len(x[0][0])):
                w = 1.0 if m is None else m[b][0][p]
                a, g = x[b][c][p] * w, y[b][c][p] * w
                i += a * g
                u += a + g - a * g
        t += i / (u + 1e-4)
    return t / len(x)


def r_bce(p, g, m, equal, eps, lerp):
    pts = [(p[b][0][i], g[b][0][i], 1.0 if m is None else m[b][0][i]) for b in range(len(p)) for i in range(len(p[0][0]))]
    fg = sum(w for _, t, w in pts if t > 0.5)
    bg = sum(w for _, t, w in pts if t <= 0.5)
    if equal:
        wt = [w / max(fg, 1.0) if t > 0.5 else w / max(bg, 1.0) for _, t, w in pts]
        scale = len(pts) / max(sum(wt), 1.0)
        wt = [w * scale for w in wt]
    else:
        wt = [w for _, _, w in pts]

    def lg(x):
        if lerp is not None:
            return math.log(x) if x >= lerp else math.log(lerp) + (x - lerp) / lerp
        return max(math.log(x), -100.0) if x > 0 else -100.0

    tot = 0.0
    for (q, t, _), w in zip(pts, wt):
        if eps > 0:
            q = min(max(q, eps), 1 - eps)
        l = 0.0
        if t > 0 or lerp is not None:
            l -= t * lg(q)
        if t < 1 or lerp is not None:
            l -= (1 - t) * lg(1 - q)
        tot += w * l
    return tot / (max(sum(wt), 1e-4) if lerp is not None else len(pts))


def r_scale(p, g, d, thr):
    n = len(p)
    return sum(a * b * k for a, b, k in zip(p, g, d)) / n / max(sum(a * a * k for a, k in zip(p, d)) / n, thr)


def r_depth(p, g, m, scale, disp, thr=1e-4, mthr=0.5, deps=1e-4):
    """One image: lists over its pixels."""
    if m is not None:
        g = [a if w > mthr else 0.0 for a, w in zip(g, m)]
    d = [1.0 if a > 0 else 0.0 for a in g]
    if scale:
        s = r_scale(p, g, d, thr)
        p = [a * s for a in p]
    if disp:
        g, p = [1 / (a + deps) for a in g], [1 / (a + deps) for a in p]
        s = r_scale(p, g, d, thr)
        p = [a * s for a in p]
    n = max(sum(d), 1e-4)
    return sum(k * (a - b) ** 2 for a, b, k in zip(p, g, d)) / n, sum(k * abs(a - b) for a, b, k in zip(p, g, d)) / n


# ------------------------------------------------------------------ functions of metric_utils
def run_basic(c, rec):
    H, W = c["size"]
    P = H * W
    pats = list(itertools.product((0.0, 1.0), repeat=P))
    for C in (1, 3):
        x, y = ramp(2, C, H, W), ramp(2, C, H, W, off=1.3)
        X, Y = flat(x), flat(y)
        for m0 in pats[c["part"]::c["parts"]]:
            for m1 in pats:
                m = torch.tensor([m0, m1], dtype=f64).reshape(2, 1, H, W)
                M = flat(m)
                what = "masks %s %s, %d channels" % (m0, m1, C)
                for dt in (torch.float32, torch.bool):
                    md = m.to(dt)
                    near("calc_mse " + what, mu.calc_mse(x.float(), y.float(), mask=md), r_mse(X, Y, M))
                    near("calc_psnr " + what, mu.calc_psnr(x.float(), y.float(), mask=md), r_psnr(X, Y, M), 1e-3)
                    for b, w in enumerate(r_l1(X, Y, M)):
                        near("rgb_l1 " + what, mu.rgb_l1(x.float(), y.float(), mask=md)[b], w)
                    near("iou " + what, mu.iou(x.float(), y.float(), mask=md), r_iou(X, Y, M))
                    near("neg_iou_loss " + what, mu.neg_iou_loss(x.float(), y.float(), mask=md), 1 - r_iou(X, Y, M))
                    rec.step(5)
                rec.state((C, m0, m1))
        near("calc_mse without mask", mu.calc_mse(x, y), r_mse(X, Y, None))
        near("calc_psnr without mask", mu.calc_psnr(x, y), r_psnr(X, Y, None))
        near("calc_psnr of equal images", mu.calc_psnr(x, x), 100.0)
        near("iou without mask", mu.iou(x, y), r_iou(X, Y, None))
        for b, w in enumerate(r_l1(X, Y, None)):
            near("rgb_l1 without mask", mu.rgb_l1(x, y)[b], w)
    for v in (0.0, 1e-6, 0.001, 0.2, 3.0):
        for s in (0.03, 0.5):
            near("huber of %s" % v, mu.huber(torch.tensor(v, dtype=f64), scaling=s), (math.sqrt(1 + v / s / s + 1e-4) - 1) * s)
        near("safe_sqrt of %s" % v, mu.safe_sqrt(torch.tensor(v, dtype=f64)), math.sqrt(v + 1e-4))
    near("safe_sqrt of -1", mu.safe_sqrt(torch.tensor(-1.0, dtype=f64)), 1e-2)
    t = torch.zeros(1, dtype=f64, requires_grad=True)
    mu.safe_sqrt(t).sum().backward()
    expect(torch.isfinite(t.grad).all(), "gradient of safe_sqrt at 0")
    for cap in (0.1, 0.5):
        p = ramp(2, 1, H, W)
        q = p.reshape(-1).tolist()
        near("beta_prior", mu.beta_prior(p, cap=cap), sum(math.log(a + cap) + math.log(1 - a + cap) for a in q) / len(q) - math.log(cap) - math.log(cap + 1))
    expect_raises(lambda: mu.beta_prior(p, cap=0.0), "beta_prior without cap", (ValueError,))
    rec.trace()


def run_bce(c, rec):
    H, W = c["size"]
    P = H * W
    pats = list(itertools.product((0.0, 1.0), repeat=P))
    preds = [[0.02, 0.3, 0.7, 0.96, 0.5, 0.11, 0.62, 0.85, 0.4, 0.27, 0.77, 0.08], [0.0, 1.0, 0.004, 0.995, 0.3, 0.0, 1.0, 0.6, 0.2, 0.9, 0.1, 0.5]]
    for pl, g0, m0 in itertools.product(preds, pats[c["part"]::c["parts"]], pats):
        p = torch.tensor(pl[: 2 * P], dtype=f64).reshape(2, 1, H, W)
        g = torch.tensor([g0, g0[::-1]], dtype=f64).reshape(2, 1, H, W)
        m = torch.tensor([m0, m0[1:] + m0[:1]], dtype=f64).reshape(2, 1, H, W)
        for equal, eps, lerp, logit, masked in itertools.product((True, False), (0.01, 0.0), (None, 0.05), (False, True), (True, False)):
            if masked and not equal and lerp is None:
                continue  # the mean over all pixels: not specified whether the masked ones count
            if logit and eps == 0.0 and pl is preds[1]:
                continue  # infinite logits
            q = p.clone()
            if logit:
                q = torch.where(q <= 0, torch.tensor(-30.0, dtype=f64), torch.where(q >= 1, torch.tensor(30.0, dtype=f64), torch.logit(q.clamp(1e-9, 1 - 1e-9))))
            q.requires_grad_(True)
            got = mu.calc_bce(q, g, equal_w=equal, pred_eps=eps, mask=m if masked else None, lerp_bound=lerp, pred_logits=logit)
            want = r_bce(flat(p), flat(g), flat(m) if masked else None, equal, eps, lerp)
            what = "calc_bce pred %s gt %s mask %s equal_w=%s pred_eps=%s lerp_bound=%s pred_logits=%s" % (pl[: 2 * P], g0, m0 if masked else None, equal, eps, lerp, logit)
            near(what, got, want, 1e-6, 1e-6)
            got.backward()
            expect(bool(torch.isfinite(q.grad).all()), what + ": gradient %s" % q.grad.reshape(-1).tolist())
            rec.step()
            rec.state((equal, eps, lerp, logit, masked, g0, m0, pl is preds[0]))
    for b in (0.05, 0.5):
        for v in (0.0, 0.01, 0.05, 0.3, 0.5, 1.0):
            t = torch.tensor(v, dtype=f64, requires_grad=True)
            r = mu.log_lerp(t, b)
            near("log_lerp(%s, %s)" % (v, b), r, math.log(v) if v >= b else math.log(b) + (v - b) / b)
            r.backward()
            near("gradient of log_lerp(%s, %s)" % (v, b), t.grad, 1 / max(v, b))
    rec.trace()


def run_depth(c, rec):
    H, W = c["size"]
    P = H * W
    pats = list(itertools.product((0.0, 1.0), repeat=P))
    for zg in pats[c["part"]::c["parts"]]:
        g = ramp(2, 1, H, W, off=0.7, lo=0.5, hi=4.0) * torch.tensor([zg, zg[::-1]], dtype=f64).reshape(2, 1, H, W)
        for m0, pz in itertools.product(pats, (0, 1)):
            p = ramp(2, 1, H, W, off=2.1, lo=0.4, hi=3.0)
            if pz:
                p[0, 0, 0, 0] = 0.0
            m = torch.tensor([m0, m0[1:] + m0[:1]], dtype=f64).reshape(2, 1, H, W)
            for crop, masked, scale, disp in itertools.product((0, 1), (True, False), (True, False), (False, True)):
                if pz and disp and not scale and False:
                    continue
                G, Pd, M = g, p, m
                if crop:
                    # a border of one pixel, holding what must not count
                    G, Pd, M = (torch.nn.functional.pad(t, (1, 1, 1, 1), value=v) for t, v in ((g, 9.0), (p, 5.0), (m, 1.0)))
                got = mu.eval_depth(Pd, G, crop=crop, mask=M if masked else None, get_best_scale=scale, use_disparity=disp)
                for b in range(2):
                    w = r_depth(flat(p)[b][0], flat(g)[b][0], flat(m)[b][0] if masked else None, scale, disp)
                    for k, n in enumerate(("squared", "absolute")):
                        near("eval_depth %s gt zero pattern %s mask %s crop=%d scale=%s disparity=%s image %d" % (n, zg, m0 if masked else None, crop, scale, disp, b), got[k][b], w[k], 1e-5, 1e-4)
                rec.step()
                rec.state((zg, m0, pz, crop, masked, scale, disp))
    rec.trace()


# ------------------------------------------------------------------ view metrics
def lookup(fm, x, y, mode):
    """fm (C, H, W) lists at NDC (x, y)."""
    H, W = len(fm[0]), len(fm[0][0])
    s = min(H, W)
    c, r = (W - x * s) / 2 - 0.5, (H - y * s) / 2 - 0.5
    at = lambda k, i, j: fm[k][i][j] if 0 <= i < H and 0 <= j < W else 0.0
    if mode == "nearest":
        return [at(k, int(math.floor(r + 0.5)), int(math.floor(c + 0.5))) for k in range(len(fm))]
    j, i = math.floor(c), math.floor(r)
    a, b = c - j, r - i
    return [(at(k, i, j) * (1 - a) + at(k, i, j + 1) * a) * (1 - b) + (at(k, i + 1, j) * (1 - a) + at(k, i + 1, j + 1) * a) * b for k in range(len(fm))]


POS = [(-0.62, 0.41), (0.13, -0.37), (0.71, 0.77), (0.38, 0.05), (-0.21, -0.83), (0.9, -0.55)]


def r_view(pred, gt, prefix):
    """pred: features/masks/depths as list over images of list over rays of lists; gt likewise (sampled) or None."""
    out = {}
    N = len(next(v for v in pred.values() if v is not None))
    T = lambda rows: [[[r[c] for r in img] for c in range(len(img[0]))] for img in rows]  # -> b c p
    X, Mp, D = (None if pred[k] is None else T(pred[k]) for k in ("features", "masks", "depths"))
    any_ = X or D
    img, fg, dm, mc = (None if gt[k] is None else T(gt[k]) for k in ("image_rgb", "fg_probability", "depth_map", "mask_crop"))
    if mc is None and any_ is not None:
        mc = [[[1.0] * len(b[0])] for b in any_]
    if img is not None and X is not None:
        crop = max(sum(sum(b[0]) for b in mc), 1.0)
        sq = [[sum((X[b][c][p] - img[b][c][p]) ** 2 for c in range(3)) / 3 for p in range(len(X[b][0]))] for b in range(N)]
        ab = [[sum(abs(X[b][c][p] - img[b][c][p]) for c in range(3)) / 3 for p in range(len(X[b][0]))] for b in range(N)]
        hub = [[(math.sqrt(1 + v / 0.0009 + 1e-4) - 1) * 0.03 for v in r] for r in sq]
        red = lambda v, w: sum(a * k for r, q in zip(v, w) for a, k in zip(r, q[0]))
        psnr = lambda w: -10 * math.log10(max(red(sq, w) / max(sum(sum(q[0]) for q in w), 1e-5), 1e-10))
        out.update(rgb_huber=red(hub, mc) / crop, rgb_l1=red(ab, mc) / crop, rgb_mse=red(sq, mc) / crop, rgb_psnr=psnr(mc))
        if fg is not None:
            mf = [[[a * b for a, b in zip(q[0], f[0])]] for q, f in zip(mc, fg)]
            out["rgb_psnr_fg"] = psnr(mf)
            out["rgb_mse_fg"] = red(sq, mf) / max(sum(sum(q[0]) for q in mf), 1.0)
    if Mp is not None:
        q = [a for b in Mp for a in b[0]]
        out["mask_beta_prior"] = sum(math.log(a + 0.1) + math.log(1.1 - a) for a in q) / len(q) - math.log(0.1) - math.log(1.1)
        if fg is not None:
            out["mask_neg_iou"] = 1 - sum(r_iou([Mp[b]], [fg[b]], [mc[b]] if mc else None) for b in range(N)) / N
            one = lambda v: [[[a for b in v for a in b[0]]]]
            out["mask_bce"] = r_bce(one(Mp), one(fg), one(mc) if mc else None, True, 0.01, None)
    if dm is not None and D is not None:
        out["depth_abs"] = sum(r_depth(D[b][0], dm[b][0], mc[b][0], True, False)[1] for b in range(N)) / N
        if fg is not None:
            out["depth_abs_fg"] = sum(r_depth(D[b][0], dm[b][0], [x * y for x, y in zip(mc[b][0], fg[b][0])], True, False)[1] for b in range(N)) / N
    if D is not None:
        q = [a for b in D for a in b[0]]
        out["depth_neg_penalty"] = sum(min(a, 0.0) ** 2 for a in q) / len(q)
    return {prefix + k: v for k, v in out.items()}


def run_view(c, rec):
    lay, ncam = c["layout"], c["cams"]
    H, W = c["res"]
    imgs = {"image_rgb": ramp(ncam, 3, H, W), "fg_probability": (ramp(ncam, 1, H, W, off=0.3) > 0.45).to(f64),
            "depth_map": ramp(ncam, 1, H, W, off=1.9, lo=0.5, hi=3.0) * (ramp(ncam, 1, H, W, off=2.3) > 0.2), "mask_crop": (ramp(ncam, 1, H, W, off=3.1) > 0.25).to(f64)}
    L = {k: v.tolist() for k, v in imgs.items()}
    if lay == "packed":
        ids, counts = c["ids"], c["counts"]
        rays = [(i, j) for i, n in zip(ids, counts) for j in range(n)]
        xys = torch.tensor([[[POS[(j + i) % 6]]] for i, j in rays], dtype=f64)  # (n, 1, 1, 2)
        groups = [(i, [POS[(j + i) % 6] for j in range(n)]) for i, n in zip(ids, counts)]
        shape = (len(rays), 1, 1)
        extra = {"camera_ids": torch.tensor(ids), "camera_counts": torch.tensor(counts)}
    else:
        shape = (ncam,) + {"grid": (2, 3), "list": (5,), "column": (5, 1)}[lay]
        n = math.prod(shape[1:])
        xys = torch.tensor([[POS[(j + i) % 6] for j in range(n)] for i in range(ncam)], dtype=f64).reshape(*shape, 2)
        groups = [(i, [POS[(j + i) % 6] for j in range(n)]) for i in range(ncam)]
        extra = {}
    bundle = ImplicitronRayBundle(origins=torch.zeros(*shape, 3), directions=torch.ones(*shape, 3), lengths=torch.ones(*shape, 2), xys=xys.float(), **extra)
    vm = ViewMetrics()

    def stage(off, have):
        t = {"features": ramp(*shape, 3, off=off), "masks": ramp(*shape, 1, off=off + 0.4, lo=0.02, hi=0.98), "depths": ramp(*shape, 1, off=off + 0.9, lo=-0.4, hi=3.0)}
        return {k: (v if k in have else None) for k, v in t.items()}

    def grouped(t):
        if t is None:
            return None
        rows = t.reshape(-1, t.shape[-1]).tolist()
        out, k = [], 0
        for _, g in groups:
            out.append(rows[k : k + len(g)])
            k += len(g)
        return out

    modes = {"image_rgb": "bilinear", "fg_probability": "nearest", "depth_map": "nearest", "mask_crop": "nearest"}
    sampled = {k: [[lookup(L[k][i], x, y, modes[k]) for x, y in g] for i, g in groups] for k in L}
    allk = ("features", "masks", "depths")
    for sub in itertools.chain(*[itertools.combinations(list(imgs), n) for n in range(5)]):
        for have in (allk, ("features",), ("masks", "depths"), ("depths",), ("features", "masks")):
            for nst in (0, 1, 2) if have == allk else (0,):
                sts = [stage(0.7 * k, have) for k in range(nst + 1)]
                ro = None
                for s in reversed(sts):
                    ro = RendererOutput(prev_stage=ro, **{k: None if v is None else v.float() for k, v in s.items()})
                for prefix in ("loss_", "", None) if nst == 0 else ("m_",):
                    got = vm(raymarched=ro, ray_bundle=bundle, keys_prefix=prefix, **{k: v.float() for k, v in imgs.items() if k in sub})
                    want = {}
                    for k, s in enumerate(sts):
                        want.update(r_view({q: grouped(v) for q, v in s.items()}, {q: sampled[q] if q in sub else None for q in imgs}, (prefix or "") + "prev_stage_" * k))
                    what = "%s cameras=%s ids=%s counts=%s given=%s predicted=%s" % (lay, ncam, c.get("ids"), c.get("counts"), sub, have)
                    expect(set(got) == set(want), "%s: metrics %s, not %s" % (what, sorted(got), sorted(want)))
                    for k in want:
                        expect(got[k].ndim == 0, "%s: %s is not a number" % (what, k))
                        near("%s: %s" % (what, k), got[k], want[k], 1e-4 if "psnr" not in k else 1e-3, 2e-4)
                    rec.step()
                rec.state((lay, ncam, c.get("ids"), c.get("counts"), sub, have, nst))
    # regularisers in aux
    for gs in ((4, 3), (2, 3, 3), (1, 2, 2, 3)):
        g = ramp(*gs, off=0.2, lo=-2.0, hi=2.0)
        ro = RendererOutput(features=None, masks=None, depths=torch.ones(*shape, 1), aux={"grad_theta": g.float()})
        rows = g.reshape(-1, 3).tolist()
        near("eikonal of gradients %s" % (gs,), vm(raymarched=ro, ray_bundle=bundle)["loss_eikonal"], sum((math.sqrt(sum(a * a for a in r)) - 1) ** 2 for r in rows) / len(rows))
    for gs in ((1, 2, 2, 2, 1), (2, 2, 3, 4, 1)):
        g = ramp(*gs, off=0.6, lo=0.0, hi=2.0)
        ro = RendererOutput(features=None, masks=None, depths=torch.ones(*shape, 1), aux={"density_grid": g.float()})
        l = (g[..., 0] + 1e-5).log()
        acc = []
        for b, i, j, k in itertools.product(range(gs[0]), range(gs[1] - 1), range(gs[2] - 1), range(gs[3] - 1)):
            o = float(l[b, i, j, k])
            acc.append(math.sqrt((float(l[b, i + 1, j, k]) - o) ** 2 + (float(l[b, i, j + 1, k]) - o) ** 2 + (float(l[b, i, j, k + 1]) - o) ** 2 + 1e-5))
        near("density_tv of a grid %s" % (gs,), vm(raymarched=ro, ray_bundle=bundle)["loss_density_tv"], sum(acc) / len(acc), 1e-3, 1e-3)
    rec.trace()


# ------------------------------------------------------------------ evaluation
def run_eval(c, rec):
    H, W, B = 12, 13, c["batch"]
    rgb = ramp(B, 3, H, W)
    pat = c["pattern"]
    yy, xx = torch.meshgrid(torch.arange(H), torch.arange(W), indexing="ij")
    shapes = {"all": torch.ones(H, W), "none": torch.zeros(H, W), "left": (xx < 7).double(), "checker": ((xx + yy) % 2).double()}
    prob = torch.stack([shapes[pat]] * B)[:, None].to(f64) * 0.45 + ramp(B, 1, H, W, off=1.7) * 0.1 + 0.02  # threshold 0.5 separates nothing exactly: 0.02..0.12 / 0.47..0.57
    depth = ramp(B, 1, H, W, off=0.9, lo=0.5, hi=3.0)
    dmask = (ramp(B, 1, H, W, off=2.9) > 0.3).to(f64)
    crop = (ramp(B, 1, H, W, off=4.1) > 0.2).to(f64)
    k = c["scale"]
    rs = {"image_render": ramp(B, 3, H // k, W if k == 1 else W, off=5.0, lo=-0.3, hi=1.3), "mask_render": ramp(B, 1, H // k, W, off=6.0), "depth_render": ramp(B, 1, H // k, W, off=7.0, lo=0.3, hi=2.5)}
    up = {}
    for n, t in rs.items():
        if k == 1:
            up[n] = t[:1]
        elif n == "image_render":
            # bilinear along the rows: pixel r of the large image is at (r + 0.5) / k - 0.5
            o = torch.zeros(1, 3, H, W, dtype=f64)
            for r in range(H):
                s = max((r + 0.5) / k - 0.5, 0.0)
                i = int(math.floor(s))
                j = min(i + 1, H // k - 1)
                o[0, :, r] = t[0, :, i] * (1 - (s - i)) + t[0, :, j] * (s - i)
            up[n] = o
        else:
            up[n] = torch.stack([t[:1, :, r // k] for r in range(H)], 2)
    cam = PerspectiveCameras(R=torch.eye(3)[None].repeat(B, 1, 1), T=torch.zeros(B, 3))
    types = ["test_unseen"] + ["test_known"] * (B - 1)
    for opt in itertools.chain(*[itertools.combinations(("depth_map", "depth_mask", "fg_probability", "mask_crop"), n) for n in range(5)]):
        for bg, thr in (("black", 0.5), ("white", 0.5), ((0.2, 0.7, 0.4), 0.5), (0.3, 0.05)):
            have = {n: t.float() for n, t in (("depth_map", depth), ("depth_mask", dmask), ("fg_probability", prob), ("mask_crop", crop)) if n in opt}
            fd = FrameData(frame_number=torch.arange(B), sequence_name=["s"] * B, sequence_category=["c"] * B, frame_timestamp=torch.zeros(B),
                           camera=cam, image_rgb=rgb.float(), frame_type=list(types), **have)
            keep = {n: t.clone() for n, t in have.items()}
            render = ImplicitronRender(**{n: t.float() for n, t in rs.items()})
            keepr = {n: t.float().clone() for n, t in rs.items()}
            got = quiet(eval_batch, fd, render, bg_color=bg, mask_thr=thr)
            for n, t in keep.items():
                expect(torch.equal(getattr(fd, n), t), "eval_batch changed %s of its input" % n)
            for n, t in keepr.items():
                expect(torch.equal(getattr(render, n), t), "eval_batch changed %s of its input" % n)
            fg = (prob[0, 0] >= thr).to(f64) if "fg_probability" in opt else torch.ones(H, W, dtype=f64)
            mc = crop[0, 0] if "mask_crop" in opt else torch.ones(H, W, dtype=f64)
            col = {"black": (0, 0, 0), "white": (1, 1, 1)}.get(bg, bg) if not isinstance(bg, float) else (bg,) * 3
            masked = rgb[0] * fg + (1 - fg) * torch.tensor(col, dtype=f64)[:, None, None]
            X, Y, Z = flat(up["image_render"].clamp(0, 1)), flat(masked[None]), flat(rgb[:1])
            m1, m2 = flat(mc[None, None]), flat((mc * fg)[None, None])
            want = {"iou": r_iou(flat(up["mask_render"]), flat(fg[None, None]), m1), "psnr_masked": r_psnr(X, Y, m1), "rgb_l1_masked": r_l1(X, Y, m1)[0],
                    "psnr_fg": r_psnr(X, Y, m2), "rgb_l1_fg": r_l1(X, Y, m2)[0], "psnr_full_image": r_psnr(X, Z, m1), "rgb_l1_full_image": r_l1(X, Z, m1)[0]}
            if "depth_map" in opt:
                g = depth[0, 0] * (dmask[0, 0] if "depth_mask" in opt else 1.0)
                cut = lambda t: t[5:-5, 5:-5].reshape(-1).tolist()
                want["depth_abs_fg"] = r_depth(cut(up["depth_render"][0, 0]), cut(g), cut(mc * fg), True, False)[1]
            what = "eval_batch pattern=%s given=%s background=%s threshold=%s render 1/%d" % (pat, opt, bg, thr, k)
            meta = got.pop("meta")
            expect(meta == {"batch_size": B, "frame_type": "test_unseen"}, what + ": meta %s" % meta)
            expect(set(got) == set(want), what + ": metrics %s" % sorted(got))
            for n in want:
                near("%s: %s" % (what, n), got[n], want[n], 1e-4 if "psnr" not in n else 1e-3, 2e-4)
            rec.step()
            rec.state((pat, opt, str(bg), k, B))
    if B > 2:
        fd.frame_type = ["test_unseen", "train_known"] + ["test_known"] * (B - 2)
        expect_raises(lambda: quiet(eval_batch, fd, render), "source views of both splits", (ValueError,))
    for n in ("image_render", "mask_render", "depth_render"):
        fd.frame_type = list(types)
        expect_raises(lambda: quiet(eval_batch, fd, ImplicitronRender(**{q: t.float() for q, t in rs.items() if q != n})), "a missing " + n, (ValueError,))
    rec.trace()


def run_summary(c, rec):
    n = c["n"]
    for sets in itertools.product(("train_known", "test_unseen"), repeat=n):
        for sizes in itertools.product((2, 4, 3), repeat=n):
            per = [{"psnr": float(3 ** i), "iou": 0.5 - 0.1 * i, "meta": {"batch_size": s, "frame_type": t}} for i, (t, s) in enumerate(zip(sets, sizes))]
            mean = lambda idx, k: sum(per[i][k] for i in idx) / len(idx) if idx else float("nan")
            for multi in (False, True):
                flat_, aux = summarize_nvs_eval_results(per, multi)
                want = {}
                for S in ("train", "test") if multi else ("test",):
                    ok = [i for i in range(n) if not multi or sets[i].startswith(S)]
                    for k in ("psnr", "iou"):
                        want["%s|subset=%s|diff=all" % (k, S)] = mean(ok, k)
                        if multi:
                            for v in (1, 3, 5, 7, 9):
                                want["%s|subset=%s|n_src=%d" % (k, S, v)] = mean([i for i in ok if sizes[i] == v + 1], k)
                same = lambda a, b: (math.isnan(a) and math.isnan(b)) or abs(a - b) < 1e-9
                expect(set(flat_) == set(want), "summary keys %s" % sorted(flat_))
                for k in want:
                    expect(same(flat_[k], want[k]), "summary of %s %s multi=%s: %s is %s, not %s" % (sets, sizes, multi, k, flat_[k], want[k]))
                # the results of several tasks are averaged, undefined ones left out
                other = [{"subset": r["subset"], "subsubset": r["subsubset"], "metrics": {k: 2.0 for k in r["metrics"]}} for r in aux["results"]]
                agg = quiet(aggregate_nvs_results, [aux["results"], other])
                expect(len(agg) == len(aux["results"]), "aggregate of %d results" % len(agg))
                for r in agg:
                    for k, v in r["metrics"].items():
                        a = want["%s|subset=%s|%s" % (k, r["subset"], r["subsubset"])]
                        w = 2.0 if math.isnan(a) else (a + 2.0) / 2
                        expect(same(v, w), "aggregate: %s is %s, not %s" % (k, v, w))
                rec.step()
            for idx in (None, [], [n - 1], [0, n - 1]):
                got = average_per_batch_results(per, None if idx is None else torch.tensor(idx, dtype=torch.long))
                for k in ("psnr", "iou"):
                    w = mean(range(n) if idx is None else idx, k)
                    expect((math.isnan(got[k]) and math.isnan(w)) or abs(got[k] - w) < 1e-9, "average over %s" % idx)
            rec.state((sets, sizes))
    rec.trace()


def run_evaluator(c, rec):
    """the evaluator: what the model is shown, and what is summed up and written"""
    import json
    import os
    import tempfile

    from pytorch3d.implicitron.evaluation.evaluator import ImplicitronEvaluator
    from pytorch3d.implicitron.models.generic_model import EvaluationMode

    expand_args_fields(ImplicitronEvaluator)
    H, W = 12, 13

    class Lpips(torch.nn.Module):  # the networks of the lpips library need weights from the internet
        def __init__(self, net="vgg"):
            super().__init__()

        def forward(self, a, b):
            return (a - b).abs().mean() + 0.01 * (a + b).mean()

    try:
        import lpips as library

        perceptual = Lpips()
    except ImportError:
        library = perceptual = None
    fields = ("image_rgb", "depth_map", "fg_probability", "mask_crop")
    rest = {"depth_mask": (1, 0.2)}

    def frame(B, opt, k, split):
        chan = {"image_rgb": 3}
        t = {n: ramp(B, chan.get(n, 1), H, W, off=1.3 * i + k, lo=0.1).float() for i, n in enumerate(fields + tuple(rest)) if n in opt or n == "image_rgb"}
        for n in ("fg_probability", "mask_crop", "depth_mask"):
            if n in t:
                t[n] = (t[n] > 0.3).float()
        return FrameData(frame_number=torch.arange(B), sequence_name=["s"] * B, sequence_category=["c"] * B, frame_timestamp=torch.zeros(B),
                         camera=PerspectiveCameras(R=torch.eye(3)[None].repeat(B, 1, 1), T=torch.zeros(B, 3)), frame_type=[split + "_unseen"] + [split + "_known"] * (B - 1), **t)

    class Model(torch.nn.Module):
        def forward(self, **kw):
            log.append((self.training, torch.is_grad_enabled(), kw))
            return {"implicitron_render": renders[len(log) - 1]}

    def evaluate(frames, **kw):
        if library is None:
            return hush(quiet, ev.run, model, frames, torch.device("cpu"), **kw)
        orig, library.LPIPS = library.LPIPS, Lpips
        try:
            return hush(quiet, ev.run, model, frames, torch.device("cpu"), **kw)
        finally:
            library.LPIPS = orig

    opts = list(itertools.chain(*[itertools.combinations(fields[1:] + ("depth_mask",), n) for n in range(5)]))
    for q, opt in enumerate(opts):
        for sizes in itertools.product((1, 2, 4), repeat=c["n"]):
            for multi in (False, True):
                splits = [("train", "test")[(k + q) % 2] for k in range(c["n"])]
                what = "evaluator: batches %s of %s with %s, multisequence %s" % (sizes, splits, opt, multi)
                frames = [frame(B, opt, k, sp) for k, (B, sp) in enumerate(zip(sizes, splits))]
                renders = [ImplicitronRender(image_render=ramp(1, 3, H, W, off=5.0 + k).float(), mask_render=ramp(1, 1, H, W, off=6.0 + k).float(), depth_render=ramp(1, 1, H, W, off=7.0 + k, lo=0.3).float()) for k in range(c["n"])]
                given = [{n: (None if getattr(f, n) is None else getattr(f, n).clone()) for n in fields + tuple(rest)} for f in frames]
                log = []
                model = Model().train()
                ev = ImplicitronEvaluator(is_multisequence=multi)
                with tempfile.TemporaryDirectory(prefix="verif_c37_") as d:
                    epoch = (None, 7)[(q + len(sizes)) % 2]
                    got = evaluate(frames, dump_to_json=True, exp_dir=d, epoch=epoch)
                    dumped = json.load(open(os.path.join(d, "results_test.json")))
                expect(len(log) == c["n"], what + ": batches")
                for (training, grad, kw), f, g in zip(log, frames, given):
                    expect(not training and not grad, what + ": the model is evaluated in training mode or with gradients")
                    expect(kw["evaluation_mode"] == EvaluationMode.EVALUATION, what + ": mode")
                    for n, x in g.items():
                        y = getattr(f, n)
                        expect((x is None) == (y is None) == (kw[n] is None) and (x is None or torch.equal(x, y)), what + ": %s of the data changed" % n)
                        if x is not None and n in fields:
                            expect(float(kw[n][:1].abs().max()) == 0, what + ": the model sees %s of the target" % n)
                            expect(torch.equal(kw[n][1:], x[1:]), what + ": the model does not see %s of the source views" % n)
                    expect(kw["camera"].T.shape == f.camera.T.shape and list(kw["frame_type"]) == list(f.frame_type), what + ": camera or frame type")
                want = summarize_nvs_eval_results([quiet(eval_batch, f, r, lpips_model=perceptual) for f, r in zip(frames, renders)], multi)[1]["results"]
                flat_ = lambda res: {(r["subset"], r["subsubset"], k): v for r in res for k, v in r["metrics"].items()}
                for name, res in (("result", got), ("file", dumped)):
                    a, b = flat_(res), flat_(want)
                    expect(set(a) == set(b) and all(a[k] == b[k] or (math.isnan(a[k]) and math.isnan(b[k])) for k in a), lambda: "%s: %s is %s, not %s" % (what, name, a, b))
                    expect(all(r.get("eval_epoch") == epoch for r in res), what + ": epoch")
                rec.step()
                rec.state((opt, sizes, multi))
    log = []
    expect_raises(lambda: evaluate(frames, dump_to_json=True), "no place for the results", (ValueError,))
    log = []
    expect(flat_(evaluate(frames)).keys() == flat_(want).keys(), "evaluation without a file")
    rec.trace()


def hush(fn, *a, **k):
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        return fn(*a, **k)


def run_util(c, rec):
    rgb, fg, dm = ramp(2, 3, 2, 3), ramp(2, 1, 2, 3, off=0.4), ramp(2, 1, 2, 3, off=0.8, lo=0.5, hi=2.0)
    bgs = [0.0, 0.25, (0.1, 0.2, 0.3), [0.9, 0.5, 0.4], "black", "white", torch.tensor([0.3, 0.6, 0.2], dtype=f64)]
    for bg in bgs:
        col = torch.tensor([0.0] * 3 if bg == "black" else [1.0] * 3 if bg == "white" else [bg] * 3 if isinstance(bg, float) else list(bg), dtype=f64) if not torch.is_tensor(bg) else bg
        for dim in (1, 3):
            for binary in (True, False):
                m = (fg > 0.5) if binary else fg
                x, q = (rgb, m) if dim == 1 else (rgb.permute(0, 2, 3, 1), m.permute(0, 2, 3, 1))
                want = rgb * m.to(f64) + (1 - m.to(f64)) * col[None, :, None, None]
                got = mask_background(x, q, dim_color=dim, bg_color=bg)
                expect_close("mask_background dim_color=%d background %s" % (dim, bg), got, want if dim == 1 else want.permute(0, 2, 3, 1), 1e-6, 1e-6)
                rec.step()
    expect_raises(lambda: mask_background(rgb, fg, bg_color="green"), "an unknown colour name", (ValueError,))
    for hi, hf, hd, mi, md, thr in itertools.product((True, False), (True, False), (True, False), (True, False), (True, False), (0.0, 0.3, 0.7)):
        if md and hf and hd and thr == 0.0:
            continue
        keep = [t.clone() for t in (rgb, fg, dm)]
        gi, gf, gd = quiet(preprocess_input, rgb if hi else None, fg if hf else None, dm if hd else None, mi, md, thr, (0.2, 0.4, 0.6))
        for a, b in zip(keep, (rgb, fg, dm)):
            expect(torch.equal(a, b), "preprocess_input changed its input")
        m = fg if thr == 0 else (fg >= thr).to(f64)
        wi = rgb if not (mi and hf) else rgb * m + (1 - m) * torch.tensor([0.2, 0.4, 0.6], dtype=f64)[None, :, None, None]
        wd = dm if not (md and hf) else dm * m
        what = "preprocess_input %s" % ((hi, hf, hd, mi, md, thr),)
        for g, w, h in ((gi, wi, hi), (gf, m, hf), (gd, wd, hd)):
            expect((g is None) == (not h), what)
            if h:
                expect_close(what, g, w, 1e-6, 1e-6)
        rec.step()
        rec.state((hi, hf, hd, mi, md, thr))
    expect_raises(lambda: preprocess_input(rgb[0], None, None, False, False, 0.5, (0, 0, 0)), "an unbatched image", (ValueError,))
    preds = {"a": torch.tensor(2.0), "b": torch.tensor(-3.0), "c": torch.tensor(float("nan"))}
    for ws in itertools.product((None, 0.0, 0.5, -2.0), repeat=3):
        w = {k: v for k, v in zip(("a", "b", "missing"), ws) if v is not None}
        w["c"] = 0.0  # a weight of zero leaves the loss out, even an undefined one
        got = quiet(weighted_sum_losses, preds, w)
        use = [k for k in ("a", "b") if w.get(k)]
        expect((got is None) == (not use), "weighted_sum_losses %s" % w)
        if use:
            near("weighted_sum_losses %s" % w, got, sum(float(preds[k]) * w[k] for k in use))
        rec.step()
    rec.trace()


RUN = {"basic": run_basic, "bce": run_bce, "depth": run_depth, "view": run_view, "eval": run_eval, "evaluator": run_evaluator, "summary": run_summary, "util": run_util}


def cases(tier):
    deep = tier == "thorough"
    out = [{"kind": "util"}]
    for n in (1, 2, 3) + ((4,) if not deep else (4, 5)):
        out.append({"kind": "summary", "n": n})
    out += [{"kind": "evaluator", "n": n} for n in (1, 2) + ((3,) if deep else ())]
    size, parts = ((2, 3), 16) if deep else ((2, 2), 8)
    for part in range(parts):
        for kind in ("basic", "bce", "depth"):
            out.append({"kind": kind, "size": list(size), "part": part, "parts": parts})
    for res in ((4, 4), (3, 5)) + (((5, 2), (1, 3)) if deep else ()):
        for ncam in (1, 2, 3):
            for lay in ("grid", "list", "column"):
                out.append({"kind": "view", "layout": lay, "cams": ncam, "res": list(res)})
            for r in range(1, ncam + 1):
                for ids in itertools.permutations(range(ncam), r):
                    for counts in itertools.product((1, 2, 3), repeat=r) if r < 3 or deep else ((1, 1, 1), (3, 1, 2), (2, 2, 2), (1, 3, 1)):
                        if res == (3, 5) and not deep and counts[0] == 1:
                            continue
                        out.append({"kind": "view", "layout": "packed", "cams": ncam, "res": list(res), "ids": list(ids), "counts": list(counts)})
    for pat in ("all", "none", "left", "checker"):
        for k in (1, 2):
            for b in (1, 3):
                out.append({"kind": "eval", "pattern": pat, "scale": k, "batch": b})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
