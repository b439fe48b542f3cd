"""C41: pulsar images are the documented composition of the spheres, seen by the camera that was given."""
import itertools
import math

import torch
from mc.core import expect
from mc.core import expect_close as _close

from pytorch3d.renderer import (
    FoVOrthographicCameras,
    FoVPerspectiveCameras,
    OrthographicCameras,
    PerspectiveCameras,
    PointsRasterizationSettings,
    PointsRasterizer,
    PulsarPointsRenderer,
)
from pytorch3d.renderer.points.pulsar import Renderer
from pytorch3d.structures import Pointclouds
from pytorch3d.transforms import axis_angle_to_matrix, matrix_to_rotation_6d

PROPERTY = "C41"
ASSUMPTIONS = [
    "CPU renderer; whole-pixel principal point offsets; no two spheres are equally near; pixels whose ray is within 1e-4 of the rim of a sphere (or of the "
    "pixel-size rule for tiny spheres) are not compared, nor tiny spheres in the outermost pixels",
    "no early termination (percent_allowed_difference 0, no max_n_hits), which trades accuracy for speed by design; a sphere's gradient is averaged over the "
    "pixels it covers, as the implementation does, and camera gradients are compared up to their positive scale",
    "PulsarPointsRenderer: square pixels, cameras in NDC space, radii in world units; FoV cameras with images at least as wide as high",
]
BOUNDS = {
    "quick": "all ordered choices of up to 3 of 10 spheres (in view, cut by the image border, beside the camera, nearer than the near plane, beyond the far plane, "
             "behind, smaller than a pixel) x 2 projections x 2 handednesses x 2 poses x 3 rotation encodings x 4 principal points x 3 image shapes x 2 softness "
             "values x opacities on/off (covering combinations: single spheres under every camera, pairs under every third, triples under every twelfth); gradients of all choices of up to 3 of 5 large spheres under every "
             "camera; crowds of 63..66 and 128..131 spheres, in 4 input orders; 1..5 channels; n_track 1..5; all histories of depth 3 of 6 operations on one renderer; "
             "batches of 1..3; the unified renderer for 4 kinds of cameras x shapes x principal points x 1..3 clouds with 1 or as many cameras",
    "thorough": "all combinations of cameras, softness and encodings with ordered choices of up to 3 spheres; histories of depth 4",
}
BUDGET = {"quick": 300, "thorough": 850}
CHUNK = 1
f64 = torch.float64


def expect_close(got, want, what, **kw):
    _close(what, got, want, **kw)


# ---------------------------------------------------------------- reference (float64)
class FastExp(torch.autograd.Function):
    """2**x with the fraction of the exponent taken linearly, as pulsar's fast exponential; the derivative is that of exp"""

    @staticmethod
    def forward(ctx, p):
        q = (p * 1.442695040).clamp(min=-126.0) + 126.94269504
        k = torch.floor(q)
        out = torch.pow(2.0, k - 127) * (1 + (q - k))
        ctx.save_for_backward(out)
        return out

    @staticmethod
    def backward(ctx, g):
        return g * ctx.saved_tensors[0]


fexp = FastExp.apply


class View:
    """eye and axes of a pulsar camera: x right, y down the rows of the (unflipped) image, z into the scene"""

    def __init__(self, eye, R, focal, width, W, H, pp, ortho, right, zmin=2.0, zmax=10.0, bgd=0.1):
        self.eye = eye
        self.dx, self.dy, self.dz = R[:, 0], -R[:, 1], R[:, 2] * (-1 if right else 1)
        self.focal, self.ps, self.W, self.H, self.pp, self.ortho = focal, width / W, W, H, pp, ortho
        self.zmin, self.zmax, self.bgd = zmin, zmax, bgd

    def weights(self, pos, rad, opy, gamma):
        W, H, ps = self.W, self.H, self.ps
        xs = torch.arange(W, dtype=f64) + self.pp[0] - (W - 1) / 2
        ys = torch.arange(H, dtype=f64) + self.pp[1] - (H - 1) / 2
        c = pos - self.eye
        z = c @ self.dz
        if self.ortho:
            grid = torch.stack([(xs * ps)[None].expand(H, W), (ys * ps)[:, None].expand(H, W)], -1)
            diff = torch.stack([c @ self.dx, c @ self.dy], -1) - grid[:, :, None]
            cw = perp = (diff * diff).sum(-1).clamp(min=1e-30).sqrt()
            along = z.expand_as(cw)
            near, proj = z - rad, rad / ps
            slack = (diff / ps).abs() - 0.5
            center = (slack < 0).all(-1)
            slack = slack.max(-1)[0]
        else:
            ray = self.focal * self.dz + xs[None, :, None] * ps * self.dx + ys[:, None, None] * ps * self.dy
            ray = ray / ray.norm(dim=-1, keepdim=True)
            t = c.norm(dim=-1)
            diff = c - ray[:, :, None] * t[:, None]
            cw = diff.norm(dim=-1)
            along = (ray[:, :, None] * c).sum(-1)
            perp = (t * t - along * along).clamp(min=1e-30).sqrt()
            near, proj = t - rad, rad * self.focal / t / ps
            slack = (cw - ps * 0.75 * t / self.focal) / ps
            center = slack < 0
        vis = (near >= self.zmin) & (near <= self.zmax) & (z > 1e-6)
        hit = vis & ((rad >= cw) | center)
        inner = torch.zeros(H, W, 1, dtype=torch.bool)
        inner[1:-1, 1:-1] = True
        safe = (((cw - rad).abs() > 1e-4) & (slack.abs() > 1e-4) & (inner | ~center | (rad >= cw)) | ~vis).all(-1)
        close = (1 - cw / rad).clamp(0, 1)
        close = torch.where(center & (proj < 1), torch.ones_like(close), close)
        half = torch.where(rad > perp, (rad * rad - perp * perp).clamp(min=1e-12).sqrt(), torch.zeros_like(perp))
        depth = along - half
        s = (1 - (depth - self.zmin) / (self.zmax - self.zmin)) / gamma * opy
        return hit, close, s, depth, near, safe

    def image(self, w, col, opy, bg, gamma):
        hit, close, s, depth, near, safe = w
        H, W, N = hit.shape
        m = torch.full((H, W), self.bgd / gamma, dtype=f64)
        d = torch.ones(H, W, dtype=f64)
        img = bg.expand(H, W, -1).clone().double()
        for i in torch.argsort(near).tolist():
            h = hit[..., i]
            m2 = torch.maximum(m, s[..., i])
            c = close[..., i] * fexp(s[..., i] - m2) * opy[i]
            corr = torch.where(m2 == m, torch.ones_like(m), fexp(m - m2))
            d2 = d * corr + c
            img2 = img * corr[..., None] + c[..., None] * col[i]
            m, d, img = torch.where(h, m2, m), torch.where(h, d2, d), torch.where(h[..., None], img2, img)
        return img / d[..., None], m, d


# ---------------------------------------------------------------- scenes
#            x     y     z    radius  (view space; x right, y up, z into the scene)
SPHERES = [(0.3, -0.2, 4.0, 0.9), (1.4, 0.6, 5.0, 1.3), (-1.1, 0.9, 6.0, 1.1), (0.1, 0.15, 7.5, 2.5),
           (-3.6, -2.4, 5.5, 1.7),                     # cut by the border of the image
           (4.0, -1.2, 1.5, 2.1),                      # reaches beside the camera plane
           (0.2, 0.1, 3.0, 1.2), (0.4, -0.3, 14.0, 1.5),   # nearer than the near plane, beyond the far plane
           (0.13, -0.17, -6.0, 1.0),                   # behind
           (0.21, 0.17, 8.3, 0.02)]                    # smaller than a pixel
FAT = [(0.3, -0.2, 4.5, 1.9), (1.4, 0.6, 5.0, 2.3), (-1.1, 0.9, 6.0, 2.1), (-2.6, -1.4, 5.2, 1.8), (0.2, 2.2, 7.5, 2.6)]
OPY = [0.7, 1.0, 0.5, 0.9, 0.4, 0.6, 0.8, 0.3, 1.0, 0.75]
AXIS = [(0.0, 0.0, 0.0), (0.3, -0.4, 0.2)]
EYE = [(0.0, 0.0, 0.0), (0.2, -0.1, 0.3)]
PPS = [(0, 0), (2, 0), (-3, 1), (0, -2)]
SHAPES = [(9, 7), (6, 8), (5, 5)]
BG = torch.tensor([0.1, 0.2, 0.3, 0.4, 0.5])


def color(n, channels, dtype=torch.float32):
    i = torch.arange(n * channels, dtype=f64).reshape(n, channels)
    return ((i * 0.61803 + 0.2) % 1.0).to(dtype)


def setup(cam):
    """pulsar's parameters and the reference view of a camera description (ortho, right, pose, encoding, pp, shape)"""
    ortho, right, pose, enc, pp, (W, H) = cam
    aa = torch.tensor(AXIS[pose])
    R = axis_angle_to_matrix(aa)
    eye = torch.tensor(EYE[pose])
    f, sw = (0.0, 6.0) if ortho else (1.0, 2.0)
    rot = aa if enc == "aa" else matrix_to_rotation_6d(R)
    first = enc == "first"
    tail = [f, sw] + ([float(x) for x in pp] if tuple(pp) != (0, 0) or pose else [])
    cam_params = torch.cat([R.T @ eye if first else eye, rot, torch.tensor(tail)])
    view = View(eye.double(), axis_angle_to_matrix(aa.double()), f, sw, W, H, pp, ortho, right)
    return cam_params, view, R, eye, first


def place(spheres, R, eye, right):
    v = torch.tensor([s[:3] for s in spheres]) * torch.tensor([1.0, 1.0, -1.0 if right else 1.0])
    return v @ R.T + eye, torch.tensor([s[3] for s in spheres])


def ids_of(info):
    return info[..., 3::2].contiguous().view(torch.int32), info[..., 4::2]


def compare(what, key, out, info, view, w, col, opy, bg, gamma, n_track, first=None):
    """the image and the forward info against the reference"""
    hit, close, s, depth, near, safe = w
    img, m, d = view.image(w, col.double(), opy.double(), bg, gamma)
    expect_close(out[safe], img[safe], what + ": image", atol=1e-4, rtol=1e-4, key=key + ":image")
    if info is None:
        return
    expect_close(info[..., 0][safe], m[safe], what + ": largest exponent", atol=2e-4, rtol=1e-4, key=key + ":info")
    expect_close(info[..., 1][safe], d[safe], what + ": denominator", atol=2e-4, rtol=1e-4, key=key + ":info")
    nearest = torch.where(hit, near, torch.full_like(near, -1.0)).max(-1)[0]
    expect_close(info[..., 2][safe], nearest[safe], what + ": last possible intersection", atol=1e-4, rtol=1e-5, key=key + ":info")
    ids, dep = ids_of(info)
    far = torch.where(hit, depth, torch.full_like(depth, math.inf))
    dd, order = torch.sort(far, dim=-1)
    k = min(n_track, order.shape[-1])
    want_d = torch.full((*hit.shape[:2], n_track), -1.0, dtype=f64)
    want_i = torch.full((*hit.shape[:2], n_track), -1, dtype=torch.int64)
    want_d[..., :k] = torch.where(dd[..., :k].isfinite(), dd[..., :k], torch.tensor(-1.0, dtype=f64))
    want_i[..., :k] = torch.where(dd[..., :k].isfinite(), order[..., :k], torch.tensor(-1))
    expect_close(dep[safe], want_d[safe], what + ": depths of the nearest spheres", atol=2e-3, key=key + ":depths")
    gap = (dd[..., 1:] - dd[..., :-1]).nan_to_num(1.0).abs().min(-1)[0] if dd.shape[-1] > 1 else torch.ones(hit.shape[:2], dtype=f64)
    sure = safe & (gap > 1e-3)
    expect((ids[sure].long() == want_i[sure]).all(), "%s: ids of the nearest spheres: %s, not %s" % (what, ids[sure].tolist()[:6], want_i[sure].tolist()[:6]), key=key + ":ids")
    batched = info[None]
    expect(torch.equal(Renderer.sphere_ids_from_result_info_nograd(batched)[0].long(), ids.long()), what + ": sphere_ids_from_result_info_nograd", key=key + ":ids")
    expect(torch.equal(Renderer.depth_map_from_result_info_nograd(info), info[..., 4]), what + ": depth_map_from_result_info_nograd", key=key + ":depths")


def run_forward(case, rec):
    cam = case["cam"]
    params, view, R, eye, first = setup(cam)
    W, H = cam[5]
    r = Renderer(W, H, 12, orthogonal_projection=cam[0], right_handed_system=cam[1], background_normalized_depth=0.1)
    for k in case["sizes"]:
        for pick in itertools.permutations(range(len(SPHERES)), k):
            pos, rad = place([SPHERES[i] for i in pick], R, eye, cam[1])
            col = color(k, 3)
            opy = torch.tensor([OPY[i] for i in pick])
            for gamma, use in case["modes"]:
                o = opy if use else torch.ones(k)
                kw = {"opacity": o} if use else {}
                out, info = r(pos, col, rad, params, gamma, 10.0, 2.0, bg_col=BG[:3], percent_allowed_difference=0.0, first_R_then_T=first,
                              return_forward_info=True, **kw)
                w = view.weights(pos.double(), rad.double(), o.double(), gamma)
                compare("%s spheres %s gamma %s" % (cam, pick, gamma), "forward", out, info, view, w, col, o, BG[:3], gamma, 5)
                rec.step()
            hits = r(pos, col, rad, params, 1.0, 10.0, 2.0, bg_col=BG[:3], percent_allowed_difference=0.0, mode=1, first_R_then_T=first)
            expect_close(hits[..., 0][w[5]], w[0].sum(-1).double()[w[5]], "%s spheres %s: number of spheres per pixel" % (cam, pick), key="hits")
            rec.trace()
        rec.state((cam, k, out))


def run_grad(case, rec):
    cam = case["cam"]
    params, view, R, eye, first = setup(cam)
    W, H = cam[5]
    r = Renderer(W, H, 6, orthogonal_projection=cam[0], right_handed_system=cam[1], background_normalized_depth=0.1)
    gim = (color(H * W, 3, f64) - 0.4).reshape(H, W, 3)
    for k in case["sizes"]:
        for pick in itertools.permutations(range(len(FAT)), k):
            what = "%s spheres %s" % (cam, pick)
            pos, rad = place([FAT[i] for i in pick], R, eye, cam[1])
            leaves = [pos, rad, torch.tensor([OPY[i] for i in pick]), color(k, 3), params]
            pos, rad, opy, col, cp = [t.clone().requires_grad_() for t in leaves]
            gamma = 0.5
            out = r(pos, col, rad, cp, gamma, 10.0, 2.0, opacity=opy, bg_col=BG[:3], percent_allowed_difference=0.0, first_R_then_T=first)
            P, Rr, O, C = [t.detach().double().requires_grad_() for t in (pos, rad, opy, col)]
            E, AA = torch.tensor(EYE[cam[2]], dtype=torch.float32).double().requires_grad_(), torch.tensor(AXIS[cam[2]]).double().requires_grad_()
            SW = torch.tensor(6.0 if cam[0] else 2.0, dtype=f64, requires_grad=True)
            v = View(E, axis_angle_to_matrix(AA), 0.0 if cam[0] else 1.0, SW, W, H, cam[4], cam[0], cam[1])
            w = v.weights(P, Rr, O, gamma)
            hit, close, s, depth, near, safe = w
            with torch.no_grad():
                img, m, d = v.image(w, C, O, BG[:3], gamma)
            expect_close(out.detach()[safe], img[safe], what + ": image", atol=1e-4, key="grad:image")
            g = gim
            out.backward(g.float())
            coeff = close * fexp(s - m[..., None]) * O * hit / d[..., None]
            ((coeff[..., None] * (C.detach() - img[:, :, None])) * g[:, :, None]).sum().backward()
            n = hit.sum((0, 1)).clamp(min=1).double()
            gc = (coeff[..., None] * g[:, :, None]).sum((0, 1)).detach()
            scale = float(P.grad.abs().max()) + 1e-3
            if bool(safe.all()):
                # positions and radii of spheres that cover less than 3 columns or rows get no gradient by design
                wide = (hit.any(0).sum(0) >= 3) & (hit.any(1).sum(0) >= 3)
                expect_close(pos.grad[wide], (P.grad / n[:, None])[wide], what + ": gradient of the positions", atol=1e-4 * scale, rtol=1e-3, key="grad:pos")
                expect_close(rad.grad[wide], (Rr.grad / n)[wide], what + ": gradient of the radii", atol=1e-4 * scale, rtol=1e-3, key="grad:rad")
                expect_close(opy.grad, O.grad / n, what + ": gradient of the opacities", atol=1e-4 * scale, rtol=1e-3, key="grad:opy")
                expect_close(col.grad, gc / n[:, None], what + ": gradient of the colours", atol=1e-4 * scale, rtol=1e-3, key="grad:col")
                if k == 1 and cam[3] == "aa" and bool(wide.all()):
                    cg = cp.grad.double()
                    for name, a, b in (("position", cg[:3], E.grad), ("rotation", cg[3:6], AA.grad), ("sensor width", cg[7:8], SW.grad[None])):
                        if b.norm() > 1e-3 * scale:
                            expect_close(a / a.norm().clamp(min=1e-30), b / b.norm(), what + ": direction of the gradient of the camera %s" % name, atol=2e-3, key="grad:cam")
                    ratio = [float(a.norm() / b.norm()) for a, b in ((cg[:3], E.grad), (cg[3:6], AA.grad), (cg[7:8], SW.grad[None])) if b.norm() > 1e-3 * scale]
                    expect(not ratio or max(ratio) < 1.01 * min(ratio), "%s: camera gradients have different scales %s" % (what, ratio), key="grad:cam")
            rec.step()
            rec.trace()
        rec.state((cam, k, pos.grad))


def run_crowd(case, rec):
    """many spheres in a pixel, more than the load buffer of a block holds"""
    n, ortho, right = case["n"], case["ortho"], case["right"]
    cam = (ortho, right, 1, "aa", (0, 0), (5, 4))
    params, view, R, eye, _ = setup(cam)
    i = torch.arange(n, dtype=f64)
    sph = torch.stack([0.8 * torch.sin(i * 2.4), 0.7 * torch.cos(i * 1.7), 3.6 + 5.5 * ((i * 0.618034) % 1.0), 0.5 + 0.4 * torch.sin(i) ** 2], -1)
    order = {"in": i, "near": torch.argsort(sph[:, 2]), "far": torch.argsort(-sph[:, 2]), "mixed": torch.argsort((i * 7) % n * 1.0)}[case["order"]].long()
    sph = sph[order].tolist()
    pos, rad = place(sph, R, eye, right)
    col = color(n, 3)
    opy = 0.3 + 0.7 * color(n, 1)[:, 0]
    for n_track in (1, 3, 5):
        r = Renderer(5, 4, n + case["spare"], orthogonal_projection=ortho, right_handed_system=right, background_normalized_depth=0.1, n_track=n_track)
        for gamma in (1.0, 0.05):
            out, info = r(pos, col, rad, params, gamma, 10.0, 2.0, opacity=opy, bg_col=BG[:3], percent_allowed_difference=0.0, return_forward_info=True)
            w = view.weights(pos.double(), rad.double(), opy.double(), gamma)
            compare("%s %d spheres (%s) gamma %s" % (cam, n, case["order"], gamma), "crowd", out, info, view, w, col, opy, BG[:3], gamma, n_track)
            rec.step()
    rec.state((n, case["order"], out))
    rec.trace()


def run_channels(case, rec):
    for c in range(1, 6):
        for bg in (None, BG):
            for ortho in (False, True):
                cam = (ortho, False, 1, "6d", (2, 0), (9, 7))
                params, view, R, eye, _ = setup(cam)
                r = Renderer(9, 7, 12, orthogonal_projection=ortho, background_normalized_depth=0.1, n_channels=c)
                for pick in itertools.combinations(range(5), 3):
                    pos, rad = place([SPHERES[i] for i in pick], R, eye, False)
                    col = color(3, c).requires_grad_()
                    b = torch.ones(c) if bg is None else bg[:c]
                    kw = {} if bg is None else {"bg_col": b}
                    out, info = r(pos, col, rad, params, 0.3, 10.0, 2.0, percent_allowed_difference=0.0, return_forward_info=True, **kw)
                    one = torch.ones(3)
                    w = view.weights(pos.double(), rad.double(), one.double(), 0.3)
                    compare("%d channels, spheres %s" % (c, pick), "channels", out.detach(), info, view, w, col.detach(), one, b, 0.3, 5)
                    g = color(63, c).reshape(7, 9, c)
                    out.backward(g * w[5][..., None])
                    hit, close, s, *_ = w
                    img, m, d = view.image(w, col.detach().double(), one.double(), b, 0.3)
                    co = close * fexp(s - m[..., None]) * hit / d[..., None] * w[5][..., None]
                    want = (co[..., None] * g.double()[:, :, None]).sum((0, 1)) / hit.sum((0, 1)).clamp(min=1)[:, None]
                    if bool(w[5].all()):
                        expect_close(col.grad, want, "%d channels, spheres %s: gradient of the colours" % (c, pick), atol=1e-4, rtol=1e-3, key="channels:grad")
                    rec.step()
                    rec.trace()
        rec.state(("channels", c, out.detach()))


# ---------------------------------------------------------------- histories of one renderer
SCENES = [(0, 1, 2), (3,), (7,), (4, 2, 1, 0)]


def scene_args(j, cam, batch=False):
    params, view, R, eye, first = setup(cam)
    pos, rad = place([SPHERES[i] for i in SCENES[j]], R, eye, cam[1])
    n = len(SCENES[j])
    return [pos, color(n, 3) * (1 - 0.1 * j), rad, params], torch.tensor([OPY[i] for i in SCENES[j]])


def operation(r, op, cam):
    """runs an operation; returns what it yields as a list of tensors"""
    if op == "back":
        args, opy = scene_args(0, cam)
        args = [a.clone().requires_grad_() for a in args]
        out = r(*args, 0.4, 10.0, 2.0, opacity=opy, percent_allowed_difference=0.0)
        out.sum().backward()
        return [out.detach()] + [a.grad for a in args]
    if op == "hits":
        args, opy = scene_args(3, cam)
        return [r(*args, 0.4, 10.0, 2.0, percent_allowed_difference=0.0, mode=1)[..., 0]]
    if op == "batch":
        sc = [scene_args(j, cam)[0] for j in (0, 0)]
        sc[1][0] = sc[1][0] + 0.125
        return [r(*[torch.stack(x) for x in zip(*sc)], 0.4, 10.0, 2.0, percent_allowed_difference=0.0)]
    args, opy = scene_args(int(op), cam)
    return [r(*args, 0.4, 10.0, 2.0, opacity=opy, percent_allowed_difference=0.0)]


OPS = ("0", "1", "2", "hits", "batch", "back")


def run_history(case, rec):
    cam = (case["ortho"], False, 1, "6d", (0, 0), (9, 7))

    def make():
        return Renderer(9, 7, 6, orthogonal_projection=cam[0], background_normalized_depth=0.1)

    alone = {op: operation(make(), op, cam) for op in OPS}
    for seq in itertools.product(OPS, repeat=case["depth"] - 1):
        seq = (case["first"],) + seq
        r = make()
        # a backward pass that is delayed to the end of the history
        args, opy = scene_args(0, cam)
        late = [a.clone().requires_grad_() for a in args]
        out = r(*late, 0.4, 10.0, 2.0, opacity=opy, percent_allowed_difference=0.0)
        kept = []
        for op in seq:
            kept.append(operation(r, op, cam))
            for a, b in zip(kept[-1], alone[op]):
                expect_close(a, b, "operation %s after %s" % (op, seq), atol=1e-6, key="history")
            rec.step()
        out.sum().backward()
        for a, b in zip([out.detach()] + [x.grad for x in late], alone["back"]):
            expect_close(a, b, "late backward pass after %s" % (seq,), atol=1e-6, key="history:late")
        for op, got in zip(seq, kept):
            for a, b in zip(got, alone[op]):
                expect_close(a, b, "result of %s kept through %s" % (op, seq), atol=1e-6, key="history:kept")
        rec.trace()
        rec.state(seq)


def run_batch(case, rec):
    """an element of a batch is rendered and differentiated as if it were alone"""
    ortho, B = case["ortho"], case["B"]
    picks = list(itertools.permutations(range(5), 2))
    cams = [(ortho, False, p, "6d", (1, 0), (9, 7)) for p in (0, 1)]
    for group in itertools.permutations(range(0, len(picks), 3), B) if B < 3 else itertools.combinations(range(0, len(picks), 2), B):
        items = []
        for n, g in enumerate(group):
            params, view, R, eye, _ = setup(cams[n % 2])
            if params.shape[0] == 11:
                params = torch.cat([params, torch.zeros(2)])
            pos, rad = place([FAT[i] for i in picks[g]], R, eye, False)
            items.append([pos, color(2, 3) * (0.5 + 0.1 * n), rad, params, torch.tensor([OPY[i] for i in picks[g]])])
        r = Renderer(9, 7, 4, orthogonal_projection=ortho, background_normalized_depth=0.1)
        g = color(63, 3).reshape(7, 9, 3)
        bt = [torch.stack(x).requires_grad_() for x in zip(*items)]
        out, info = r(*bt[:4], 0.4, 10.0, 2.0, opacity=bt[4], bg_col=BG[:3], percent_allowed_difference=0.0, return_forward_info=True)
        (out * g).sum().backward()
        for n, it in enumerate(items):
            one = [x.clone().requires_grad_() for x in it]
            o1, i1 = Renderer(9, 7, 4, orthogonal_projection=ortho, background_normalized_depth=0.1)(
                *one[:4], 0.4, 10.0, 2.0, opacity=one[4], bg_col=BG[:3], percent_allowed_difference=0.0, return_forward_info=True)
            (o1 * g).sum().backward()
            expect_close(out[n].detach(), o1.detach(), "batch %s: image %d" % (group, n), atol=1e-6, key="batch")
            expect_close(info[n][..., :3], i1[..., :3], "batch %s: info %d" % (group, n), atol=1e-6, key="batch")
            expect(torch.equal(Renderer.sphere_ids_from_result_info_nograd(info)[n], Renderer.sphere_ids_from_result_info_nograd(i1[None])[0]),
                   "batch %s: sphere ids %d" % (group, n), key="batch")
            for name, a, b in zip(("pos", "col", "rad", "cam", "opacity"), bt, one):
                expect_close(a.grad[n], b.grad, "batch %s: gradient of %s of element %d" % (group, name, n), atol=1e-6 + 1e-5 * float(b.grad.abs().max()), key="batch:" + name)
            rec.step()
        rec.trace()
        rec.state((ortho, group, out.detach()))


# ---------------------------------------------------------------- the unified interface
ZNEARS, ZFARS = (0.5, 0.7, 0.4), (12.0, 9.0, 15.0)


def camera(kind, size, n, pp, f):
    """n cameras and, for each, (focal length, principal point) of x_ndc = f x / z + p"""
    aa = torch.tensor([AXIS[1], (0.0, 2.9, 0.1), (-0.5, 0.2, 1.0)])[:n]
    R, T = axis_angle_to_matrix(aa), torch.tensor([[0.1, -0.2, 5.5], [0.3, 0.1, 6.0], [-0.2, 0.2, 5.0]])[:n]
    intr = []
    if kind in ("persp", "ortho"):
        fl = torch.tensor([[f + 0.125 * i] * 2 for i in range(n)])
        p = torch.tensor([pp] * n, dtype=torch.float32)
        cls = PerspectiveCameras if kind == "persp" else OrthographicCameras
        cams = cls(R=R, T=T, focal_length=fl if kind == "persp" else fl / 4, principal_point=p)
        intr = [(float(x), pp) for x in (fl[:, 0] if kind == "persp" else fl[:, 0] / 4)]
    elif kind in ("fov", "fovrad"):
        deg = torch.tensor([40.0, 55.0, 48.0])[:n]
        cams = FoVPerspectiveCameras(R=R, T=T, fov=deg if kind == "fov" else deg * math.pi / 180, degrees=kind == "fov", znear=torch.tensor(ZNEARS[:n]), zfar=torch.tensor(ZFARS[:n]))
        intr = [(1 / math.tan(math.radians(float(x)) / 2), (0.0, 0.0)) for x in deg]
    else:
        half = torch.tensor([3.0, 3.5, 2.5])[:n]
        cams = FoVOrthographicCameras(R=R, T=T, min_x=-half, max_x=half, min_y=-half, max_y=half, znear=torch.tensor(ZNEARS[:n]), zfar=torch.tensor(ZFARS[:n]))
        intr = [(1 / float(x), (0.0, 0.0)) for x in half]
    return cams, R, T, intr


CLOUDS = [torch.tensor([[0.3, -0.2, 0.1], [0.9, 0.6, -0.4], [-0.7, 0.5, 0.6]]), torch.tensor([[-0.5, 0.8, 0.2], [0.1, 0.1, -0.3]]), torch.tensor([[0.6, -0.7, 0.5]])]


def run_unified(case, rec):
    kind, (H, W), n, shared = case["cams"], case["size"], case["n"], case["shared"]
    s = min(H, W)
    znears, zfars, gammas = ZNEARS, ZFARS, (0.2, 0.6, 0.05)
    for pp in (((0.0, 0.0), (2.0 / s, 0.0), (0.0, 4.0 / s), (-4.0 / s, -2.0 / s)) if kind in ("persp", "ortho") else ((0.0, 0.0),)):
        for f in (1.0, 1.75) if kind in ("persp", "ortho") else (1.0,):
            for radius in ("float", "cloud"):
                cams, R, T, intr = camera(kind, (H, W), 1 if shared else n, pp, f)
                pts = CLOUDS[:n]
                cols = [color(len(p), 3) * (1 - 0.1 * i) for i, p in enumerate(pts)]
                r = 0.55 if radius == "float" else torch.tensor([[0.5], [0.7], [0.6]])[:n] if n > 1 else torch.tensor([0.5])
                rast = PointsRasterizer(cameras=cams, raster_settings=PointsRasterizationSettings(image_size=(H, W), radius=r))
                ren = PulsarPointsRenderer(rasterizer=rast)
                before = {k: v.clone() for k, v in vars(cams).items() if isinstance(v, torch.Tensor)}
                kw = dict(gamma=gammas[:n], znear=znears[:n], zfar=zfars[:n], radius_world=True, percent_allowed_difference=0.0)
                if not kind in ("persp", "ortho"):
                    if not shared:
                        kw.pop("znear"), kw.pop("zfar")
                imgs = [ren(Pointclouds(points=pts, features=cols), **kw) for _ in range(2)]
                what = "%s cameras, %dx%d, pp %s, f %s, %d clouds%s" % (kind, H, W, pp, f, n, " with one camera" if shared else "")
                expect_close(imgs[1], imgs[0], what + ": rendering twice", atol=0, key="unified:twice")
                for k, v in before.items():
                    expect(torch.equal(v, getattr(cams, k)), "%s: rendering changed the cameras' %s" % (what, k), key="unified:twice")
                expect(imgs[0].shape == (n, H, W, 3), what + ": shape of the images", key="unified")
                for i in range(n):
                    j = 0 if shared else i
                    znear, zfar, gamma = znears[i], zfars[i], gammas[i]
                    Rj, Tj, (fl, p) = R[j].double(), T[j].double(), intr[j]
                    ortho = kind in ("ortho", "fovortho")
                    eye = -Rj @ Tj                          # x_view = x R + T
                    # view: x left, y up, z into the scene; the image's columns go right
                    focal = znear - 1e-6
                    ps = 2.0 / (s * fl) * (1.0 if ortho else focal)
                    v = View(eye, torch.stack([-Rj[:, 0], -Rj[:, 1], Rj[:, 2]], -1), 0.0 if ortho else focal, ps * W, W, H, (p[0] * s / 2, -p[1] * s / 2), ortho, False,
                             zmin=znear, zmax=zfar, bgd=1e-6)
                    ri = torch.full((len(pts[i]),), r if radius == "float" else float(r[i]), dtype=f64)
                    one = torch.ones(len(pts[i]), dtype=f64)
                    w = v.weights(pts[i].double(), ri, one, gamma)
                    img, *_ = v.image(w, cols[i].double(), one, torch.zeros(3), gamma)
                    img, safe = img.flip(0), w[5].flip(0)
                    expect_close(imgs[0][i][safe], img[safe], what + ": image %d" % i, atol=2e-3, key="unified")
                    # the brightest place is where the camera sees the points
                    expect(bool(w[0].any()), what + ": nothing in view", key="harness")
                rec.step()
                rec.trace()
                rec.state((what, imgs[0]))


RUN = {"forward": run_forward, "grad": run_grad, "crowd": run_crowd, "channels": run_channels, "history": run_history, "batch": run_batch, "unified": run_unified}


def cases(tier):
    deep = tier == "thorough"
    out = []
    modes = ((1.0, True), (0.1, True), (0.3, False))
    n = 0
    for ortho, right, pose, pp, shape in itertools.product((False, True), (False, True), (0, 1), PPS, SHAPES):
        for enc in ("aa", "6d", "first"):
            cam = (ortho, right, pose, enc, pp, shape)
            n += 1
            out.append({"kind": "forward", "cam": cam, "sizes": (1, 2, 3) if deep or n % 12 == 0 else (1, 2) if enc == "aa" or n % 5 == 0 else (1,), "modes": modes if deep or n % 12 == 0 else modes[n % 3:n % 3 + 1]})
            if enc == "aa" or (deep and shape == SHAPES[0]):
                out.append({"kind": "grad", "cam": cam[:5] + (tuple(x + 3 for x in shape),), "sizes": (1, 2, 3) if deep or n % 4 == 1 else (1, 2)})
    for m in (63, 64, 65, 66, 128, 129, 131) + ((127, 191, 192, 193, 300) if deep else ()):
        for ortho, right in itertools.product((False, True), repeat=2):
            for o in ("in", "near", "far", "mixed"):
                out.append({"kind": "crowd", "n": m, "ortho": ortho, "right": right, "order": o, "spare": m % 2})
    out.append({"kind": "channels"})
    for ortho in (False, True):
        for op in OPS:
            out.append({"kind": "history", "ortho": ortho, "first": op, "depth": 4 if deep else 3})
        for B in (1, 2, 3):
            out.append({"kind": "batch", "ortho": ortho, "B": B})
    for ck in ("persp", "ortho", "fov", "fovrad", "fovortho"):
        for size in ((9, 9), (8, 8), (8, 11), (9, 13), (13, 9), (11, 8)):
            if ck in ("fov", "fovrad") and size[0] > size[1]:
                continue
            for k in (1, 2, 3):
                for shared in (False, True) if k > 1 else (False,):
                    out.append({"kind": "unified", "cams": ck, "size": size, "n": k, "shared": shared})
    return out


def run(case, rec):
    torch.set_num_threads(1)
    RUN[case["kind"]](case, rec)
